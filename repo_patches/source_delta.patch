From 2d91cf9cf50acc89d08e59a0046ae7b089c82152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 01/47] fix: escape strings in the JSON report

---
 oclint-reporters/reporters/JSONReporter.cpp | 34 ++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..125f662 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -59,6 +59,38 @@ public:
         writeKeyValue(out, "timestamp", now);
     }
 
+    std::string jsonEscape(const std::string &data)
+    {
+        static const char hexDigits[] = "0123456789abcdef";
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '"':
+                    output += "\\\"";
+                    break;
+                case '\\':
+                    output += "\\\\";
+                    break;
+                default:
+                    if (static_cast<unsigned char>(c) < 0x20)
+                    {
+                        output += "\\u00";
+                        output += hexDigits[(c >> 4) & 0xf];
+                        output += hexDigits[c & 0xf];
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeKey(std::ostream &out, std::string key)
     {
         out << "\"" << key << "\":";
@@ -75,7 +107,7 @@ public:
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << jsonEscape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From 4c1e4831dfa9da6d865a09c5d694c7f77c3b6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 02/47] fix: do not narrow the time stamp of the JSON report

---
 oclint-reporters/reporters/JSONReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index 125f662..bbd29f1 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -111,7 +111,7 @@ public:
         writeComma(out, last);
     }
 
-    void writeKeyValue(std::ostream &out, std::string key, int value, bool last = false)
+    void writeKeyValue(std::ostream &out, std::string key, long long value, bool last = false)
     {
         writeKey(out, key);
         out << value;
-- 
2.43.0


From 6f4825e20ad047cb6c8186c87186b20f8cc65081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 03/47] fix: write the month of the XML report's date as 01 to
 12

---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..1bf7364 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From 3a86661e24544c15af123e6c011c4abf1defb06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 04/47] fix: escape attribute values in the XML report

---
 oclint-reporters/reporters/XMLReporter.cpp | 45 ++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 1bf7364..ceda9dc 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -89,6 +89,51 @@ public:
         out << "></violation>";
     }
 
+    std::string xmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch(c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&apos;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, const std::string &value)
+    {
+        out << " " << key << "=\"" << xmlEscape(value) << "\"";
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From ea1157502cfd6a2bc82b63a33880dfe9f98ee753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 05/47] fix: escape path, rule and category in the PMD report

---
 oclint-reporters/reporters/PMDReporter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..9db16da 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscape(name) << "\" ";
+            out << "ruleset=\"" << xmlEscape(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,7 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
-- 
2.43.0


From c0f4ae62e69c0547c98530d1c068080b521f3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:29 +0000
Subject: [PATCH 06/47] fix: escape text in the HTML report

---
 oclint-reporters/reporters/HTMLReporter.cpp | 41 +++++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..bd3d1c8 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,50 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string htmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch(c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << htmlEscape(rule->name()) << "</td>"
+            << "<td>" << htmlEscape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +125,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << htmlEscape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 858645ea54447ada92170b12d4ab6eb31913178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 07/47] fix: count fields only where the class is defined, not
 at its forward declarations

---
 oclint-rules/rules/size/TooManyFieldsRule.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oclint-rules/rules/size/TooManyFieldsRule.cpp b/oclint-rules/rules/size/TooManyFieldsRule.cpp
index 5aa4707..df5f8ee 100644
--- a/oclint-rules/rules/size/TooManyFieldsRule.cpp
+++ b/oclint-rules/rules/size/TooManyFieldsRule.cpp
@@ -76,6 +76,11 @@ public:
 
     bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
+
         int fieldCount = decl->ivar_size();
         if (fieldCount > _threshold)
         {
@@ -88,6 +93,11 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
+        if (!decl->isThisDeclarationADefinition())
+        {
+            return true;
+        }
+
         int fieldCount = distance(decl->field_begin(), decl->field_end());
         if (fieldCount > _threshold)
         {
-- 
2.43.0


From 8916c7147c7dcaf34ad7e9ffce7a9a57922d812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 08/47] fix: count only the methods a class declares, not those
 the compiler adds

---
 oclint-rules/rules/size/TooManyMethodsRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/size/TooManyMethodsRule.cpp b/oclint-rules/rules/size/TooManyMethodsRule.cpp
index 2425b1e..0238b6b 100644
--- a/oclint-rules/rules/size/TooManyMethodsRule.cpp
+++ b/oclint-rules/rules/size/TooManyMethodsRule.cpp
@@ -96,7 +96,8 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        int methodCount = distance(decl->method_begin(), decl->method_end());
+        int methodCount = count_if(decl->method_begin(), decl->method_end(),
+            [](CXXMethodDecl *method) { return !method->isImplicit(); });
         if (methodCount > _threshold)
         {
             string description = "C++ class with " + toString<int>(methodCount) +
-- 
2.43.0


From bf2eac25eed54a3314b369f8c100f6592c6929a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 09/47] fix: keep the NPath complexity at the largest number
 instead of overflowing

---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 31 +++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..6990b16 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,23 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <limits>
+
 using namespace oclint;
 
+// the number of paths grows exponentially, stay at the largest number instead of overflowing
+static int saturate(long long npath)
+{
+    const long long maximum = std::numeric_limits<int>::max();
+    return static_cast<int>(npath > maximum ? maximum : npath);
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = saturate(1LL * npath * nPath(*body));
     }
     return npath;
 }
@@ -21,17 +30,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return saturate(1LL * nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return saturate(1LL * nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return saturate(1LL * nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,8 +68,8 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    return saturate(1LL * nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
+        + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -73,7 +82,7 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return saturate(1LL * nPath(stmt->getBody()) + 2);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -82,7 +91,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return saturate(1LL * nPathSwitchStmt + nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -90,15 +99,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = saturate(1LL * nPathSwitchStmt + internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = saturate(1LL * internalNPath * nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return saturate(1LL * nPathSwitchStmt + internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
-- 
2.43.0


From 21398e5d28be64b41e38d847b375ec8539179b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 10/47] fix: an operator applied to another through a
 conversion (C++ !-x) is a multiple unary operator too

---
 oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp b/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
index c303f36..8376d29 100644
--- a/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
+++ b/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
@@ -58,12 +58,7 @@ public:
 
     bool VisitUnaryOperator(UnaryOperator *unaryOperator)
     {
-        Expr *subExpr = unaryOperator->getSubExpr();
-        while (subExpr && isa<ParenExpr>(subExpr))
-        {
-            ParenExpr *parenExpr = dyn_cast<ParenExpr>(subExpr);
-            subExpr = parenExpr->getSubExpr();
-        }
+        Expr *subExpr = unaryOperator->getSubExpr()->IgnoreParenImpCasts();
         if (subExpr && isa<UnaryOperator>(subExpr))
         {
             UnaryOperator *subUnaryOperator = dyn_cast<UnaryOperator>(subExpr);
-- 
2.43.0


From 91b4f7fb19e52a1681ac2c9006bd0ea37d66cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 11/47] fix: a switch missing a break was reported twice

---
 .../rules/convention/MissingBreakInSwitchStatementRule.cpp       | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp b/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp
index 3dc6cc1..263bdcb 100644
--- a/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/MissingBreakInSwitchStatementRule.cpp
@@ -135,7 +135,6 @@ public:
             {
                 if (!breakFound)
                 {
-                    addViolation(switchStmt, this);
                     break;
                 }
 
-- 
2.43.0


From 6fb31d6fa84b71de516574e5d21ccb869f3b7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 12/47] fix: assigning a local variable that hides a parameter
 is no parameter reassignment

---
 oclint-rules/rules/convention/ParameterReassignmentRule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index 3c0d6c8..c7a85d8 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -28,6 +28,10 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
             if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
             {
                 DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
+                if (!isa<ParmVarDecl>(declRefExpr->getDecl()))
+                {
+                    return true;
+                }
                 for (const auto& name : _names)
                 {
                     if (declRefExpr->getFoundDecl()->getNameAsString() == name)
-- 
2.43.0


From 7f4dc39601b8d793dc1597154751508ef837023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 13/47] fix: the cases of a switch within a switch are not the
 outer one's

---
 .../TooFewBranchesInSwitchStatementRule.cpp     | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..ee1fbfa 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,7 +9,7 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+    class CountCaseStmts
     {
     private:
         int _count;
@@ -18,15 +18,16 @@ class TooFewBranchesInSwitchStatementRule :
         int count(SwitchStmt *switchStmt)
         {
             _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
+            for (SwitchCase *switchCase = switchStmt->getSwitchCaseList(); switchCase;
+                switchCase = switchCase->getNextSwitchCase())
+            {
+                if (isa<CaseStmt>(switchCase))
+                {
+                    _count++;
+                }
+            }
             return _count;
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
     };
 
 public:
-- 
2.43.0


From ce74ad6c78ffc8d02918bbbca2a25afa720dff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 14/47] fix: returning another variable of the same name (::x)
 does not make the local one redundant

---
 oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
index b3539cf..8d6f7ae 100644
--- a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
@@ -89,7 +89,7 @@ public:
         {
             NamedDecl *returnDeclRef = extractReturnDeclRef(compoundStmt);
             NamedDecl *namedDecl = extractNamedDecl(compoundStmt);
-            if (returnDeclRef && namedDecl && returnDeclRef->getName() == namedDecl->getName())
+            if (returnDeclRef && namedDecl && returnDeclRef == namedDecl)
             {
                 addViolation(namedDecl, this);
             }
-- 
2.43.0


From 31c13b869f540f09b5b62328ae0fbe27fcbddf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 15/47] fix: assignments to different variables do not make an
 if statement redundant

---
 oclint-rules/rules/redundant/RedundantIfStatementRule.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index 9f4b1cc..161f7c1 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -1,5 +1,6 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace std;
 using namespace clang;
@@ -71,7 +72,10 @@ private:
 
     bool doesBinaryOperatorsViolateRule(BinaryOperator *first, BinaryOperator *second)
     {
-        return first && second && isNotEquals(first->getRHS(), second->getRHS());
+        return first && second &&
+            first->getOpcode() == BO_Assign && second->getOpcode() == BO_Assign &&
+            areSameExpr(*_carrier->getASTContext(), *first->getLHS(), *second->getLHS()) &&
+            isNotEquals(first->getRHS(), second->getRHS());
     }
 
 public:
-- 
2.43.0


From f4445cfcc08032cfdda1205cdb3bf122a64bd0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 16/47] fix: different numbers cast to a small type, (char)2
 and (char)3, are not the same constant

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..a7dde95 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -66,8 +66,9 @@ private:
                 dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
             IntegerLiteral *falseInteger =
                 dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr());
-            return trueInteger && falseInteger && trueInteger->getValue().getBoolValue() !=
-                falseInteger->getValue().getBoolValue();
+            return trueInteger && falseInteger &&
+                trueInteger->getValue().ule(1) && falseInteger->getValue().ule(1) &&
+                trueInteger->getValue() != falseInteger->getValue();
         }
         return false;
     }
@@ -83,8 +84,8 @@ private:
                 dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
             IntegerLiteral *falseInteger =
                 dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr());
-            return trueInteger && falseInteger && trueInteger->getValue().getBoolValue() ==
-                falseInteger->getValue().getBoolValue();
+            return trueInteger && falseInteger &&
+                trueInteger->getValue() == falseInteger->getValue();
         }
         return false;
     }
-- 
2.43.0


From 21e29ad5d5e8862ea077ea927f7379e53e729b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 17/47] fix: code after a block that is re-entered at a label
 is not dead

---
 oclint-rules/rules/basic/DeadCodeRule.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oclint-rules/rules/basic/DeadCodeRule.cpp b/oclint-rules/rules/basic/DeadCodeRule.cpp
index 0466782..a0acbe4 100644
--- a/oclint-rules/rules/basic/DeadCodeRule.cpp
+++ b/oclint-rules/rules/basic/DeadCodeRule.cpp
@@ -40,17 +40,17 @@ public: // Visitor methods
     EExitType VisitSwitchCase(const SwitchCase* stmt) { return Visit(stmt->getSubStmt()); }
     EExitType VisitCompoundStmt(const CompoundStmt* compoundStmt)
     {
+        EExitType exitType = NoExit;
         for (CompoundStmt::const_body_iterator body = compoundStmt->body_begin(),
             bodyEnd = compoundStmt->body_end(); body != bodyEnd; body++)
         {
-            const EExitType exitType = Visit(*body);
-
-            if (exitType != NoExit)
+            // code behind a label can be reached from elsewhere
+            if (exitType == NoExit || isAnyLabelStmt(**body))
             {
-                return exitType;
+                exitType = Visit(*body);
             }
         }
-        return NoExit;
+        return exitType;
     }
 
     EExitType VisitIfStmt(const IfStmt* ifStmt)
-- 
2.43.0


From f7e6f350cf3d30fb14b58bf4b9bbc29e4e5e1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 18/47] fix: a loop variable after one with a long name may be
 short too

---
 oclint-rules/rules/naming/ShortVariableNameRule.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..ef4baff 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -104,11 +104,6 @@ public:
         std::string varName = varDecl->getNameAsString();
         int nameLength = varName.size();
         int threshold = RuleConfiguration::intForKey("SHORT_VARIABLE_NAME", 3);
-        if (nameLength <= 0 || nameLength >= threshold)
-        {
-            return true;
-        }
-
         if (!_suppressVarDecls.empty())
         {
             VarDecl *topVarDecl = _suppressVarDecls.top();
@@ -119,6 +114,11 @@ public:
             }
         }
 
+        if (nameLength <= 0 || nameLength >= threshold)
+        {
+            return true;
+        }
+
         string description = "Length of variable name `" + varName +
             "` is " + toString<int>(nameLength) +
             ", which is shorter than the threshold of " + toString<int>(threshold);
-- 
2.43.0


From 8a8e85af108c3526e35500a9c30dfb3740f35032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 19/47] fix: recognise nil defined as ((void *)0) in nil checks

---
 oclint-rules/rules/abstract/AbstractNullCheckRule.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/abstract/AbstractNullCheckRule.h b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
index dc0fe54..2b5620a 100644
--- a/oclint-rules/rules/abstract/AbstractNullCheckRule.h
+++ b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
@@ -16,7 +16,8 @@ protected:
             {
                 return true;
             }
-            if (castKind == clang::CK_BitCast)
+            if (castKind == clang::CK_BitCast ||
+                castKind == clang::CK_CPointerToObjCPointerCast)
             {
                 clang::Expr *subExpr = implicitCastExpr->getSubExpr();
                 while (subExpr && clang::isa<clang::ParenExpr>(subExpr))
-- 
2.43.0


From e40f2c0d42ac0cd4878c5e79774c7a4a6e2e2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 20/47] fix: a case right after the default label makes that
 label ill-placed too

---
 ...faultLabelNotLastInSwitchStatementRule.cpp | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp b/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
index e62e1cb..cd2f2ed 100644
--- a/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp
@@ -68,20 +68,30 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        // SwitchCaseList has a linked data structure in the reversed order
-
-        SwitchCase *currentSwitchCase = switchStmt->getSwitchCaseList();
+        // SwitchCaseList is in order of parsing: a case within the statement
+        // of the default label comes before it there, but after it in the source
+        DefaultStmt *defaultStmt = nullptr;
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList();
+            switchCase && !defaultStmt; switchCase = switchCase->getNextSwitchCase())
+        {
+            defaultStmt = dyn_cast<DefaultStmt>(switchCase);
+        }
+        if (!defaultStmt)
+        {
+            return true;
+        }
 
-        while (currentSwitchCase && isa<CaseStmt>(currentSwitchCase))
+        SourceManager &sourceManager = _carrier->getSourceManager();
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList();
+            switchCase; switchCase = switchCase->getNextSwitchCase())
         {
-            SwitchCase *nextSwitchCase = currentSwitchCase->getNextSwitchCase();
-            if (nextSwitchCase && isa<DefaultStmt>(nextSwitchCase))
+            if (isa<CaseStmt>(switchCase) && sourceManager.isBeforeInTranslationUnit(
+                defaultStmt->getKeywordLoc(), switchCase->getKeywordLoc()))
             {
-                addViolation(nextSwitchCase, this);
+                addViolation(defaultStmt, this);
+                break;
             }
-            currentSwitchCase = nextSwitchCase;
         }
-
         return true;
     }
 };
-- 
2.43.0


From 892fb50089c99e8c7d0b03baac09535670466340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 21/47] fix: report the assignment to a parameter of a function
 within a function once

---
 oclint-rules/rules/convention/ParameterReassignmentRule.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index c7a85d8..9c2eedb 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -10,12 +10,14 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     class BinaryOperatorAnalyzer : public RecursiveASTVisitor<BinaryOperatorAnalyzer>
     {
     private:
+        const DeclContext *_context;
         vector<string> _names;
         vector<BinaryOperator*> _binaryOperators;
 
     public:
         vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)
         {
+            _context = dyn_cast<DeclContext>(decl);
             _names = names;
             _binaryOperators.clear();
             (void) /* explicitly ignore the return of this function */ TraverseDecl(decl);
@@ -28,7 +30,8 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
             if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
             {
                 DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
-                if (!isa<ParmVarDecl>(declRefExpr->getDecl()))
+                ParmVarDecl *parmVarDecl = dyn_cast<ParmVarDecl>(declRefExpr->getDecl());
+                if (!parmVarDecl || parmVarDecl->getDeclContext() != _context)
                 {
                     return true;
                 }
-- 
2.43.0


From 1390bb5fa718a0aa94d6c5ad45d6a463cf3715f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 22/47] fix: branches that set or return numbers other than 0
 and 1 do not make an if statement redundant

---
 oclint-rules/rules/redundant/RedundantIfStatementRule.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index 161f7c1..29fcb52 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -32,6 +32,7 @@ private:
         IntegerLiteral *thenInteger = dyn_cast_or_null<IntegerLiteral>(thenExpr);
         IntegerLiteral *elseInteger = dyn_cast_or_null<IntegerLiteral>(elseExpr);
         return thenInteger && elseInteger &&
+            thenInteger->getValue().ule(1) && elseInteger->getValue().ule(1) &&
             thenInteger->getValue().getBoolValue() != elseInteger->getValue().getBoolValue();
     }
 
-- 
2.43.0


From 19d7205f0fdfba41c10591e4b04f097659a1df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 23/47] fix: the same variable or string in both branches is
 redundant in C++ too

---
 .../RedundantConditionalOperatorRule.cpp         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index a7dde95..c86b917 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -20,6 +20,14 @@ private:
         return nullptr;
     }
 
+    // in C++ a conditional operator may leave both its branches unconverted
+    template<typename nodeType>
+    nodeType* extractFromBranch(Expr *fromExpr)
+    {
+        nodeType *node = dyn_cast_or_null<nodeType>(fromExpr);
+        return node ? node : extractFromImplicitCastExpr<nodeType>(fromExpr);
+    }
+
     bool isCXXBoolNotEquals(Expr *trueExpr, Expr *falseExpr)
     {
         CXXBoolLiteralExpr *trueCXXBool = dyn_cast_or_null<CXXBoolLiteralExpr>(trueExpr);
@@ -115,8 +123,8 @@ private:
 
     bool isStringLiteralEquals(Expr *trueExpr, Expr *falseExpr)
     {
-        StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
-        StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
+        StringLiteral *trueStr = extractFromBranch<StringLiteral>(trueExpr);
+        StringLiteral *falseStr = extractFromBranch<StringLiteral>(falseExpr);
         return trueStr && falseStr && trueStr->getString() == falseStr->getString();
     }
 
@@ -140,8 +148,8 @@ private:
 
     bool isSameVariable(Expr *trueExpr, Expr *falseExpr)
     {
-        DeclRefExpr *trueDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(trueExpr);
-        DeclRefExpr *falseDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(falseExpr);
+        DeclRefExpr *trueDeclRef = extractFromBranch<DeclRefExpr>(trueExpr);
+        DeclRefExpr *falseDeclRef = extractFromBranch<DeclRefExpr>(falseExpr);
         return trueDeclRef && falseDeclRef && trueDeclRef->getDecl() == falseDeclRef->getDecl();
     }
 
-- 
2.43.0


From fdb559b3c0965df532d5d4697f6bc343bfab7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 24/47] fix: class methods and protocols of class extensions
 leave no choice of parameters either

---
 oclint-rules/lib/util/ASTUtil.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index e538545..9beb099 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -11,7 +11,8 @@ bool isObjCMethodDeclaredInSuperClass(clang::ObjCMethodDecl *decl)
         if (interfaceDecl)
         {
             clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
-            return superInterface && superInterface->lookupInstanceMethod(selector);
+            return superInterface &&
+                superInterface->lookupMethod(selector, decl->isInstanceMethod());
         }
     }
     return false;
@@ -28,11 +29,13 @@ bool isObjCMethodDeclaredInProtocol(clang::ObjCMethodDecl *decl)
     clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface();
     if (interfaceDecl)
     {
-        for (clang::ObjCProtocolList::iterator protocol = interfaceDecl->protocol_begin(),
-            protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
+        for (clang::ObjCProtocolList::iterator protocol =
+            interfaceDecl->all_referenced_protocol_begin(),
+            protocolEnd = interfaceDecl->all_referenced_protocol_end();
+            protocol != protocolEnd; protocol++)
         {
             clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
-            if (protocolDecl->lookupInstanceMethod(selector))
+            if (protocolDecl->lookupMethod(selector, decl->isInstanceMethod()))
             {
                 return true;
             }
-- 
2.43.0


From 3c76190f0484f9c1d18508259723e5b01c6a64e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 25/47] fix: the name of a parameter within a type is no unused
 parameter

---
 oclint-rules/rules/unused/UnusedMethodParameterRule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 866c0c1..95d76e8 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -72,6 +72,10 @@ private:
     bool isExistingByContract(ParmVarDecl *decl)
     {
         DeclContext *lexicalContext = decl->getLexicalDeclContext();
+        if (!lexicalContext->isFunctionOrMethod())
+        {
+            return true; // names a parameter in a type, e.g. of a function pointer
+        }
         while (lexicalContext)
         {
             if (isExistingByContract(lexicalContext))
-- 
2.43.0


From 38a86a7234120670c379896eec70c6eb57e41777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 26/47] fix: suppressing a function suppresses what is found at
 its parameters too

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..663b187 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -46,6 +46,11 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
     {
         return markedParentsAsSuppress(*aStmt, context, rule);
     }
+    const clang::TypeLoc *aTypeLoc = dynTypedNode->get<clang::TypeLoc>();
+    if (aTypeLoc) // e.g. of a function, which its parameters are part of
+    {
+        return markedParentsAsSuppress(*aTypeLoc, context, rule);
+    }
 
     return false;
 }
-- 
2.43.0


From d62b8b419f3a6015f395e6d71e4836471cde8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 27/47] fix: settings read from a configuration file no longer
 refer to the freed file

---
 oclint-driver/include/oclint/ConfigFile.h | 25 ++++++++++++-----------
 oclint-driver/lib/ConfigFile.cpp          | 15 +++++++-------
 oclint-driver/lib/Options.cpp             | 10 ++++-----
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..d79a0c6 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <string>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -14,12 +15,12 @@ namespace option
 class RuleConfigurationPair
 {
 private:
-    llvm::StringRef _key;
-    llvm::StringRef _value;
+    std::string _key;
+    std::string _value;
 
 public:
-    const llvm::StringRef &key() const;
-    const llvm::StringRef &value() const;
+    const std::string &key() const;
+    const std::string &value() const;
 
     void mapping(llvm::yaml::IO& io);
 };
@@ -30,12 +31,12 @@ class ConfigFile
 {
 private:
     std::string _path;
-    std::vector<llvm::StringRef> _rules;
-    std::vector<llvm::StringRef> _disableRules;
-    std::vector<llvm::StringRef> _rulePaths;
+    std::vector<std::string> _rules;
+    std::vector<std::string> _disableRules;
+    std::vector<std::string> _rulePaths;
     std::vector<RuleConfigurationPair> _ruleConfigurations;
-    llvm::StringRef _output;
-    llvm::StringRef _reportType;
+    std::string _output;
+    std::string _reportType;
     int _maxP1;
     int _maxP2;
     int _maxP3;
@@ -47,9 +48,9 @@ public:
     explicit ConfigFile(const std::string &path);
 
     const std::string &path() const;
-    const std::vector<llvm::StringRef> &rules() const;
-    const std::vector<llvm::StringRef> &disableRules() const;
-    const std::vector<llvm::StringRef> &rulePaths() const;
+    const std::vector<std::string> &rules() const;
+    const std::vector<std::string> &disableRules() const;
+    const std::vector<std::string> &rulePaths() const;
     const std::vector<RuleConfigurationPair> &ruleConfigurations() const;
     std::optional<std::string> output() const;
     std::optional<std::string> reportType() const;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..a19a412 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -31,12 +31,12 @@ struct MappingTraits<RuleConfigurationPair>
 }
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::key() const
+const std::string &oclint::option::RuleConfigurationPair::key() const
 {
     return _key;
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::value() const
+const std::string &oclint::option::RuleConfigurationPair::value() const
 {
     return _value;
 }
@@ -111,17 +111,17 @@ const std::string &oclint::option::ConfigFile::path() const
     return _path;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rules() const
+const std::vector<std::string> &oclint::option::ConfigFile::rules() const
 {
     return _rules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::disableRules() const
+const std::vector<std::string> &oclint::option::ConfigFile::disableRules() const
 {
     return _disableRules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rulePaths() const
+const std::vector<std::string> &oclint::option::ConfigFile::rulePaths() const
 {
     return _rulePaths;
 }
@@ -131,10 +131,9 @@ const std::vector<RuleConfigurationPair> &oclint::option::ConfigFile::ruleConfig
     return _ruleConfigurations;
 }
 
-static std::optional<std::string> createOptionalString(const llvm::StringRef &value)
+static std::optional<std::string> createOptionalString(const std::string &value)
 {
-    const std::string &string = value.str();
-    return string.size() ? std::optional<std::string>(string) : std::optional<std::string>();
+    return value.size() ? std::optional<std::string>(value) : std::optional<std::string>();
 }
 
 std::optional<std::string> oclint::option::ConfigFile::output() const
diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..789647e 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -143,22 +143,22 @@ static void processConfigFile(const std::string &path)
     oclint::option::ConfigFile config(path);
     for (const oclint::option::RuleConfigurationPair &ruleConfig : config.ruleConfigurations())
     {
-        consumeRuleConfiguration(ruleConfig.key().str(), ruleConfig.value().str());
+        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
     }
-    for (const llvm::StringRef &rulePath : config.rulePaths())
+    for (const std::string &rulePath : config.rulePaths())
     {
-        argRulesPath.push_back(rulePath.str());
+        argRulesPath.push_back(rulePath);
     }
     std::vector<std::string> enableRules;
     for (auto rule : config.rules())
     {
-        enableRules.push_back(rule.str());
+        enableRules.push_back(rule);
     }
     filter.enableRules(enableRules.begin(), enableRules.end());
     std::vector<std::string> disableRules;
     for (auto rule : config.disableRules())
     {
-        disableRules.push_back(rule.str());
+        disableRules.push_back(rule);
     }
     filter.disableRules(disableRules.begin(), disableRules.end());
 
-- 
2.43.0


From 66fcebe486fd4a9eed54a0acab789be5fb60b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 28/47] fix: working directories with long paths are no longer
 taken for the root

---
 oclint-driver/lib/Options.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 789647e..3391282 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -1,5 +1,7 @@
 #include "oclint/Options.h"
 
+#include <cstdlib>
+
 #include <unistd.h>
 
 #include <llvm/Option/OptTable.h>
@@ -180,10 +182,11 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    char *path = getcwd(nullptr, 0);
+    if (path)
     {
         absoluteWorkingPath = std::string(path);
+        free(path);
     }
 }
 
-- 
2.43.0


From 4fb2cca7d204dc953055d53b0b1e9fce299b5edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 29/47] fix: an empty output path is an error to report, no
 crash

---
 oclint-driver/lib/Options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 3391282..6c9d852 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -280,7 +280,8 @@ bool oclint::option::hasOutputPath()
 
 std::string oclint::option::outputPath()
 {
-    return argOutput.at(0) == '/' ? argOutput : workingPath() + "/" + argOutput;
+    return !argOutput.empty() && argOutput.at(0) == '/' ?
+        argOutput : workingPath() + "/" + argOutput;
 }
 
 std::string oclint::option::reportType()
-- 
2.43.0


From ea8f6ed679b314e94c32a446d9de7c975694d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 30/47] fix: apply rules to C89 code too

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..3835ae8 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -77,11 +77,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From 7b24e1ecfe38941f289ca3e50484f06a32004f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 31/47] fix: judge destructors where the class is defined, not
 at its forward declarations

---
 .../BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp       | 2 +-
 oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
index be32722..560bb49 100644
--- a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
+++ b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
@@ -109,7 +109,7 @@ Sutter & Alexandrescu (November 2004).
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic())
         {
             check(*cxxRecordDecl, cxxRecordDecl->bases_begin(), cxxRecordDecl->bases_end());
diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index b1f0b92..46e15de 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -69,7 +69,7 @@ public:
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic()
             && !hasVirtualDestructor(*cxxRecordDecl))
         {
-- 
2.43.0


From e786f3a4202e17c6ce0a7f037287cff060f2a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 32/47] fix: class methods call super too

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..938f9ce 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+            || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
-- 
2.43.0


From c5263c971aa527f570cf4d77a267c0d1fceb8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 33/47] fix: only implementations can call super, declarations
 cannot

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 938f9ce..b81e3c8 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -130,7 +130,7 @@ public:
         string selectorName = decl->getSelector().getAsString();
 
         // Figure out if anything in the super chain is marked
-        if(declRequiresSuperCall(decl)) {
+        if(decl->hasBody() && declRequiresSuperCall(decl)) {
             // If so, start a separate checker to look for method sends just in the method body
             ContainsCallToSuperMethod checker(selectorName);
             checker.TraverseDecl(decl);
-- 
2.43.0


From 350775c40821845023ac67553110ca6073342904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 34/47] fix: no crash for protected methods declared in
 protocols

---
 oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..487dee9 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -58,7 +58,9 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
+                // methods declared in protocols belong to no class
+                const auto methodClass = expr->getMethodDecl()->getClassInterface();
+                const auto sourceClass = methodClass ? methodClass : expr->getReceiverInterface();
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-- 
2.43.0


From dfe27d9db2a199fd9d65cfd53710fd3cabaabfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 35/47] fix: protected methods are not to be called from
 categories of other classes either

---
 oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index 487dee9..52d0eb6 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -50,7 +50,7 @@ namespace {
 class ObjCVerifyProtectedMethodRule : public AbstractASTVisitorRule<ObjCVerifyProtectedMethodRule>
 {
 public:
-    bool VisitObjCImplementationDecl(ObjCImplementationDecl* decl) {
+    bool VisitObjCImplDecl(ObjCImplDecl* decl) {
         const auto interface = decl->getClassInterface();
 
         if(interface) {
-- 
2.43.0


From 112116e517a261535c5f5c6eaf1620130923349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 36/47] fix: a class may call its protected methods on
 instances of its subclasses

---
 .../rules/cocoa/ObjCVerifyProtectedMethodRule.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index 52d0eb6..1bd3a92 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -11,6 +11,12 @@ using namespace oclint;
 
 namespace {
 
+    // methods declared in protocols belong to no class
+    const ObjCInterfaceDecl* classOfMethod(const ObjCMessageExpr& expr) {
+        const auto methodClass = expr.getMethodDecl()->getClassInterface();
+        return methodClass ? methodClass : expr.getReceiverInterface();
+    }
+
     class CheckMethodsInsideClass : public RecursiveASTVisitor<CheckMethodsInsideClass>
     {
         private:
@@ -33,7 +39,8 @@ namespace {
                 return true;
             }
 
-            if(!isObjCInterfaceClassOrSubclass(&_container, interface->getNameAsString())) {
+            const auto sourceClass = classOfMethod(*expr);
+            if(!isObjCInterfaceClassOrSubclass(&_container, sourceClass->getNameAsString())) {
                 _violations.push_back(expr);
             }
 
@@ -58,9 +65,7 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                // methods declared in protocols belong to no class
-                const auto methodClass = expr->getMethodDecl()->getClassInterface();
-                const auto sourceClass = methodClass ? methodClass : expr->getReceiverInterface();
+                const auto sourceClass = classOfMethod(*expr);
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-- 
2.43.0


From 3d8d892aede84b7961ed3ef6adc783f2028ce487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 37/47] fix: character literals can be number literals in
 Objective-C++ too

---
 .../rules/migration/ObjCNSNumberLiteralsRule.cpp       | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
index 23cf142..718ddd6 100644
--- a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
+++ b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
@@ -10,13 +10,9 @@ class ObjCNSNumberLiteralsRule : public AbstractASTVisitorRule<ObjCNSNumberLiter
 private:
     bool isCharLiteral(Expr *expr, string &selectorString)
     {
-        if (selectorString == "numberWithChar:" && expr && isa<ImplicitCastExpr>(expr))
-        {
-            ImplicitCastExpr *implicitCastExpr = dyn_cast<ImplicitCastExpr>(expr);
-            Expr *subExpr = implicitCastExpr->getSubExpr();
-            return subExpr && isa<CharacterLiteral>(subExpr);
-        }
-        return false;
+        // the type of character literals is int in Objective-C, char in Objective-C++
+        return selectorString == "numberWithChar:" && expr &&
+            isa<CharacterLiteral>(expr->IgnoreImpCasts());
     }
 
     template <typename T>
-- 
2.43.0


From 704d21b0e0fbf076a7b9c19a9356b5b550df458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 38/47] fix: self in a class method is no other class

---
 oclint-rules/rules/design/FeatureEnvyRule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oclint-rules/rules/design/FeatureEnvyRule.cpp b/oclint-rules/rules/design/FeatureEnvyRule.cpp
index 54515c5..9390ee7 100644
--- a/oclint-rules/rules/design/FeatureEnvyRule.cpp
+++ b/oclint-rules/rules/design/FeatureEnvyRule.cpp
@@ -16,6 +16,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
     class MessageAnalyzer : public RecursiveASTVisitor<MessageAnalyzer>
     {
         unordered_map<string, long> _receiversCount;
+        string _selfName;
 
     public:
         vector<string> analyzeObjC(ObjCMethodDecl *decl)
@@ -44,6 +45,11 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
                     {
                         countInterface(node->getReceiverInterface());
                     }
+                    else if (node->getInstanceReceiver()->isObjCSelfExpr())
+                    {
+                        // self in a class method is the class
+                        countClassName(_selfName);
+                    }
                 }
                 else if (node->getReceiverKind() == ObjCMessageExpr::Class)
                 {
@@ -85,6 +91,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
         vector<string> analyzeCommon(string selfName, Decl *decl)
         {
             _receiversCount.clear();
+            _selfName = selfName;
             TraverseDecl(decl);
 
             return enviedClasses(selfMessages(selfName));
-- 
2.43.0


From ebc51c253bb762b9a12196baa3aca3f42d846560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 39/47] fix: YES and NO can be number literals in Objective-C++
 too

---
 oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
index 718ddd6..92ec0e7 100644
--- a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
+++ b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
@@ -36,7 +36,8 @@ private:
             {
                 CStyleCastExpr *cStyleCastExpr =
                     dyn_cast<CStyleCastExpr>(dyn_cast<ParenExpr>(expr)->getSubExpr());
-                return cStyleCastExpr && isa<IntegerLiteral>(cStyleCastExpr->getSubExpr()) &&
+                return cStyleCastExpr &&
+                    isa<IntegerLiteral>(cStyleCastExpr->getSubExprAsWritten()) &&
                     cStyleCastExpr->getType().getAsString() == "BOOL";
             }
 
-- 
2.43.0


From 223b588cc46888091981a4d12c3150f3879f35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:16 +0000
Subject: [PATCH 40/47] fix: what one rule on lines leaves out does not depend
 on the rule before it

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 663b187..22f4ec9 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -1,5 +1,6 @@
 #include "oclint/helper/SuppressHelper.h"
 
+#include <map>
 #include <regex>
 #include <set>
 #include <unordered_map>
@@ -171,19 +172,20 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
     return commentLines.find(beginLine) != commentLines.end();
 }
 
-typedef std::unordered_map<std::string, RangeSet> RangeMap;
+// what is suppressed depends on the rule, so the ranges are kept by file and rule
+typedef std::map<std::pair<std::string, std::string>, RangeSet> RangeMap;
 static RangeMap rangeMapping;
 
 bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentRangesIt = rangeMapping.find(filePath);
+    auto key = std::make_pair(getMainFilePath(context), rule->name());
+    auto commentRangesIt = rangeMapping.find(key);
     RangeSet commentRanges;
     if (commentRangesIt == rangeMapping.end())
     {
         DeclAnnotationRangeCollector annotationCollector;
         commentRanges = annotationCollector.collect(context, rule);
-        rangeMapping[filePath] = commentRanges;
+        rangeMapping[key] = commentRanges;
     }
     else
     {
-- 
2.43.0


From aff8cbbd6c972936967f42acfd35e68bdaf060cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:04 +0000
Subject: [PATCH 41/47] fix: only steps jumble the variable of the outer loop,
 taking its address does not

---
 oclint-rules/rules/basic/JumbledIncrementerRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/basic/JumbledIncrementerRule.cpp b/oclint-rules/rules/basic/JumbledIncrementerRule.cpp
index e9f0907..e300002 100644
--- a/oclint-rules/rules/basic/JumbledIncrementerRule.cpp
+++ b/oclint-rules/rules/basic/JumbledIncrementerRule.cpp
@@ -21,7 +21,7 @@ private:
     ValueDecl *valueDeclFromIncExpr(Expr *incExpr)
     {
         UnaryOperator *unaryOperator = dyn_cast_or_null<UnaryOperator>(incExpr);
-        if (unaryOperator)
+        if (unaryOperator && unaryOperator->isIncrementDecrementOp())
         {
             Expr *unaryOpSubExpr = unaryOperator->getSubExpr();
             if (unaryOpSubExpr && isa<DeclRefExpr>(unaryOpSubExpr))
-- 
2.43.0


From d27dda585d50487ecaa6bb4fd678eac4bc04e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:14 +0000
Subject: [PATCH 42/47] fix: a library that is no reporter is an error to
 report, no crash

---
 oclint-driver/reporters_dlfcn_port.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-driver/reporters_dlfcn_port.cpp b/oclint-driver/reporters_dlfcn_port.cpp
index c02d9af..a16d8a1 100644
--- a/oclint-driver/reporters_dlfcn_port.cpp
+++ b/oclint-driver/reporters_dlfcn_port.cpp
@@ -33,6 +33,11 @@ void loadReporter()
             }
             oclint::Reporter* (*createMethodPointer)();
             createMethodPointer = (oclint::Reporter* (*)())dlsym(reporterHandle, "create");
+            if (createMethodPointer == nullptr)
+            {
+                closedir(pDir);
+                throw oclint::GenericException("not a reporter library: " + reporterPath);
+            }
             oclint::Reporter* reporter = (oclint::Reporter*)createMethodPointer();
             if (reporter->name() == oclint::option::reportType())
             {
-- 
2.43.0


From 3a5ceac0c41e83a65c1fa4401b376ea51d8f4d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:24 +0000
Subject: [PATCH 43/47] fix: pointers and references to RAII class templates
 are unused variables like others

---
 oclint-rules/rules/unused/UnusedLocalVariableRule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oclint-rules/rules/unused/UnusedLocalVariableRule.cpp b/oclint-rules/rules/unused/UnusedLocalVariableRule.cpp
index 39f702c..5744dbf 100644
--- a/oclint-rules/rules/unused/UnusedLocalVariableRule.cpp
+++ b/oclint-rules/rules/unused/UnusedLocalVariableRule.cpp
@@ -108,6 +108,13 @@ private:
 
     bool isRAIIClass(VarDecl *varDecl)
     {
+        // Pointers and references to such a class do nothing themselves
+        auto const varType = varDecl->getType();
+        if (varType->isPointerType() || varType->isReferenceType())
+        {
+            return false;
+        }
+
         // Getting ride of any template definition which might follow
         auto varTypeName = varDecl->getType().getCanonicalType().getAsString();
         auto const templPos = varTypeName.find('<');
-- 
2.43.0


From 9626e5732796566f9d5272a63fb19cad4895113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:10 +0000
Subject: [PATCH 44/47] fix: parameters used in members of class templates are
 not unused

---
 oclint-rules/rules/unused/UnusedMethodParameterRule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 95d76e8..f0d4d1c 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -18,7 +18,9 @@ private:
         FunctionDecl *decl = dyn_cast_or_null<FunctionDecl>(varDecl->getLexicalDeclContext());
         if (decl)
         {
-            return decl->getTemplatedKind() == FunctionDecl::TK_NonTemplate;
+            // clang does not tell what is used in members of class templates
+            return decl->getTemplatedKind() == FunctionDecl::TK_NonTemplate &&
+                !decl->isDependentContext();
         }
         return true;
     }
-- 
2.43.0


From 3e21c781b82296cac7df59490c69de3d13ffdb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 45/47] fix: the static analyzer gets the whole command,
 wherever -fsyntax-only is in it

---
 oclint-driver/lib/Driver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index d05445c..2a78eeb 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -184,20 +184,20 @@ static clang::CompilerInvocation *newCompilerInvocation(
     commandLine[0] = mainExecutable;
 
     std::vector<const char*> argv;
-    int start = 0, end = commandLine.size();
+    argv.push_back(commandLine[0].c_str());
     if (runClangChecker)
     {
-        argv.push_back(commandLine[0].c_str());
         argv.push_back("--analyze");
-        start = 1;
-        end -= 1;
     }
-    for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
+    for (size_t cmdIndex = 1; cmdIndex != commandLine.size(); cmdIndex++)
     {
-        if (commandLine[cmdIndex] != "-gmodules")
+        // the syntax-only action, wherever it is, would win over the static analyzer
+        if (commandLine[cmdIndex] == "-gmodules" ||
+            (runClangChecker && commandLine[cmdIndex] == "-fsyntax-only"))
         {
-            argv.push_back(commandLine[cmdIndex].c_str());
+            continue;
         }
+        argv.push_back(commandLine[cmdIndex].c_str());
     }
     argv.push_back("-D__OCLINT__");
 
-- 
2.43.0


From cf2ee053d7b2cf9828ffd51618139a8a27ac3334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 46/47] fix: __OCLINT__ is defined for commands that end their
 options with --

---
 oclint-driver/lib/Driver.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 2a78eeb..3ce0b98 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -189,8 +189,14 @@ static clang::CompilerInvocation *newCompilerInvocation(
     {
         argv.push_back("--analyze");
     }
+    bool endOfOptions = false;
     for (size_t cmdIndex = 1; cmdIndex != commandLine.size(); cmdIndex++)
     {
+        if (!endOfOptions && commandLine[cmdIndex] == "--")
+        {
+            argv.push_back("-D__OCLINT__");
+            endOfOptions = true;
+        }
         // the syntax-only action, wherever it is, would win over the static analyzer
         if (commandLine[cmdIndex] == "-gmodules" ||
             (runClangChecker && commandLine[cmdIndex] == "-fsyntax-only"))
@@ -199,7 +205,10 @@ static clang::CompilerInvocation *newCompilerInvocation(
         }
         argv.push_back(commandLine[cmdIndex].c_str());
     }
-    argv.push_back("-D__OCLINT__");
+    if (!endOfOptions)
+    {
+        argv.push_back("-D__OCLINT__");
+    }
 
     // create diagnostic engine
     auto diagOpts = std::make_unique<clang::DiagnosticOptions>();
-- 
2.43.0


From 4f7791aabcaff866ba7efbaee15f6d9fe9079e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:12 +0000
Subject: [PATCH 47/47] fix: class templates with a virtual destructor have one

---
 oclint-rules/include/oclint/util/ASTUtil.h    |  2 ++
 oclint-rules/lib/util/ASTUtil.cpp             | 36 +++++++++++++++++++
 ...structorShouldBeVirtualOrProtectedRule.cpp |  8 ++++-
 .../DestructorOfVirtualClassRule.cpp          | 10 ++----
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/oclint-rules/include/oclint/util/ASTUtil.h b/oclint-rules/include/oclint/util/ASTUtil.h
index fe5c5fb..c5bbcd3 100644
--- a/oclint-rules/include/oclint/util/ASTUtil.h
+++ b/oclint-rules/include/oclint/util/ASTUtil.h
@@ -9,6 +9,8 @@ bool isObjCMethodDeclLocatedInInterfaceContainer(clang::ObjCMethodDecl *decl);
 bool isObjCMethodDeclInChildOfClass(const clang::ObjCMethodDecl* decl, const std::string& className);
 bool isObjCInterfaceClassOrSubclass(const clang::ObjCInterfaceDecl* decl, const std::string& className);
 bool isCppMethodDeclLocatedInCppRecordDecl(clang::CXXMethodDecl *decl);
+const clang::CXXDestructorDecl* getDestructor(const clang::CXXRecordDecl& record);
+bool mayHaveVirtualDestructor(const clang::CXXRecordDecl& record);
 bool isANullPointerExpr(const clang::Expr& expr);
 bool areSameExpr(clang::ASTContext& context, const clang::Expr& lhs, const clang::Expr& rhs);
 const clang::Expr* ignoreCastExpr(const clang::Expr& expr);
diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index 9beb099..716903a 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -90,6 +90,42 @@ bool isCppMethodDeclLocatedInCppRecordDecl(clang::CXXMethodDecl *decl)
     return false;
 }
 
+const clang::CXXDestructorDecl* getDestructor(const clang::CXXRecordDecl& record)
+{
+    if (const clang::CXXDestructorDecl* destructor = record.getDestructor())
+    {
+        return destructor;
+    }
+    // clang does not select the destructors of templates
+    for (const clang::CXXMethodDecl* method : record.methods())
+    {
+        if (const auto* destructor = clang::dyn_cast<clang::CXXDestructorDecl>(method))
+        {
+            return destructor;
+        }
+    }
+    return nullptr;
+}
+
+bool mayHaveVirtualDestructor(const clang::CXXRecordDecl& record)
+{
+    const clang::CXXDestructorDecl* destructor = getDestructor(record);
+    if (destructor && destructor->isVirtual())
+    {
+        return true;
+    }
+    for (const clang::CXXBaseSpecifier& base : record.bases())
+    {
+        const clang::CXXRecordDecl* baseClass = base.getType()->getAsCXXRecordDecl();
+        // a base that depends on template arguments can be any class
+        if (!baseClass || (baseClass->hasDefinition() && mayHaveVirtualDestructor(*baseClass)))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 bool isANullPointerExpr(const clang::Expr& expr)
 {
     for (const clang::CastExpr* castExpr = clang::dyn_cast<clang::CastExpr>(&expr);
diff --git a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
index 560bb49..6d63700 100644
--- a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
+++ b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
@@ -1,11 +1,17 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace clang;
 
 static bool hasVirtualOrProtectedDestructor(const CXXRecordDecl& cxxRecordDecl)
 {
-    const CXXDestructorDecl* cxxDestructorDecl = cxxRecordDecl.getDestructor();
+    if (mayHaveVirtualDestructor(cxxRecordDecl))
+    {
+        return true;
+    }
+
+    const CXXDestructorDecl* cxxDestructorDecl = getDestructor(cxxRecordDecl);
 
     if (cxxDestructorDecl == nullptr)
     {
diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index 46e15de..cf1037a 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -1,15 +1,9 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace clang;
 
-static bool hasVirtualDestructor(const CXXRecordDecl& cxxRecordDecl)
-{
-    const CXXDestructorDecl* cxxDestructorDecl = cxxRecordDecl.getDestructor();
-
-    return cxxDestructorDecl != nullptr && cxxDestructorDecl->isVirtual();
-}
-
 static std::string getMessageViolation(const CXXRecordDecl& cxxRecordDecl)
 {
     const std::string& className = cxxRecordDecl.getNameAsString();
@@ -71,7 +65,7 @@ public:
         if (cxxRecordDecl != nullptr
             && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic()
-            && !hasVirtualDestructor(*cxxRecordDecl))
+            && !mayHaveVirtualDestructor(*cxxRecordDecl))
         {
             addViolation(cxxRecordDecl, this, getMessageViolation(*cxxRecordDecl));
         }
-- 
2.43.0

