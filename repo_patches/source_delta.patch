From 29a457bbf26949cc611130d9132535ab828c9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:09 +0000
Subject: [PATCH 01/51] fix: Gregorian century correction in ExcelDateFromYMD
 (misplaced parentheses shifted dates from 2034-03-01)

---
 dal/time/date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/time/date.cpp b/dal/time/date.cpp
index 2e944e0..ce39d71 100644
--- a/dal/time/date.cpp
+++ b/dal/time/date.cpp
@@ -30,7 +30,7 @@ namespace Dal {
             // based on Vogelpoel's port of now-lost pseudocode
             // ignore Excel bug around 29 Feb 1900 -- dates before then will be wrong
             return (1461 * (yy + (mm - 14) / 12)) / 4 + (367 * (mm - 2 - 12 * ((mm - 14) / 12))) / 12 -
-                   (3 * ((yy + 4900 + (mm - 14) / 12)) / 100) / 4 + dd - 693894;
+                   (3 * ((yy + 4900 + (mm - 14) / 12) / 100)) / 4 + dd - 693894;
         }
 
         uint16_t SerialFromYMD(int yy, int mm, int dd) {
-- 
2.43.0


From 3c2c9dfaa7078c3c3d5eaa07a3a65302df0585c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:47 +0000
Subject: [PATCH 02/51] fix: DateTime hour/minute/second and millisecond
 read-back truncated below the stored instant

---
 dal/time/datetime.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dal/time/datetime.cpp b/dal/time/datetime.cpp
index b9b096e..4f1360b 100644
--- a/dal/time/datetime.cpp
+++ b/dal/time/datetime.cpp
@@ -10,9 +10,11 @@ namespace Dal {
 
     namespace {
         void FracToHMS(double frac, int* h, int* m, int* s) {
-            ASSIGN(h, static_cast<int>(24 * frac));
-            ASSIGN(m, static_cast<int>(1440 * frac) % 60);
-            ASSIGN(s, static_cast<int>(86400 * frac) % 60);
+            // whole seconds, with a small tolerance so that n / 86400. is read back as n
+            const int secs = std::min(86399, static_cast<int>(86400 * frac + 1.0e-6));
+            ASSIGN(h, secs / 3600);
+            ASSIGN(m, secs / 60 % 60);
+            ASSIGN(s, secs % 60);
         }
     } // namespace
 
@@ -83,7 +85,7 @@ namespace Dal {
 
         long long MSec(const DateTime_& dt) {
             long long days = dt.Date() - Date::Minimum();
-            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000);
+            return 86400000 * days + static_cast<long long>(dt.Frac() * 86400000 + 0.5);
         }
     } // namespace DateTime
 } // namespace Dal
-- 
2.43.0


From 39a02e374bd3479a55a42382be9d3be7ab2e8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:17 +0000
Subject: [PATCH 03/51] fix: day counts: ACT/365L annual looped forever and
 missed a 29 February end; 30/360 did not cap the 30th/31st

---
 dal/time/daybasis.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dal/time/daybasis.cpp b/dal/time/daybasis.cpp
index 10b4a27..e23133f 100644
--- a/dal/time/daybasis.cpp
+++ b/dal/time/daybasis.cpp
@@ -27,8 +27,8 @@ namespace Dal {
             for (;;) {
                 if (mm > 2)
                     ++yy;
-                mm = 2;
-                if (Date_(yy, 3, 1) > to)
+                mm = 3; // the next February to consider is next year's
+                if (Date::EndOfMonth(Date_(yy, 2, 1)) > to)
                     return 365.0;
                 if (Date::DaysInMonth(yy, 2) == 29)
                     return 366.0;
@@ -57,8 +57,10 @@ namespace Dal {
                     d2 = 30;
                 d1 = 30;
             }
-            if (d1 > 30)
+            if (d1 >= 30) {
+                d1 = 30;
                 d2 = std::min(d1, d2);
+            }
             return (360 * (y2 - y1) + 30 * (m2 - m1) + (d2 - d1)) / 360.0;
         }
     } // namespace
-- 
2.43.0


From 37bf36c9f4add8370fa9dd4bdc8dad926ed432a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:10 +0000
Subject: [PATCH 04/51] fix: stepping to quarterly IMM/CDS dates from other
 months and to the next month end

---
 dal/time/dateincrement.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dal/time/dateincrement.cpp b/dal/time/dateincrement.cpp
index 3b75d5d..31c1dd6 100644
--- a/dal/time/dateincrement.cpp
+++ b/dal/time/dateincrement.cpp
@@ -59,7 +59,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= 20 : dd <= 20) {
+        if (mm % 3 || (forward ? dd >= 20 : dd <= 20)) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % 3);
@@ -75,7 +75,7 @@ namespace {
         int mm = Date::Month(from);
         int dd = Date::Day(from);
 
-        if (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm)) {
+        if (mm % imm_months || (forward ? dd >= IMMDay(yy, mm) : dd <= IMMDay(yy, mm))) {
             do {
                 mm += forward ? 1 : -1;
             } while (mm % imm_months);
@@ -95,7 +95,7 @@ namespace {
         case Value_::IMM1:
             return ToIMM(from, forward, 1);
         case Value_::EOM:
-            return forward ? Date::EndOfMonth(from) : Date_(Date::Year(from), Date::Month(from), 1).AddDays(-1);
+            return forward ? Date::EndOfMonth(from.AddDays(1)) : Date_(Date::Year(from), Date::Month(from), 1).AddDays(-1);
         }
     }
 
-- 
2.43.0


From d76e9807b0fa53dcba08dc2c40d2f2b7291e2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:40 +0000
Subject: [PATCH 05/51] fix: String::Equivalent indexed its bitset with a
 signed char for non-ASCII bytes

---
 dal/string/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index ea2fcb8..358b87d 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -88,7 +88,7 @@ namespace Dal::String {
         auto p = lhs.begin();
         auto q = rhs;
         while (true) {
-            while (p != lhs.end() && SKIP[*p])
+            while (p != lhs.end() && SKIP[static_cast<unsigned char>(*p)])
                 ++p;
             if (!*q || p == lhs.end())
                 return !*q && p == lhs.end();
-- 
2.43.0


From 98b4517f51e165fbb47452751ff59b66d12903a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:24 +0000
Subject: [PATCH 06/51] fix: cells holding numbers beyond 32 bits could not be
 printed or tested for integrality

---
 dal/math/cell.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/cell.cpp b/dal/math/cell.cpp
index 83d4330..d1a1563 100644
--- a/dal/math/cell.cpp
+++ b/dal/math/cell.cpp
@@ -13,6 +13,8 @@ namespace Dal {
     namespace {
         struct ToString_ {
             String_ operator()(double d) const {
+                if (!(std::fabs(d) < 2147483647.))
+                    return String::FromDouble(d);
                 int ii = AsInt(d);
                 return ii == d ? String::FromInt(ii) : String::FromDouble(d);
             }
@@ -42,6 +44,8 @@ namespace Dal {
 
         struct IsInt_ {
             bool operator()(double d) const {
+                if (!(std::fabs(d) < 2147483647.))
+                    return false;
                 int ii = AsInt(d);
                 return ii == d;
             }
-- 
2.43.0


From 4781990cf90abd3097f8183cfc976fe4bf2d051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:24 +0000
Subject: [PATCH 07/51] fix: Dictionary::FromString rejected the empty values
 Dictionary::ToString writes

---
 dal/utilities/dictionary.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dal/utilities/dictionary.cpp b/dal/utilities/dictionary.cpp
index 2408eef..c5e12b6 100644
--- a/dal/utilities/dictionary.cpp
+++ b/dal/utilities/dictionary.cpp
@@ -56,6 +56,8 @@ namespace Dal {
         Dictionary_ ret_val;
         for (const auto& kev : entries) {
             Vector_<String_> kv = String::Split(kev, '=', true);
+            if (kv.size() == 1 && kev.back() == '=')
+                kv.emplace_back(); // Split does not report a final empty piece; 'key=' means an empty value
             REQUIRE(kv.size() == 2, "Dictionary entry must have the form 'key=value'");
             REQUIRE(!kv.front().empty(), "Empty dictionary key");
             const String_& vs = kv.back();
-- 
2.43.0


From e9dad357bdc69d196ed091b8d803368c60f2d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:03 +0000
Subject: [PATCH 08/51] fix: iterating a block list whose last block is exactly
 full ran past its end (Tape_::ResetAdjoints)

---
 dal/math/aad/blocklist.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dal/math/aad/blocklist.hpp b/dal/math/aad/blocklist.hpp
index 81cfb88..3280ed0 100644
--- a/dal/math/aad/blocklist.hpp
+++ b/dal/math/aad/blocklist.hpp
@@ -53,6 +53,13 @@ namespace Dal::AAD {
             }
         }
 
+        // keeps nextSpace_ inside a block, so that End() is what iterating past the last element of a full block gives
+        void Advance(size_t n) {
+            nextSpace_ += n;
+            if (nextSpace_ == lastSpace_)
+                NextBlock();
+        }
+
     public:
         struct BlockPosition_ {
             iterator currBlock_;
@@ -91,7 +98,7 @@ namespace Dal::AAD {
             if (nextSpace_ == lastSpace_)
                 NextBlock();
             T_* emplaced = new (&*nextSpace_) T_(std::forward<Args_>(args)...);
-            ++nextSpace_;
+            Advance(1);
             return emplaced;
         }
 
@@ -99,7 +106,7 @@ namespace Dal::AAD {
             if (nextSpace_ == lastSpace_)
                 NextBlock();
             auto old_next = nextSpace_;
-            ++nextSpace_;
+            Advance(1);
             return &*old_next;
         }
 
@@ -107,7 +114,7 @@ namespace Dal::AAD {
             if (std::distance(nextSpace_, lastSpace_) < static_cast<int>(N_))
                 NextBlock();
             auto old_next = nextSpace_;
-            nextSpace_ += N_;
+            Advance(N_);
             return &*old_next;
         }
 
@@ -115,7 +122,7 @@ namespace Dal::AAD {
             if (std::distance(nextSpace_, lastSpace_) < static_cast<int>(n))
                 NextBlock();
             auto old_next = nextSpace_;
-            nextSpace_ += n;
+            Advance(n);
             return &*old_next;
         }
 
-- 
2.43.0


From f44434469539953e81c83c59ebd5240e3eb33fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 09/51] fix: the script parser read past the last token when a
 condition, function name or DCF argument list ends the script

---
 dal/script/parser.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 4f34e63..19f8510 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -243,7 +243,7 @@ namespace Dal::Script {
 
     void Parser_::ParseCondOptionals(TokIt_& cur, const TokIt_& end, double& eps) {
         eps = -1.0;
-        while (*cur == ";" || *cur == ":") {
+        while (cur != end && (*cur == ";" || *cur == ":")) {
             const char c = (*cur)[0];
             ++cur;
             REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
@@ -254,7 +254,7 @@ namespace Dal::Script {
 
     double Parser_::ParseDCF(TokIt_& cur, const TokIt_& end) {
         // TODO: we assume `DCF` function won't contain another nested function
-        REQUIRE2((*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following `DCF`", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
         ++cur;
 
@@ -265,7 +265,6 @@ namespace Dal::Script {
             day_basis += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `start` for `DCF", ScriptError_);
@@ -275,7 +274,6 @@ namespace Dal::Script {
             start_date += *cur;
             ++cur;
         }
-        ++cur;
         while (cur != closeIt && (*cur)[0] == ',')
             ++cur;
         REQUIRE2(cur != closeIt, "doesn't find `end` for `DCF", ScriptError_);
@@ -292,7 +290,7 @@ namespace Dal::Script {
     }
 
     Vector_<Expression_> Parser_::ParseFuncArg(TokIt_& cur, const TokIt_& end) {
-        REQUIRE2((*cur)[0] == '(', "No opening ( following function name", ScriptError_);
+        REQUIRE2(cur != end && (*cur)[0] == '(', "No opening ( following function name", ScriptError_);
         auto closeIt = FindMatch<'(', ')'>(cur, end);
 
         //	Parse expressions between parentheses
-- 
2.43.0


From 1f66abd4ecedf0522fb9e0ed71fb50e7f38b365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 10/51] fix: the script parser silently dropped tokens left
 over inside parentheses

---
 dal/script/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/script/parser.hpp b/dal/script/parser.hpp
index 18b1a7f..18e7de5 100644
--- a/dal/script/parser.hpp
+++ b/dal/script/parser.hpp
@@ -49,6 +49,7 @@ namespace Dal::Script {
                 // Parse the parentheses condition/expression, including nested parentheses,
                 // by recursively calling the parent parseCond/parseExpr
                 tree = (this->*FuncOnMatch_)(++cur, closeIt);
+                REQUIRE2(cur == closeIt, "unexpected token inside parentheses", ScriptError_);
 
                 // Advance cur after matching ")"
                 cur = ++closeIt;
-- 
2.43.0


From 5f59d67d5d680abcd824d8f3d7aea4d41908144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 11/51] fix: assigning to a constant macro wrote into an
 unrelated (or non-existing) variable; reject it

---
 dal/script/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 19f8510..5fe2334 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -345,6 +345,7 @@ namespace Dal::Script {
     Statement_ Parser_::ParseStatement(TokIt_& cur, const TokIt_& end) {
         if (*cur == "IF")
             return ParseIf(cur, end);
+        REQUIRE2(constVariables_.find(*cur) == constVariables_.end(), String_("Constant ") + *cur + " can't be assigned or paid into", ScriptError_);
         auto lhs = ParseVar(cur);
         REQUIRE2(cur != end, "unexpected end of statement", ScriptError_);
         if (*cur == "=")
-- 
2.43.0


From a428e339c22ab0de3a3fa046fd6be28fdea2e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 12/51] fix: the script parser accepted the operator ^ as a
 variable name

---
 dal/script/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index 5fe2334..dc4bdc5 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -129,7 +129,8 @@ namespace Dal::Script {
     }
 
     Expression_ Parser_::ParseVar(TokIt_& cur) {
-        REQUIRE2((*cur)[0] >= 'A' && (*cur)[0] <= 'z', String_("Variable name ") + *cur + " is invalid", ScriptError_);
+        const char first = (*cur)[0];
+        REQUIRE2((first >= 'A' && first <= 'Z') || (first >= 'a' && first <= 'z') || first == '_', String_("Variable name ") + *cur + " is invalid", ScriptError_);
         REQUIRE2(RESERVED_KEY_WORDS.find(*cur) == RESERVED_KEY_WORDS.end(),
                  String_("Variable name ") + *cur + " is conflicted with an existing key word", ScriptError_);
         String_ name(*cur);
-- 
2.43.0


From c7fbc2e28ce65243c9d2d57dfe3b6350fab7021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:13 +0000
Subject: [PATCH 13/51] fix: MIN and MAX in scripts ignored all arguments after
 the second

---
 dal/script/parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dal/script/parser.cpp b/dal/script/parser.cpp
index dc4bdc5..a7a0ccb 100644
--- a/dal/script/parser.cpp
+++ b/dal/script/parser.cpp
@@ -112,6 +112,15 @@ namespace Dal::Script {
                 top->arguments_ = ParseFuncArg(cur, end);
                 if (top->arguments_.size() < minArg || top->arguments_.size() > maxArg)
                     THROW2(String_("Function ") + func + String_(": wrong number of arguments_"), ScriptError_);
+
+                //	min/max nodes are binary: more arguments nest, max(a, b, c) = max(max(a, b), c)
+                if (maxArg > 2) {
+                    auto args = std::move(top->arguments_);
+                    auto fold = std::move(args[0]);
+                    for (size_t i = 1; i < args.size(); ++i)
+                        fold = func == "MIN" ? MakeBaseBinary<NodeMin_>(fold, args[i]) : MakeBaseBinary<NodeMax_>(fold, args[i]);
+                    top = std::move(fold);
+                }
             }
             //	Return
             return top;
-- 
2.43.0


From c47e30a212116f8713cc69d6722cbe91bdf74d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:54 +0000
Subject: [PATCH 14/51] fix: moving a script evaluator dropped its initial
 variable values

---
 dal/script/visitor/evaluator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/evaluator.hpp b/dal/script/visitor/evaluator.hpp
index 5ba70b1..6f2a95e 100644
--- a/dal/script/visitor/evaluator.hpp
+++ b/dal/script/visitor/evaluator.hpp
@@ -59,7 +59,7 @@ namespace Dal::Script {
         }
 
         EvaluatorBase_(EvaluatorBase_&& rhs) noexcept
-            : variables_(std::move(rhs.variables_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
+            : variables_(std::move(rhs.variables_)), variablesInit_(std::move(rhs.variablesInit_)), constVariables_(std::move(rhs.constVariables_)), curEvt_(rhs.curEvt_) {
             bStack_ = rhs.bStack_;
             scenario_ = rhs.scenario_;
         }
-- 
2.43.0


From d465be673e559dcde3bd7aa2f61c14a3c9f86041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 15/51] fix: compiled IF/ELSE popped the condition stack below
 its start after the nested evaluation

---
 dal/script/visitor/compiler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index e48d02a..bdb9a8c 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -512,14 +512,14 @@ namespace Dal::Script {
                 bStack.Pop();
                 break;
             case IfElse:
-                if (!bStack.Top()) {
+                //  Pop the condition first: the nested call resets the stacks
+                if (!bStack.TopAndPop()) {
                     i = nodeStream[++i];
                 } else {
                     //  Cannot avoid nested call here
                     EvalCompiled(nodeStream, constStream, dataStream, scenario, state, i + 3, nodeStream[i + 1]);
                     i = nodeStream[i + 2];
                 }
-                bStack.Pop();
                 break;
             case Equal:
                 bStack.Push(dStack.TopAndPop() == 0);
-- 
2.43.0


From 5b42a0f47e6bc6fdb2c94dc0f8248104b01d3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:30 +0000
Subject: [PATCH 16/51] fix: compiled scripts folded macro constants, so their
 sensitivities came out as zero

---
 dal/script/node.hpp             | 3 ++-
 dal/script/visitor/compiler.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dal/script/node.hpp b/dal/script/node.hpp
index 75fd1b2..fd69847 100644
--- a/dal/script/node.hpp
+++ b/dal/script/node.hpp
@@ -108,7 +108,8 @@ namespace Dal::Script {
 
     struct NodeConstVar_: public Visitable_<ExprNode_, NodeConstVar_, VISITORS> {
         explicit NodeConstVar_(String_ name, double val) : name_(std::move(name)), index_(-1) {
-            ExprNode_::isConst_ = true;
+            // an input of the evaluation (we need its sensitivities), hence not to be folded
+            ExprNode_::isConst_ = false;
             ExprNode_::constVal_ = val;
         }
 
diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index bdb9a8c..bd059b2 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -300,8 +300,7 @@ namespace Dal::Script {
 
         void Visit(const NodeConstVar_& node) {
             nodeStream_.emplace_back(ConstVar);
-            nodeStream_.emplace_back(static_cast<int>(constStream_.size()));
-            constStream_.emplace_back(node.constVal_);
+            nodeStream_.emplace_back(node.index_);
         }
 
         void Visit(const NodeConst_& node) {
@@ -476,6 +475,9 @@ namespace Dal::Script {
                 ++i;
                 break;
             case ConstVar:
+                dStack.Push(state.constVariables_[nodeStream[++i]]);
+                ++i;
+                break;
             case Const:
                 dStack.Push(constStream[nodeStream[++i]]);
                 ++i;
-- 
2.43.0


From 86a9836a108f214bf6dc68a3b0e69a674f9a0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 17/51] fix: compiled constant >= conditions used a tolerance
 the interpreter does not

---
 dal/script/visitor/compiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/compiler.hpp b/dal/script/visitor/compiler.hpp
index bd059b2..c0ad3d0 100644
--- a/dal/script/visitor/compiler.hpp
+++ b/dal/script/visitor/compiler.hpp
@@ -237,7 +237,7 @@ namespace Dal::Script {
             VisitCondition<Sup>(node, [](double x) { return x > 0.0; });
         }
         void Visit(const NodeSupEqual_& node) {
-            VisitCondition<SupEqual>(node, [](double x) { return x > -Dal::EPSILON; });
+            VisitCondition<SupEqual>(node, [](double x) { return x >= 0.0; });
         }
 
         //  And/Or/Not
-- 
2.43.0


From c339642b57bec0757b4ae8429faf07cde9d12639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:23 +0000
Subject: [PATCH 18/51] fix: domain processing took logarithms to be
 non-negative and removed live branches

---
 dal/script/visitor/domainproc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/domainproc.hpp b/dal/script/visitor/domainproc.hpp
index 70e2ceb..7dafa89 100644
--- a/dal/script/visitor/domainproc.hpp
+++ b/dal/script/visitor/domainproc.hpp
@@ -119,7 +119,7 @@ namespace Dal::Script {
         void Visit(NodeLog_& node) {
             VisitArguments(node);
             Domain_ res = domStack_.Top().ApplyFunc<double (*)(double)>(
-                log, Interval_(Bound_(0.0), Bound_(Bound_::plusInfinity_)));
+                log, Interval_(Bound_(Bound_::minusInfinity_), Bound_(Bound_::plusInfinity_)));
             domStack_.Pop();
             domStack_.Push(std::move(res));
         }
-- 
2.43.0


From 9416e695caa3b897707fa8ac7b4dfff78b164a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:33 +0000
Subject: [PATCH 19/51] fix: smoothed evaluation of != used the exact
 evaluator's boolean stack

---
 dal/script/visitor/fuzzy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/script/visitor/fuzzy.hpp b/dal/script/visitor/fuzzy.hpp
index a5ed36d..eff808c 100644
--- a/dal/script/visitor/fuzzy.hpp
+++ b/dal/script/visitor/fuzzy.hpp
@@ -239,7 +239,7 @@ namespace Dal::Script {
         FORCE_INLINE void Visit(const NodeSupEqual_& node) { VisitComp(node); }
 
         // Negation
-        FORCE_INLINE void visitNot(const NodeNot_& node) {
+        FORCE_INLINE void Visit(const NodeNot_& node) {
             VisitNode(*node.arguments_[0]);
             fuzzyStack_.Top() = 1.0 - fuzzyStack_.Top();
         }
-- 
2.43.0


From 3dca8269bdd241b9523f80a3e5d6fd7d0eb63ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:40 +0000
Subject: [PATCH 20/51] fix: script schedules: bound the token reads, require
 START/END/FREQ and accept parameters after FIXING

---
 dal/script/event/schedule.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dal/script/event/schedule.cpp b/dal/script/event/schedule.cpp
index 1317f63..4bfff07 100644
--- a/dal/script/event/schedule.cpp
+++ b/dal/script/event/schedule.cpp
@@ -24,16 +24,20 @@ namespace Dal {
             BizDayConvention_ bizRule("Unadjusted");
             bool fixAtEnd = true;
 
-            for (; i < tokens.size() - 2; ++i) {
+            const int n = static_cast<int>(tokens.size());
+            for (; i < n; ++i) {
+                REQUIRE2(i + 2 < n, "schedule parameter without value", ScriptError_);
                 REQUIRE2(tokens[i + 1] == ":", "schedule parameter name not followed by `:`", ScriptError_);
 
                 if (tokens[i] == "START") {
+                    REQUIRE2(i + 6 < n, "incomplete date in schedule", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
                     startDate = Date::FromString(dt_str);
                     i += 6;
                 } else if (tokens[i] == "END") {
+                    REQUIRE2(i + 6 < n, "incomplete date in schedule", ScriptError_);
                     String_ dt_str = std::accumulate(tokens.begin() + i + 2, tokens.begin() + i + 7,
                                                      String_(""),
                                                      [](const String_ &x, const String_ &y) { return x + y; });
@@ -54,11 +58,13 @@ namespace Dal {
                     else if (tokens[i + 2] == "END")
                         fixAtEnd = true;
                     else
-                        THROW("unknown token for fixing");
+                        THROW2("unknown token for fixing", ScriptError_);
+                    i += 2;
                 } else
                     THROW2("unknown token", ScriptError_);
             }
 
+            REQUIRE2(startDate.IsValid() && endDate.IsValid() && tenor.get() != nullptr, "schedule needs START, END and FREQ", ScriptError_);
             Vector_<Date_> schedule = MakeSchedule(startDate,
                                                    Cell_(endDate),
                                                    holidays,
-- 
2.43.0


From 58cb8bb9b01d31f6286828c6731e44f1d83c3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:40 +0000
Subject: [PATCH 21/51] fix: past payments in scripts were left on the
 evaluation stack, overflowing it

---
 dal/script/visitor/pastevaluator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/script/visitor/pastevaluator.hpp b/dal/script/visitor/pastevaluator.hpp
index 52664cf..41dc9dd 100644
--- a/dal/script/visitor/pastevaluator.hpp
+++ b/dal/script/visitor/pastevaluator.hpp
@@ -22,8 +22,9 @@ namespace Dal::Script {
         using Base::dStack_;
 
         FORCE_INLINE void Visit(const NodePays_& node) {
-            //	Visit the RHS expression
+            //	Visit the RHS expression, a past payment is not part of the value
             VisitNode(*node.arguments_[1]);
+            dStack_.Pop();
         }
 
         FORCE_INLINE void Visit(const NodeSpot_&) {
-- 
2.43.0


From c9d06eecbf4037f89747f00bdff891f031f89e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 22/51] fix: banded Cholesky: every decomposition of a banded
 matrix threw, and solving or testing symmetry read past the matrix

---
 dal/math/matrix/banded.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dal/math/matrix/banded.cpp b/dal/math/matrix/banded.cpp
index 61f0307..b4b509d 100644
--- a/dal/math/matrix/banded.cpp
+++ b/dal/math/matrix/banded.cpp
@@ -185,7 +185,7 @@ namespace Dal {
             x->Resize(n);
             for (int ii = n - 1; ii >= 0; --ii) {
                 double residual = b[ii];
-                for (int jj = max(n - 1, ii + val.nBelow_); jj > ii; --jj)
+                for (int jj = min(n - 1, ii + val.nBelow_); jj > ii; --jj)
                     residual -= (*x)[jj] * val(jj, ii);
                 REQUIRE(!IsZero(val(ii, ii)), "Overflow in banded L-solve");
                 (*x)[ii] = residual / val(ii, ii);
@@ -197,7 +197,7 @@ namespace Dal {
             BandElements_ val_;
 
         public:
-            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), llt.nBelow_, 0) {
+            explicit BandedCholesky_(const BandElements_& llt) : val_(llt.view_.Rows(), 0, llt.nBelow_) {
                 static const double SMALL = 1.0e-11;
                 REQUIRE(llt.view_.Cols() == 2 * llt.nBelow_ + 1, "Cols should be 2 * n_below + 1");
                 const int n = llt.view_.Rows();
@@ -216,7 +216,7 @@ namespace Dal {
                             }
                         } else {
                             REQUIRE(residual > -SMALL, "Non-positive-definite matrix");
-                            val_.At(ii, ii) = std::sqrt(residual);
+                            val_.At(ii, ii) = std::sqrt(max(0.0, residual));
                         }
                     }
                 }
@@ -283,7 +283,7 @@ namespace Dal {
                 const int n = Size();
                 const int width = max(val_.nBelow_, val_.view_.Cols() - val_.nBelow_ - 1);
                 for (int ii = 0; ii < n; ++ii) {
-                    for (int jj = max(0, ii - width); jj <= max(n - 1, ii + width); ++jj)
+                    for (int jj = max(0, ii - width); jj <= min(n - 1, ii + width); ++jj)
                         if (!IsZero(val_(ii, jj) - val_(jj, ii)))
                             return false;
                 }
-- 
2.43.0


From 19be6ad32376fc238c6877e918920534ecc7ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 23/51] fix: triangular multiply left out the diagonal;
 diagonal multiply and solve did not size their result

---
 dal/math/matrix/decompositionsmisc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/math/matrix/decompositionsmisc.cpp b/dal/math/matrix/decompositionsmisc.cpp
index ff0880e..6906b0c 100644
--- a/dal/math/matrix/decompositionsmisc.cpp
+++ b/dal/math/matrix/decompositionsmisc.cpp
@@ -35,11 +35,13 @@ namespace Dal {
             [[nodiscard]] int Size() const override { return vals_.size(); }
 
             void XMultiply_af(const Vector_<> &x, Vector_<> *b) const override {
+                b->Resize(Size());
                 Transform(x, vals_, std::multiplies<>(), b);
             }
 
             void XSolve_af(const Vector_<> &b, Vector_<> *x) const override {
                 NOTE("Dividing by diagonal matrix");
+                x->Resize(Size());
                 Transform(b, vals_, ProtectedDivide_(), x);
             }
 
@@ -66,7 +68,7 @@ namespace Dal {
                 const int n = Size();
                 b->Resize(n);
                 for (int ii = 0; ii < n; ++ii)
-                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii, vals_.Row(ii).begin(), 0.0);
+                    (*b)[ii] = std::inner_product(x.begin(), x.begin() + ii + 1, vals_.Row(ii).begin(), 0.0);
             }
 
             void XMultiplyRight_af(const Vector_<> &x, Vector_<> *b) const override {
-- 
2.43.0


From 81cfc2e7816ca8a3f03e5388ab40e5bb2a32c05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 24/51] fix: Cholesky solve did not size its result
 (out-of-bounds writes from QForm) and MakeCorrelated returned an iterator
 into its output

---
 dal/math/matrix/cholesky.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/math/matrix/cholesky.cpp b/dal/math/matrix/cholesky.cpp
index 75ab505..d78c81c 100644
--- a/dal/math/matrix/cholesky.cpp
+++ b/dal/math/matrix/cholesky.cpp
@@ -83,6 +83,7 @@ namespace Dal {
 
             void XSolve_af(const Vector_<>& b, Vector_<>* x) const override {
                 const int n = Size();
+                x->Resize(n);
                 for (int ii = 0; ii < n; ++ii) {
                     (*x)[ii] = b[ii] - std::inner_product(x->begin(), x->begin() + ii, lower_->Row(ii).begin(), 0.0);
                     (*x)[ii] *= (*lower_)(ii, ii);
@@ -102,7 +103,7 @@ namespace Dal {
                     (*correlated)[ii] = std::inner_product(iid_begin, iid_begin + ii, lower_->Row(ii).begin(), 0.0);
                     (*correlated)[ii] += *(iid_begin + ii) / (*lower_)(ii, ii);
                 }
-                return correlated->begin();
+                return iid_begin + n;
             }
         };
     }
-- 
2.43.0


From 0700e8352d343637818bf295fc5a046362d96ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:27 +0000
Subject: [PATCH 25/51] fix: conjugate-gradient solves started at the solution
 divided zero by zero and returned NaN

---
 dal/math/matrix/bcg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dal/math/matrix/bcg.cpp b/dal/math/matrix/bcg.cpp
index 4fedb85..40afb21 100644
--- a/dal/math/matrix/bcg.cpp
+++ b/dal/math/matrix/bcg.cpp
@@ -60,6 +60,8 @@ namespace Dal {
         Vector_<> p(n);
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return;
         double betaPrev;
         for (int ii = 0; ii < max_iterations; ++ii) {
             precondition.Left(r, &z);
@@ -97,6 +99,8 @@ namespace Dal {
 
         A.MultiplyLeft(*x, &r);
         Transform(b, r, std::minus<>(), &r); // r = b - Ax
+        if (sqrt(InnerProduct(r, r)) <= tNorm)
+            return;
         rr = r;
 
         double betaPrev;
-- 
2.43.0


From 2296e1a1fc7af99c7f472bbd4bd903b7b6478ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:33 +0000
Subject: [PATCH 26/51] fix: growing a matrix by rows exposed stale values in
 the new rows; a moved-from matrix had an uninitialised width

---
 dal/math/matrix/matrixs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dal/math/matrix/matrixs.hpp b/dal/math/matrix/matrixs.hpp
index 0158b9b..99a92eb 100644
--- a/dal/math/matrix/matrixs.hpp
+++ b/dal/math/matrix/matrixs.hpp
@@ -54,7 +54,7 @@ namespace Dal {
             std::swap(hooks_, rhs.hooks_);
         }
 
-        Matrix_(Matrix_&& rhs) noexcept { swap(rhs); }
+        Matrix_(Matrix_&& rhs) noexcept : cols_(0) { swap(rhs); }
 
         Matrix_& operator=(Matrix_&& rhs) noexcept {
             if (this != &rhs) {
@@ -227,6 +227,8 @@ namespace Dal {
                 vals_.Resize((rows + 1) * cols);
                 hooks_.Resize(rows);
                 SetHook(hooks_[0] == vals_.begin() ? old_rows : 0);
+                if (rows > old_rows)
+                    std::fill(vals_.begin() + old_rows * cols, vals_.end(), E_());
             } else {
                 const auto n_copy = std::min(cols, cols_);
                 cols_ = cols;
-- 
2.43.0


From 72b8a1e553759338693e46171798049128434f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:33 +0000
Subject: [PATCH 27/51] fix: resizing an n-dimensional array kept its old
 storage (out-of-bounds writes when growing) and lost the first element

---
 dal/math/ndarray.cpp | 4 +++-
 dal/math/ndarray.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dal/math/ndarray.cpp b/dal/math/ndarray.cpp
index 3f96a34..8ae9b68 100644
--- a/dal/math/ndarray.cpp
+++ b/dal/math/ndarray.cpp
@@ -23,7 +23,10 @@ namespace Dal::ArrayN {
         Vector_<int> mins = Apply(func, old_sizes, new_sizes);
         Vector_<int> loc(nd, 0);
         Vector_<pair<int, int>> ret_val;
+        if (std::any_of(mins.begin(), mins.end(), [](int m) { return m <= 0; }))
+            return ret_val;
         for (;;) {
+            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
             int depth;
             for (depth = 0; depth < nd; ++depth) {
                 if (++loc[depth] < mins[depth])
@@ -32,7 +35,6 @@ namespace Dal::ArrayN {
             }
             if (depth == nd)
                 return ret_val;
-            ret_val.emplace_back(InnerProduct(loc, oldStrides), InnerProduct(loc, newStrides));
         }
         return ret_val;
     }
diff --git a/dal/math/ndarray.hpp b/dal/math/ndarray.hpp
index a6049c7..e68f3f4 100644
--- a/dal/math/ndarray.hpp
+++ b/dal/math/ndarray.hpp
@@ -52,9 +52,9 @@ namespace Dal {
         // Resize() requires computation of element mapping; take it out-of-line
         void Resize(const Vector_<int>& new_sizes) {
             const Vector_<pair<int, int>>& moves = ArrayN::Moves(sizes_, new_sizes);
-            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             sizes_ = new_sizes;
             strides_ = ArrayN::Strides(sizes_);
+            Vector_<E_> new_values(sizes_[0] * strides_[0], E_());
             for (const auto& move : moves)
                 new_values[move.second] = vals_[move.first];
             vals_.Swap(&new_values);
-- 
2.43.0


From 70f3fb9d30ce66ffe4fceb4541db0d058f661494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:00 +0000
Subject: [PATCH 28/51] fix: matrix formats with an empty element read before
 the text; building a matrix from uneven vectors wrote past its rows

---
 dal/math/matrix/matrixutils.cpp | 8 ++++++--
 dal/math/matrix/matrixutils.hpp | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dal/math/matrix/matrixutils.cpp b/dal/math/matrix/matrixutils.cpp
index c7029c4..e510b22 100644
--- a/dal/math/matrix/matrixutils.cpp
+++ b/dal/math/matrix/matrixutils.cpp
@@ -210,7 +210,7 @@ namespace Dal {
                 if (depth == 0)
                     break;
             }
-            return (ps == src.end() - 1 && *ps == ')') // parentheses wrap the whole thing
+            return (ps != src.end() && ps == src.end() - 1 && *ps == ')') // parentheses wrap the whole thing
                        ? Strip(src.substr(1, src.size() - 2))
                        : src;
         }
@@ -254,7 +254,11 @@ namespace Dal {
                            : new ArgWriter_(format.front() - '1'); // implements 1-offset count of args
             }
         }
-        Writer_* NewWriter(const String_& format) { return XNewWriter(Strip(format)); }
+        Writer_* NewWriter(const String_& format) {
+            const String_ stripped = Strip(format);
+            REQUIRE(!stripped.empty(), "Empty format element -- expected argument index");
+            return XNewWriter(stripped);
+        }
     } // namespace
 
     Matrix_<Cell_> Matrix::Format(const Vector_<const Table_*>& args, const String_& format) {
diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index e45f315..674e71a 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -96,9 +96,9 @@ namespace Dal {
             for (int ii = 0; ii < vv.size(); ++ii) {
                 REQUIRE(quiet || ragged || vv[ii].size() == size2, "Invalid array sizing");
                 if (by_cols)
-                    copy(vv[ii].begin(), vv[ii].end(), ret_val.Col(ii).begin());
+                    copy(vv[ii].begin(), vv[ii].begin() + std::min<int>(vv[ii].size(), size2), ret_val.Col(ii).begin());
                 else
-                    copy(vv[ii].begin(), vv[ii].end(), ret_val.Row(ii).begin());
+                    copy(vv[ii].begin(), vv[ii].begin() + std::min<int>(vv[ii].size(), size2), ret_val.Row(ii).begin());
             }
             return ret_val;
         }
-- 
2.43.0


From 3ddb5937eb6db21616679eba52a42a0a279dab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:40 +0000
Subject: [PATCH 29/51] fix: appending a narrower matrix grew the target and
 then threw

---
 dal/math/matrix/matrixutils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/matrix/matrixutils.hpp b/dal/math/matrix/matrixutils.hpp
index 674e71a..6bd8b55 100644
--- a/dal/math/matrix/matrixutils.hpp
+++ b/dal/math/matrix/matrixutils.hpp
@@ -27,8 +27,8 @@ namespace Dal {
             // efficient unless below is too wide
             above->Resize(offset + below.Rows(), max(above->Cols(), below.Cols()));
             for (int ir = 0; ir < below.Rows(); ++ir) {
-                auto t_row = above->Row(ir + offset);
-                Copy(below.Row(ir), &t_row);
+                const auto s_row = below.Row(ir);
+                std::copy(s_row.begin(), s_row.end(), above->Row(ir + offset).begin());
             }
         }
 
-- 
2.43.0


From d3c12432c3b6f2878f3112c231af9493b1c904dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:20 +0000
Subject: [PATCH 30/51] fix: Bachelier prices dropped the time value when
 forward and strike differ in sign; its implied vol took the guess as a log

---
 dal/math/distribution/black.cpp | 2 +-
 dal/math/distribution/black.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/distribution/black.cpp b/dal/math/distribution/black.cpp
index 1dde9fb..5e6f09d 100644
--- a/dal/math/distribution/black.cpp
+++ b/dal/math/distribution/black.cpp
@@ -56,7 +56,7 @@ namespace Dal {
             static const int MAX_ITERATIONS = 30;
             static const double TOL = 1.0e-10;
             REQUIRE(price >= type.Payout(fwd, strike), "value below intrinsic value in BlackIV");
-            Brent_ task(guess > 0.0 ? guess : -1.5 * fwd);
+            Brent_ task(guess > 0.0 ? log(guess) : -1.5 * fwd);
             Converged_ done(TOL * max(1.0, fwd), TOL * max(1.0, price));
             for (int i = 0; i < MAX_ITERATIONS; ++i) {
                 const double vol = exp(task.NextX());
diff --git a/dal/math/distribution/black.hpp b/dal/math/distribution/black.hpp
index af8dd3c..767641f 100644
--- a/dal/math/distribution/black.hpp
+++ b/dal/math/distribution/black.hpp
@@ -33,7 +33,7 @@ namespace Dal {
 
         template <class T_>
         T_ BachelierOpt(const T_& fwd, const T_& vol, const T_& strike, const OptionType_& type)  {
-            if (IsZero(vol) || !IsPositive(fwd * strike))
+            if (IsZero(vol))
                 return type.Payout(fwd, strike);
             T_ diff = fwd - strike;
             T_ d = diff / vol;
-- 
2.43.0


From 04a18fbdfda63314584e98fe0f801ac3ef254c36 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 04:46:00 +0000
Subject: [PATCH 31/51] fix: pseudo-random SkipTo skipped half the normal
 deviates (batches overlapped) or none at all; clones lost their precision

---
 dal/math/random/pseudorandom.cpp | 44 +++++++++++++++++++++++---------
 dal/math/random/pseudorandom.hpp |  3 +++
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/dal/math/random/pseudorandom.cpp b/dal/math/random/pseudorandom.cpp
index ee95b03..945506d 100644
--- a/dal/math/random/pseudorandom.cpp
+++ b/dal/math/random/pseudorandom.cpp
@@ -13,6 +13,8 @@
 namespace Dal {
     // derived classes can call this explicitly
     void PseudoRandom_::FillUniform(Vector_<>* devs) {
+        REQUIRE(devs->size() <= cache_.size(), "more deviates requested than the generator's dimension");
+        skipped_ = 0;
         if (anti_) {
             for (size_t i = 0; i < devs->size(); ++i)
                 (*devs)[i] = (1.0 - cache_[i]);
@@ -36,7 +38,22 @@ namespace Dal {
         } // namespace RWT
     }     // namespace
 
-    void PseudoRandom_::FillNormal(Vector_<>* deviates) { RWT::Fill(this, deviates->begin(), deviates->end()); }
+    void PseudoRandom_::FillNormal(Vector_<>* deviates) {
+        if (skipped_ > 0)
+            StartAt(skipped_ * NDim()); // unlike uniforms, normal paths do not share points in antithetic pairs
+        skipped_ = 0;
+        RWT::Fill(this, deviates->begin(), deviates->end());
+    }
+
+    void PseudoRandom_::SkipTo(size_t n_paths) {
+        StartAt(n_paths / 2 * NDim());
+        anti_ = false;
+        if (n_paths & 1) {
+            Vector_<> first(NDim());
+            FillUniform(&first);
+        }
+        skipped_ = n_paths;
+    }
 
     namespace {
         // Generators similar to Knuth's IRN55, with shuffling
@@ -66,10 +83,15 @@ namespace Dal {
 
             explicit ShuffledIRN_(int seed, size_t n_dim = 1, bool precise = false)
                 : PseudoRandom_(n_dim, precise), seed_(seed), irn_(M_), shuffle_(S_), irl_(0) {
+                Reset();
+            }
+
+            void Reset() {
                 const unsigned MASK = 0x1F2E3D4C;
                 const unsigned MUL = 17;
                 // initialize IRN_
-                irn_[0] = seed;
+                irl_ = 0;
+                irn_[0] = seed_;
                 for (int ii = 1; ii < M_; ++ii)
                     irn_[ii] = ((MUL * irn_[ii - 1]) % DE_NOM) ^ MASK;
                 // initialize shuffle_
@@ -81,9 +103,13 @@ namespace Dal {
                 return new ShuffledIRN_<M_, L_, S_>(irn_[0] ^ irn_[1]);
             }
 
-            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size()); }
+            [[nodiscard]] PseudoRandom_* Clone() const override { return new ShuffledIRN_(seed_, cache_.size(), precise_); }
 
-            void SkipTo(size_t n_paths) override {}
+            void StartAt(size_t n_points) override {
+                Reset();
+                for (; n_points > 0; --n_points)
+                    NextUniform();
+            }
         };
 
         constexpr const double m1_ = 4294967087;
@@ -137,18 +163,12 @@ namespace Dal {
             [[nodiscard]] PseudoRandom_* Branch(int i_child) const override { return new MRG32k32a_(); }
 
             [[nodiscard]] PseudoRandom_* Clone() const override {
-                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size());
+                return new MRG32k32a_(static_cast<unsigned>(a_), static_cast<unsigned>(b_), cache_.size(), precise_);
             }
 
-            void SkipTo(size_t n_paths) override {
-                size_t n_points = n_paths * NDim();
+            void StartAt(size_t n_points) override {
                 Reset();
 
-                if (n_points & 1)
-                    n_points = (n_points - 1) / 2;
-                else
-                    n_points /= 2;
-
                 static constexpr size_t m1l = static_cast<size_t>(m1_);
                 static constexpr size_t m2l = static_cast<size_t>(m2_);
 
diff --git a/dal/math/random/pseudorandom.hpp b/dal/math/random/pseudorandom.hpp
index 7909959..377231c 100644
--- a/dal/math/random/pseudorandom.hpp
+++ b/dal/math/random/pseudorandom.hpp
@@ -31,9 +31,11 @@ precise is boolean
 namespace Dal {
     class PseudoRandom_ : public Random_ {
         bool anti_ = false;
+        size_t skipped_ = 0; // path skipped to, while no path has been filled since
 
     protected:
         Vector_<> cache_;
+        virtual void StartAt(size_t n_points) = 0; // restart, as if this many uniforms had been drawn
 
     public:
         explicit PseudoRandom_(size_t n_dim, bool precise = false) : cache_(n_dim), precise_(precise) {}
@@ -41,6 +43,7 @@ namespace Dal {
         virtual double NextUniform() = 0;
         void FillUniform(Vector_<>* deviates) override;
         void FillNormal(Vector_<>* deviates) override;
+        void SkipTo(size_t n_paths) override;
         [[nodiscard]] PseudoRandom_* Clone() const override = 0;
         [[nodiscard]] size_t NDim() const override { return cache_.size(); }
         [[nodiscard]] virtual PseudoRandom_* Branch(int i_child) const = 0;
-- 
2.43.0


From 48a235411a0d607ec834584c0fc7ee86305ccab1 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 04:08:37 +0000
Subject: [PATCH 32/51] fix: stopping the thread pool raced with its workers on
 the interrupt flag

---
 dal/concurrency/threadpool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dal/concurrency/threadpool.hpp b/dal/concurrency/threadpool.hpp
index d783682..bb13aab 100644
--- a/dal/concurrency/threadpool.hpp
+++ b/dal/concurrency/threadpool.hpp
@@ -12,6 +12,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <dal/concurrency/concurrentqueue.hpp>
 #include <future>
 #include <thread>
@@ -25,7 +26,7 @@ namespace Dal {
         ConcurrentQueue_<Task_> queue_;
         std::vector<std::thread> threads_;
         bool active_;
-        bool interrupt_;
+        std::atomic<bool> interrupt_;
         static thread_local size_t tlsNum_;
 
         void ThreadFunc(const size_t& num);
-- 
2.43.0


From 96011e0d4b63cbcf8c657ae0019722ebd8f91b83 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 33/51] fix: local-vol adjoints dropped the slope of the vol in
 the spot

---
 dal/math/interp/interp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/math/interp/interp.hpp b/dal/math/interp/interp.hpp
index f6f084f..817f9cf 100644
--- a/dal/math/interp/interp.hpp
+++ b/dal/math/interp/interp.hpp
@@ -39,7 +39,7 @@ namespace Dal {
         if (pge == x.begin() || IsZero(x0 - *pge))
             return y[pge - x.begin()];
         auto plt = Previous(pge);
-        const auto gFrac = static_cast<double>((x0 - *plt) / (*pge - *plt));
+        const T_ gFrac = (x0 - *plt) / (*pge - *plt);
         auto flt = y.begin() + (plt - x.begin());
         return *flt + gFrac * (*Next(flt) - *flt);
     }
-- 
2.43.0


From 55d36fb026fdd90757de4773dcb91a42fbc4a3c7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 34/51] fix: applying slides to model data dereferenced a
 missing name

---
 dal/model/blackscholes.cpp | 2 +-
 dal/model/dupire.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/model/blackscholes.cpp b/dal/model/blackscholes.cpp
index 81ef3cc..d914741 100644
--- a/dal/model/blackscholes.cpp
+++ b/dal/model/blackscholes.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     BSModelData_* BSModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<BSModelData_> temp(new BSModelData_(*new_name, spot_, vol_, rate_, div_));
+        std::unique_ptr<BSModelData_> temp(new BSModelData_(new_name ? *new_name : name_, spot_, vol_, rate_, div_));
         if (slide) {
             // TODO: finish the implementation
         }
diff --git a/dal/model/dupire.cpp b/dal/model/dupire.cpp
index cfdc6e1..b871cb2 100644
--- a/dal/model/dupire.cpp
+++ b/dal/model/dupire.cpp
@@ -15,7 +15,7 @@ namespace Dal {
     }
 
     DupireModelData_* DupireModelData_::MutantModel(const String_* new_name, const Slide_* slide) const {
-        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(*new_name, spot_, rate_, repo_, spots_, times_, vols_));
+        std::unique_ptr<DupireModelData_> temp(new DupireModelData_(new_name ? *new_name : name_, spot_, rate_, repo_, spots_, times_, vols_));
         if (slide) {
             // TODO: finish the implementation
         }
-- 
2.43.0


From 0972846014c4e8fbba75683ece9ef834918b7e9c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 35/51] fix: Black-Scholes read the first date of an empty
 timeline

---
 dal/model/blackscholes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dal/model/blackscholes.hpp b/dal/model/blackscholes.hpp
index 88db6e2..cfecffc 100644
--- a/dal/model/blackscholes.hpp
+++ b/dal/model/blackscholes.hpp
@@ -95,7 +95,7 @@ namespace Dal {
                         timeLine_.push_back(time);
                 }
 
-                todayOnTimeLine_ = productTimeLine[0] == 0;
+                todayOnTimeLine_ = !productTimeLine.empty() && productTimeLine[0] == 0;
                 defLine_ = &defLine;
 
                 stds_.Resize(timeLine_.size() - 1);
-- 
2.43.0


From 24f99ef1bcfe395b58e6e72b052d5e60841e5403 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:30:33 +0000
Subject: [PATCH 36/51] fix: simulations returned partial sums when a batch
 failed; copied results pointed into the original's sensitivities

---
 dal/script/simulation.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dal/script/simulation.hpp b/dal/script/simulation.hpp
index ac4e5dd..fd74f3b 100644
--- a/dal/script/simulation.hpp
+++ b/dal/script/simulation.hpp
@@ -20,16 +20,18 @@ namespace Dal::Script {
 
     struct SimResults_ {
         explicit SimResults_(const Vector_<String_>& names) : aggregated_(0.0), risks_(names.size(), 0.0), names_(names) {
-            for(auto i = 0; i < names.size(); ++i)
-                results_[names[i]] = &risks_[i];
+            for (size_t i = 0; i < names.size(); ++i)
+                results_[names[i]] = i;
         }
         double aggregated_;
         Vector_<> risks_;
         Vector_<String_> names_;
-        std::map<String_, const double*> results_;
+        std::map<String_, size_t> results_; // index of each name in risks_
 
-        FORCE_INLINE double operator[](const String_& name) {
-            return *results_[name];
+        FORCE_INLINE double operator[](const String_& name) const {
+            auto p = results_.find(name);
+            REQUIRE(p != results_.end(), "no result named " + name);
+            return risks_[p->second];
         }
     };
 
@@ -150,6 +152,8 @@ namespace Dal::Script {
 
         for (auto& future : futures)
             pool->ActiveWait(future);
+        for (auto& future : futures)
+            future.get(); // a failed batch fails the simulation
 
         // aggregate all the results
         results.aggregated_ = Accumulate(simResults);
@@ -257,6 +261,8 @@ namespace Dal::Script {
             pool->ActiveWait(future);
 
         Number_::SetTape(*mainThreadPtr);
+        for (auto& future : futures)
+            future.get(); // a failed batch fails the simulation
         SimResults_ rtn(Dal::Vector::Join(mdl->ParameterLabels(), product.ConstVarNames()));
         for (auto& res: simResults) {
             rtn.aggregated_ += res.aggregated_;
-- 
2.43.0


From 6a74c77772ab4a49b879f9357d6aa940752306a4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 05:56:43 +0000
Subject: [PATCH 37/51] fix: smoothing coupled each point to the wrong
 neighbour; underdetermined controls had no definition to link

---
 dal/math/optimization/underdetermined.cpp | 2 +-
 dal/math/smooth.cpp                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/math/optimization/underdetermined.cpp b/dal/math/optimization/underdetermined.cpp
index 9df22aa..0e5c7c9 100644
--- a/dal/math/optimization/underdetermined.cpp
+++ b/dal/math/optimization/underdetermined.cpp
@@ -15,7 +15,7 @@
 #include <dal/utilities/numerics.hpp>
 
 namespace Dal {
-#include <dal/auto/MG_UnderdeterminedControls_object.hpp>
+#include <dal/auto/MG_UnderdeterminedControls_object.inc>
 
     namespace Underdetermined {
         void Function_::Gradient(const Vector_<>& x, const Vector_<>& f, Matrix_<>* j) const {
diff --git a/dal/math/smooth.cpp b/dal/math/smooth.cpp
index e651fe9..2ba5daf 100644
--- a/dal/math/smooth.cpp
+++ b/dal/math/smooth.cpp
@@ -16,7 +16,7 @@ namespace Dal {
         REQUIRE(y.size() == n && n > 1, "y values size should be same with x and size should bigger than 1");
         Vector_<> coupling(n);
         for (int i = 1; i < n; ++i)
-            coupling[i] = lambda / std::max(x[i] - x[i-1], DX_MIN);
+            coupling[i - 1] = lambda / std::max(x[i] - x[i - 1], DX_MIN);
         coupling.back() = 0.0;
 
         Vector_<> beta(n), gamma(n);
-- 
2.43.0


From 1ab7acda052a9e9869256a82e36885e0e82c9f48 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:13:38 +0000
Subject: [PATCH 38/51] fix: numbers lost digits when turned into text

---
 dal/string/strings.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dal/string/strings.cpp b/dal/string/strings.cpp
index 358b87d..f2b55b7 100644
--- a/dal/string/strings.cpp
+++ b/dal/string/strings.cpp
@@ -46,7 +46,18 @@ namespace Dal::String {
         return val;
     }
 
-    String_ FromDouble(double src) { return String_(std::to_string(src)); }
+    String_ FromDouble(double src) {
+        char buf[40];
+        for (const char* format : {"%f", "%.15g", "%.17g"}) { // 17 significant digits always suffice; most numbers need fewer
+            std::snprintf(buf, sizeof(buf), format, src);
+            if (std::strtod(buf, nullptr) == src)
+                break;
+        }
+        String_ ret_val(buf);
+        if (ret_val.find_first_not_of("+-0123456789") == String_::npos)
+            ret_val += ".0"; // keep it recognizable as a floating point number
+        return ret_val;
+    }
 
     String_ FromInt(int src) { return String_(std::to_string(src)); }
     String_ FromBool(bool src) {
-- 
2.43.0


From 81cd5222a1fb689d38551781114dd1989b2e9175 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:13:38 +0000
Subject: [PATCH 39/51] fix: reading a missing file looked like an empty one,
 and long lines were lost

---
 dal/utilities/file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dal/utilities/file.cpp b/dal/utilities/file.cpp
index 30b48ba..a3e2711 100644
--- a/dal/utilities/file.cpp
+++ b/dal/utilities/file.cpp
@@ -13,9 +13,10 @@
 namespace Dal::File {
     void Read(const String_& file_name, Vector_<String_>* dst) {
         std::ifstream src(file_name.c_str());
-        char buf[2048];
-        while (src.getline(buf, 2048))
-            dst->emplace_back(buf);
+        REQUIRE(src.is_open(), "File not found: '" + file_name + "'");
+        std::string line;
+        while (std::getline(src, line))
+            dst->emplace_back(line.c_str());
         src.close();
     }
 
-- 
2.43.0


From ede4e32bdb506a413e1bfca28bdf4059726d8502 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:13:39 +0000
Subject: [PATCH 40/51] fix: a report address could reach another entry;
 headers without values could not be read back; bad axes and rows were
 accepted

---
 dal/risk/report.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dal/risk/report.cpp b/dal/risk/report.cpp
index a169500..19ffc87 100644
--- a/dal/risk/report.cpp
+++ b/dal/risk/report.cpp
@@ -41,9 +41,10 @@ namespace Dal {
             // write in header values through the public interface
             for (auto jj = 0; jj < n; ++jj) {
                 const auto& vals = header_values_[jj];
-                Vector_<Cell_> temp(header_labels_[jj].size());
+                REQUIRE(vals.Cols() <= header_labels_[jj].size(), "Header values don't match their labels");
                 for (int kr = 0; kr < vals.Rows(); ++kr) {
-                    Copy(vals.Row(kr), &temp);
+                    Vector_<Cell_> temp(header_labels_[jj].size()); // empty columns at the end might not have been stored
+                    std::copy(vals.Row(kr).begin(), vals.Row(kr).end(), temp.begin());
                     retval->AddHeaderRow(axis_names_[jj], kr, temp);
                 }
             }
@@ -60,6 +61,7 @@ namespace Dal {
             NOTICE(a.name_);
             const int which = static_cast<int>(axes_.size()); // number which preceded it
             REQUIRE(a.size_ > 0 || which == 0, "Zero size is not allowed");
+            REQUIRE(!axes_.count(a.name_), "Duplicate axis");
             axes_[a.name_] = which;
             strides_ *= a.size_;
             strides_.push_back(1);
@@ -91,8 +93,17 @@ namespace Dal {
         return static_cast<int>(which > 0 ? strides_[which - 1] : vals_.size()) / strides_[which];
     }
 
+    namespace {
+        // only the first axis is extensible; along the others an excessive index would reach another entry
+        void CheckAddress(const Vector_<int>& locs, const Vector_<int>& strides) {
+            REQUIRE(locs.size() == strides.size() && *MinElement(locs) >= 0, "Invalid index into report");
+            for (int ii = 1; ii < locs.size(); ++ii)
+                REQUIRE(locs[ii] < strides[ii - 1] / strides[ii], "Invalid index into report");
+        }
+    } // namespace
+
     double& Report_::operator[](const Report::Address_& loc) {
-        assert(*MinElement(loc.locs_) >= 0);
+        CheckAddress(loc.locs_, strides_);
         const int which = InnerProduct(loc.locs_, strides_);
         if (which >= vals_.size()) {
             vals_.resize((loc.locs_[0] + 1) * strides_[0]); // make it big enough by extending the first axis only
@@ -102,7 +113,7 @@ namespace Dal {
     }
 
     const double& Report_::operator[](const Report::Address_& loc) const {
-        assert(*MinElement(loc.locs_) >= 0);
+        CheckAddress(loc.locs_, strides_);
         const int which = InnerProduct(loc.locs_, strides_);
         REQUIRE(which < vals_.size(), "Invalid index into const report");
         return vals_[which];
@@ -130,9 +141,10 @@ namespace Dal {
 
     void Report_::AddHeaderRow(const String_& axes, int offset, const Vector_<Cell_>& values) {
         auto& [labels_, values_] = headers_[FindAxis(axes_, axes)];
-        const auto n_labels = labels_.size();
-        NOTICE(static_cast<int>(n_labels));
+        const int n_labels = static_cast<int>(labels_.size());
+        NOTICE(n_labels);
         REQUIRE(values.size() == n_labels, "Wrong number (= " + ToString(static_cast<int>(values.size())) + " of labels");
+        REQUIRE(offset >= 0, "Negative offset of a header row");
         if (offset >= values_.Rows())
             values_.Resize(offset + 1, static_cast<int>(labels_.size()));
         auto row = values_.Row(offset);
-- 
2.43.0


From 0336e3f1fec9228d046a18137c9f33d6b8ec98a4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:13:39 +0000
Subject: [PATCH 41/51] fix: objects did not come back from cell tables and
 files as they were stored

---
 dal/storage/splat.cpp | 81 +++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/dal/storage/splat.cpp b/dal/storage/splat.cpp
index e6eedfc..2a78c50 100644
--- a/dal/storage/splat.cpp
+++ b/dal/storage/splat.cpp
@@ -42,6 +42,8 @@ namespace Dal {
                     REQUIRE(type_.empty(), "");
                     return val_.Rows();
                 }
+                if (children_.empty())
+                    return 1; // an empty value still needs a row to hold its name
                 int ret_val = 0;
                 for (const auto& c : children_)
                     ret_val += c.second->Rows();
@@ -51,9 +53,11 @@ namespace Dal {
             int Cols() const {
                 if (!val_.Empty())
                     return val_.Cols();
+                if (children_.empty())
+                    return 1;
                 int ret_val = 0;
                 for (const auto& c : children_)
-                    ret_val += max(ret_val, c.second->Cols());
+                    ret_val = max(ret_val, c.second->Cols());
                 return 2 + ret_val;
             }
 
@@ -61,7 +65,7 @@ namespace Dal {
                 if (!val_.Empty()) {
                     for (int ir = 0; ir < val_.Rows(); ++ir)
                         copy(val_.Row(ir).begin(), val_.Row(ir).end(), dst.Row(ir + row_offset).begin() + col_offset);
-                } else {
+                } else if (!children_.empty()) {
                     dst(row_offset, col_offset) = tag_ + OBJECT_PREFACE + type_;
                     for (const auto& c : children_) {
                         dst(row_offset, 1 + col_offset) = c.first;
@@ -164,6 +168,10 @@ namespace Dal {
 
         struct ExtractBool_ {
             bool operator()(bool b) const { return b; }
+            bool operator()(double d) const { // stores hold booleans as numbers
+                REQUIRE(d == 0.0 || d == 1.0, "Can't create a boolean from a number other than 0 or 1");
+                return d != 0.0;
+            }
             bool operator()(const String_& s) const { return String::ToBool(s); }
             template<class T_> bool operator()(T_) const { THROW("Can't create a boolean from cell"); }
         };
@@ -293,9 +301,9 @@ namespace Dal {
 
             pair<Matrix_<Cell_>::Row_::const_iterator, Matrix_<Cell_>::Row_::const_iterator> VectorRange() const {
                 REQUIRE(rowStop_ == rowStart_ + 1, "Can't get a vector value from a multi-line entry");
-                int colStop = colStart_ + 1;
-                while (colStop < data_.Cols() && !Cell::IsEmpty(data_(rowStart_, colStop)))
-                    ++colStop;
+                int colStop = colStart_;
+                while (colStop < data_.Cols() && !std::get_if<std::monostate>(&data_(rowStart_, colStop).val_))
+                    ++colStop; // an empty string is a value, a cell never written is not
                 return make_pair(data_.Row(rowStart_).begin() + colStart_, data_.Row(rowStart_).begin() + colStop);
             }
 
@@ -310,16 +318,15 @@ namespace Dal {
             Vector_<Cell_> AsCellVector() const override { return TranslateRange(VectorRange(), Identity_<Cell_>()); }
 
             int MatrixStop() const {
-                for (int ret_val = colStart_ + 1;;) {
-                    for (int ir = rowStart_;; ++ir) {
-                        if (ir == rowStop_)
-                            return ret_val; // found an empty column
-                        else if (!Cell::IsEmpty(data_(ir, ret_val)))
-                            break; // column is not empty
-                    }
-                    if (++ret_val == data_.Cols())
-                        return ret_val;
+                int ret_val = colStart_;
+                for (; ret_val < data_.Cols(); ++ret_val) {
+                    int ir = rowStart_;
+                    while (ir < rowStop_ && Cell::IsEmpty(data_(ir, ret_val)))
+                        ++ir;
+                    if (ir == rowStop_)
+                        break; // found an empty column
                 }
+                return ret_val;
             }
             template <class F_> auto TranslateMatrix(int col_stop, F_ translate) const {
                 Matrix_<VALUE_TYPE_OF(translate(data_(0, 0)))> ret_val;
@@ -337,9 +344,12 @@ namespace Dal {
             Matrix_<Cell_> AsCellMatrix() const override { return TranslateMatrix(MatrixStop(), Identity_<Cell_>()); }
 
             Dictionary_ AsDictionary() const override {
-                REQUIRE(MatrixStop() == colStart_ + 2,
-                        "Can't extract dictionary because entry does not have two columns");
                 Dictionary_ ret_val;
+                const int stop = MatrixStop();
+                if (stop == colStart_)
+                    return ret_val; // nothing was written
+                REQUIRE(stop == colStart_ + 2,
+                        "Can't extract dictionary because entry does not have two columns");
                 for (int ir = rowStart_; ir < rowStop_; ++ir)
                     ret_val.Insert(ExtractString(data_(ir, colStart_)), data_(ir, colStart_ + 1));
                 return ret_val;
@@ -351,8 +361,17 @@ namespace Dal {
         Cell_ AsCell(const String_& content) {
             if (content.empty())
                 return Cell_();
-            else if (content.front() == '=' && content.back() == '=')
+            else if (content.size() > 1 && content.front() == '=' && content.back() == '=')
                 return Cell_(content.substr(1, content.size() - 2));
+            else if (content.size() > 1 && content.front() == '"' && content.back() == '"') {
+                String_ text; // quoted string, with its own quotes doubled
+                for (size_t i = 1; i + 1 < content.size(); ++i) {
+                    text += content[i];
+                    if (content[i] == '"' && content[i + 1] == '"')
+                        ++i;
+                }
+                return Cell_(text);
+            }
             else if (content == "TRUE")
                 return Cell_(true);
             else if (content == "FALSE")
@@ -363,9 +382,32 @@ namespace Dal {
                 if (!*e)
                     return Cell_(ret_val);
             }
+            try {
+                if (Date::IsDateString(content))
+                    return Cell_(Date::FromString(content));
+                if (DateTime::IsDateTimeString(content))
+                    return Cell_(DateTime::FromString(content));
+            } catch (const std::exception&) {
+                // looks like a date but isn't one: leave it as a string
+            }
             return Cell_(content);
         }
 
+        // write strings so that AsCell and SplitLine give them back
+        String_ AsText(const Cell_& cell) {
+            String_ text = Cell::CoerceToString(cell);
+            if (!Cell::IsString(cell))
+                return text;
+            REQUIRE(text.find_first_of("\r\n") == String_::npos, "Can't write a string with line breaks");
+            const Cell_ read = AsCell(text);
+            if (text.find_first_of(",\"") == String_::npos && Cell::IsString(read) && Cell::ToString(read) == text)
+                return text;
+            String_ ret_val("\"");
+            for (auto c : text)
+                ret_val += c == '"' ? String_("\"\"") : String_(1, c);
+            return ret_val + "\"";
+        }
+
         Vector_<Cell_> SplitLine(const String_& line) {
             Vector_<Cell_> ret_val;
             auto start = line.begin();
@@ -410,11 +452,14 @@ namespace Dal {
     void SplatFile(const String_& file_name, const Storable_& src) {
         Matrix_<Cell_> mat = Splat(src);
         NOTE("Save object to local file");
-        Vector_<String_> ret = Cell::ToStringLines(mat);
+        Vector_<String_> ret;
+        for (int i = 0; i < mat.Rows(); ++i)
+            ret.push_back(String::Accumulate(Apply(AsText, mat.Row(i)), ",", false));
         File::Write(file_name, ret);
     }
 
     Handle_<Storable_> UnSplat(const Matrix_<Cell_>& src, bool quiet) {
+        REQUIRE(!src.Empty(), "Can't extract an object from an empty table");
         XUnSplat_ task(src, 0, src.Rows(), 0, quiet);
         NOTE("Extracting object from splatted data");
         Archive::Built_ built;
-- 
2.43.0


From 7e981d80522ae8e41dc285381309e73ce7610f66 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:13:39 +0000
Subject: [PATCH 42/51] fix: JSON flags, integers, empty tables and malformed
 input were not read back safely

---
 dal/storage/json.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/dal/storage/json.cpp b/dal/storage/json.cpp
index 1d2379f..301a10f 100644
--- a/dal/storage/json.cpp
+++ b/dal/storage/json.cpp
@@ -172,6 +172,8 @@ namespace Dal {
         }
         // create matrix from vector of values
         template <class E_> Matrix_<E_> AsMatrix(int cols, const Vector_<E_>& vals) {
+            if (vals.empty())
+                return Matrix_<E_>();
             REQUIRE(cols > 0 && !(vals.size() % cols), "Invalid number of matrix columns");
             const int rows = vals.size() / cols;
             Matrix_<E_> ret_val(rows, cols);
@@ -186,10 +188,17 @@ namespace Dal {
             return doc.GetDouble();
         }
         int EInt(const element_t& doc) {
-            REQUIRE(doc.IsInt(), "Can't get an integer value");
-            return doc.GetInt();
+            REQUIRE(doc.IsNumber(), "Can't get an integer value");
+            const double d = doc.GetDouble();
+            REQUIRE(std::fabs(d) < 2147483647. && d == std::floor(d), "Can't get an integer value");
+            return static_cast<int>(d);
         }
         bool EBool(const element_t& doc) {
+            if (doc.IsNumber()) { // stores hold booleans as numbers
+                const double d = doc.GetDouble();
+                REQUIRE(d == 0.0 || d == 1.0, "Can't get a boolean from a number other than 0 or 1");
+                return d != 0.0;
+            }
             REQUIRE(doc.IsBool(), "Can't get a boolean value");
             return doc.GetBool();
         }
@@ -218,7 +227,7 @@ namespace Dal {
         Cell_ ECell(const element_t& doc) {
             static const std::regex DATE_PATTERN("\\d{4}-\\d{2}-\\d{2}");
             static const std::regex DATE_TIME_PATTERN("\\d{4}-\\d{2}-\\d{2} \\d{2}:\\d{2}:\\d{2}");
-            if (doc.IsDouble())
+            if (doc.IsNumber())
                 return Cell_(doc.GetDouble());
             if (doc.IsBool())
                 return Cell_(doc.GetBool());
@@ -251,7 +260,7 @@ namespace Dal {
                 return String_();
             }
             String_ Tag() const {
-                if (doc_.HasMember(TAG_LABEL))
+                if (HasChild(TAG_LABEL))
                     return EString(doc_[TAG_LABEL]);
                 return String_();
             }
@@ -280,23 +289,26 @@ namespace Dal {
             //		the matrix has a child "cols" that gives the number of columns
             //		and a child "vals" that gives all the values, scanning each row in turn
             Matrix_<> AsDoubleMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EDouble));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EDouble));
             }
             Matrix_<String_> AsStringMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], EString));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), EString));
             }
             Matrix_<Cell_> AsCellMatrix() const override {
-                return AsMatrix(EInt(doc_[COLS_LABEL]), AsVector(doc_[VALS_LABEL], ECell));
+                return AsMatrix(EInt(XChild(COLS_LABEL)), AsVector(XChild(VALS_LABEL), ECell));
             }
 
             // object query interface
             String_ Type() const override {
-                if (doc_.HasMember(TYPE_LABEL))
+                if (HasChild(TYPE_LABEL))
                     return EString(doc_[TYPE_LABEL]);
                 return String_();
             }
-            element_t& XChild(const String_& name) const { return doc_[name.c_str()]; }
-            bool HasChild(const String_& name) const override { return doc_.HasMember(name.c_str()); }
+            element_t& XChild(const String_& name) const {
+                REQUIRE(HasChild(name), "Child '" + name + "' not found");
+                return doc_[name.c_str()];
+            }
+            bool HasChild(const String_& name) const override { return doc_.IsObject() && doc_.HasMember(name.c_str()); }
             const View_& Child(const String_& name) const override {
                 Handle_<XDocView_>& ret_val = children_[name];
                 if (ret_val.IsEmpty())
@@ -311,7 +323,8 @@ namespace Dal {
     Handle_<Storable_> JSON::ReadString(const String_& src, bool quiet) {
         NOTE("Extracting object from JSON string");
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags>(src.c_str());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(src.c_str());
+        REQUIRE(!doc.HasParseError() && doc.IsObject(), "Not a JSON object");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
@@ -323,8 +336,9 @@ namespace Dal {
         char buffer[8192];
         rapidjson::FileReadStream is(fp, buffer, sizeof(buffer));
         rapidjson::Document doc;
-        doc.ParseStream<rapidjson::kParseDefaultFlags>(is);
+        doc.ParseStream<rapidjson::kParseFullPrecisionFlag>(is);
         fclose(fp);
+        REQUIRE(!doc.HasParseError() && doc.IsObject(), "Not a JSON object");
         XDocView_ task(doc);
         Archive::Built_ built;
         return Archive::Extract(task, built);
-- 
2.43.0


From c0d10dc86865811e1ddf935b15b74fc8cd59e84f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 43/51] fix: replacing an object by name or type also erased
 objects with longer names, and was not atomic

Erasing by tag prefix removed 'a~b' when 'a' was replaced; erase and insert took
the lock separately, so others could see both objects or neither. An empty
fixings table could not be read, and the fixings store was never set.
---
 dal/storage/_repository.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/dal/storage/_repository.cpp b/dal/storage/_repository.cpp
index 68f7598..8a3cfe0 100644
--- a/dal/storage/_repository.cpp
+++ b/dal/storage/_repository.cpp
@@ -28,37 +28,39 @@ namespace Dal {
         String_ BaseTag(const Storable_& s) { return TypeTag(s) + s.name_ + "~"; }
         String_ Uniquifier(const Storable_& s) { return String::Uniquifier(&s); }
 
-        void EraseByStart(const String_& start) {
-            LOCK_OBJECTS;
-            auto pLow = TheObjects().lower_bound(start);
-            auto pHigh = pLow;
-            while (pHigh != TheObjects().end() && pHigh->first.substr(0, start.size()) == start)
-                ++pHigh;
-            TheObjects().erase(pLow, pHigh);
+        // must be called with the lock held
+        void EraseSimilar(const Storable_& s, bool check_name) {
+            const String_ start = check_name ? BaseTag(s) : TypeTag(s);
+            auto po = TheObjects().lower_bound(start);
+            while (po != TheObjects().end() && po->first.substr(0, start.size()) == start) {
+                // a tag starting like this might belong to an object with a longer name or type
+                if (po->second->type_ == s.type_ && (!check_name || po->second->name_ == s.name_))
+                    po = TheObjects().erase(po);
+                else
+                    ++po;
+            }
         }
     } // namespace
 
     String_ ObjectAccess_::AddBase(const Handle_<Storable_>& s, const RepositoryErase_& erase) const {
-        const String_ untickered = BaseTag(*s);
+        LOCK_OBJECTS; // erase and insert together, so that others never see both objects or neither
         switch (erase.Switch()) {
         case RepositoryErase_::Value_::NAME_NONEMPTY:
             if (s->name_.empty())
                 break;
             // else fall through
         case RepositoryErase_::Value_::NAME:
-            EraseByStart(untickered); // squash anything with this name
+            EraseSimilar(*s, true); // squash anything with this name
             break;
         case RepositoryErase_::Value_::TYPE:
-            EraseByStart(TypeTag(*s)); // squash anything with this type
+            EraseSimilar(*s, false); // squash anything with this type
             break;
         case RepositoryErase_::Value_::_NOT_SET:
         case RepositoryErase_::Value_::NONE:
         case RepositoryErase_::Value_::_N_VALUES:
             break;
         }
-        // call to LOCK_OBJECTS must be after EraseByStart, because that will also acquire the lock
-        LOCK_OBJECTS;
-        const String_ retval = untickered + Uniquifier(*s);
+        const String_ retval = BaseTag(*s) + Uniquifier(*s);
         TheObjects().insert(make_pair(retval, s));
         return retval;
     }
@@ -129,7 +131,7 @@ namespace Dal {
                 auto po = TheObjects().lower_bound(tagStart);
                 if (po != TheObjects().end() && po->first.substr(0, tagStart.size()) == tagStart) {
                     const Box_* box = dynamic_cast<const Box_*>(po->second.get());
-                    REQUIRE(box && !box->contents_.Empty(), "Internal error, or global tag meddling");
+                    REQUIRE(box, "Internal error, or global tag meddling");
                     return box->contents_;
                 }
                 return EMPTY;
@@ -137,6 +139,7 @@ namespace Dal {
         };
 
         RUN_AT_LOAD(Global::SetTheDateStore(new RepoStore_))
+        RUN_AT_LOAD(Global::SetTheFixingsStore(new RepoStore_))
     } // namespace
 
     Handle_<Storable_> ObjectAccess_::Fetch(const String_& tag, bool quiet) const {
-- 
2.43.0


From 280286e480011beef7332647b2408e958824d51e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 44/51] fix: two different FixHistory_ structs shared one name;
 storing fixings and setting dates was not atomic

---
 dal/indice/fixings.hpp  |  3 ++-
 dal/storage/globals.cpp | 38 ++++++++++++++++++++------------------
 dal/storage/globals.hpp |  5 +----
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/dal/indice/fixings.hpp b/dal/indice/fixings.hpp
index 56a7371..6abaf89 100644
--- a/dal/indice/fixings.hpp
+++ b/dal/indice/fixings.hpp
@@ -30,7 +30,8 @@ namespace Dal {
         vals_t vals_;
 
     public:
-        FixHistory_(const vals_t& vals) : vals_(vals) {}
+        FixHistory_(const vals_t& vals = vals_t()) : vals_(vals) {}
+        [[nodiscard]] const vals_t& Vals() const { return vals_; }
         double Find(const DateTime_& fix_time, bool quiet = false) const;
     };
 
diff --git a/dal/storage/globals.cpp b/dal/storage/globals.cpp
index 2d7401a..980dde6 100644
--- a/dal/storage/globals.cpp
+++ b/dal/storage/globals.cpp
@@ -58,10 +58,12 @@ namespace Dal {
     void Global::Dates_::SetEvaluationDate(const Date_& date) { XGLOBAL::SetEvaluationDate(date); }
 
     void XGLOBAL::SetAccountingDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(ACCOUNTING(), Matrix::M1x1(Cell_(when)));
     }
 
     void XGLOBAL::SetEvaluationDate(const Date_& when) {
+        LOCK_STORES;
         Global::TheDateStore().Set(EVALUATION(), Matrix::M1x1(Cell_(when)));
     }
 
@@ -86,33 +88,33 @@ namespace Dal {
         // static
         std::unique_ptr<Global::Store_>& XTheFixingsStore() { RETURN_STATIC(std::unique_ptr<Global::Store_>); }
         const String_ FIX_PREFIX("FixingsFor:");
+
+        // must be called with the lock held
+        FixHistory_::vals_t StoredFixings(const String_& index) {
+            const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
+            FixHistory_::vals_t retval;
+            if (stored.Empty())
+                return retval;
+            REQUIRE(stored.Cols() == 2, "Invalid fixings in store");
+            const int n = stored.Rows();
+            for (int ii = 0; ii < n; ++ii)
+                retval[Cell::ToDateTime(stored(ii, 0))] = Cell::ToDouble(stored(ii, 1));
+            return retval;
+        }
     } // namespace
 
     FixHistory_ Global::Fixings_::History(const String_& index) {
         LOCK_STORES;
-        const Matrix_<Cell_>& stored = Global::TheFixingsStore().Get(FIX_PREFIX + index);
-        FixHistory_ retval;
-        if (stored.Empty())
-            return retval;
-        assert(stored.Cols() == 2);
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<DateTime_>()));
-        assert(AllOf(stored.Col(0), Cell::TypeCheck_<double>()));
-        const int n = stored.Rows();
-        retval.vals_.Resize(n);
-        for (int ii = 0; ii < n; ++ii)
-            retval.vals_[ii] = make_pair(Cell::ToDateTime(stored(ii, 0)), Cell::ToDouble(stored(ii, 1)));
-        return retval;
+        return StoredFixings(index);
     }
 
     int XGLOBAL::StoreFixings(const String_& index, const FixHistory_& fixings, bool append) {
+        LOCK_STORES;
         std::map<DateTime_, double> all;
-        if (append) {
-            const FixHistory_& old = Global::Fixings_().History(index);
-            for (const auto& d_f : old.vals_)
-                all[d_f.first] = d_f.second;
-        }
+        if (append)
+            all = StoredFixings(index);
         // now add new fixings, overwriting the old
-        for (const auto& d_f : fixings.vals_)
+        for (const auto& d_f : fixings.Vals())
             all[d_f.first] = d_f.second;
         // write results directly into the table for storage
         Matrix_<Cell_> storeMe(static_cast<int>(all.size()), 2);
diff --git a/dal/storage/globals.hpp b/dal/storage/globals.hpp
index ec73d27..fb30a4a 100644
--- a/dal/storage/globals.hpp
+++ b/dal/storage/globals.hpp
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <dal/indice/fixings.hpp>
 #include <dal/utilities/environment.hpp>
 
 namespace Dal {
@@ -14,10 +15,6 @@ namespace Dal {
     class Date_;
     class DateTime_;
 
-    struct FixHistory_ {
-        Vector_<pair<DateTime_, double>> vals_;
-    };
-
     namespace Global {
         class Store_ : noncopyable {
         public:
-- 
2.43.0


From bd8739ecf821cc63e0548f12b002f3d32966f371 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 45/51] fix: auditor mode was uninitialised and an empty audit
 bag was dereferenced

---
 dal/storage/audit.cpp | 2 +-
 dal/storage/audit.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dal/storage/audit.cpp b/dal/storage/audit.cpp
index ae72ec9..a28caf8 100644
--- a/dal/storage/audit.cpp
+++ b/dal/storage/audit.cpp
@@ -33,7 +33,7 @@ namespace Dal {
     }
 
     Vector_<Handle_<Storable_>> AuditorImp_::Find(const String_& key) const {
-        static const auto SECOND = GetSecond(*mine_->contents_.begin());
+        static const GetSecond_<Bag_::map_t::value_type> SECOND;
         Vector_<Handle_<Storable_>> ret_val;
         if (mode_ == SHOWING) {
             auto range = mine_->contents_.equal_range(key);
diff --git a/dal/storage/audit.hpp b/dal/storage/audit.hpp
index a2e096e..8d5085c 100644
--- a/dal/storage/audit.hpp
+++ b/dal/storage/audit.hpp
@@ -25,7 +25,7 @@ namespace Dal {
             READING,
             READING_EXCLUSIVE, // avoid vast memory use
             SHOWING,
-        } mode_;
+        } mode_ = PASSIVE;
         AuditorImp_(): mine_(new Bag_("bag", Bag_::map_t())) {}
         void Notice(const String_& key, const Handle_<Storable_>& value) const override;
         [[nodiscard]] Vector_<Handle_<Storable_>> Find(const String_& key) const override;
-- 
2.43.0


From d7c94792dfa616b867c92b6dd7c33dd6a8b2e92a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 46/51] fix: FX index parser was not registered; malformed
 equity names, null fixing access, DF collateral and zero monitoring intervals

A quiet PastFixing without fixing access dereferenced null; a malformed equity
name read from npos; DF_ dropped its collateral; a monitoring interval of zero
looped forever.
---
 dal/indice/index.cpp         | 2 +-
 dal/indice/index/ir.hpp      | 2 +-
 dal/indice/indexpath.cpp     | 1 +
 dal/indice/parser/equity.cpp | 2 ++
 dal/indice/parser/init.cpp   | 2 ++
 5 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dal/indice/index.cpp b/dal/indice/index.cpp
index 196eb40..6fca1d0 100644
--- a/dal/indice/index.cpp
+++ b/dal/indice/index.cpp
@@ -12,7 +12,7 @@ namespace Dal {
         static const std::map<DateTime_, double> EMPTY;
         auto hist = Environment::Find<FixingsAccess_>(_env);
         REQUIRE(hist || quiet, "no fixing access");
-        auto fixings = hist->Fetch(index_name);
+        auto fixings = hist ? hist->Fetch(index_name) : Handle_<Fixings_>();
         REQUIRE(fixings || quiet, "no fixings exist");
 
         auto vals = fixings ? fixings->vals_ : EMPTY;
diff --git a/dal/indice/index/ir.hpp b/dal/indice/index/ir.hpp
index a2c02b5..630a1d0 100644
--- a/dal/indice/index/ir.hpp
+++ b/dal/indice/index/ir.hpp
@@ -53,7 +53,7 @@ namespace Dal::Index {
             const Cell_& maturity,
             const Cell_* start = nullptr,
             const CollateralType_& coll = CollateralType_())
-            : ccy_(ccy), maturity_(maturity), start_(Dereference(start, Cell_())) {}
+            : ccy_(ccy), maturity_(maturity), collateral_(coll), start_(Dereference(start, Cell_())) {}
 
         [[nodiscard]] String_ Name() const override;
         [[nodiscard]] Date_ Maturity(const DateTime_& event_time) const;
diff --git a/dal/indice/indexpath.cpp b/dal/indice/indexpath.cpp
index b510da8..decbdae 100644
--- a/dal/indice/indexpath.cpp
+++ b/dal/indice/indexpath.cpp
@@ -52,6 +52,7 @@ namespace Dal {
                                                 const std::pair<double, double>& range,
                                                 double monitoring_interval,
                                                 double ramp_sigma) const {
+        REQUIRE(monitoring_interval > 0.0, "Monitoring interval must be positive");
         DateTime_ current = from;
         double prob = 1.0;
 
diff --git a/dal/indice/parser/equity.cpp b/dal/indice/parser/equity.cpp
index a085673..279fa58 100644
--- a/dal/indice/parser/equity.cpp
+++ b/dal/indice/parser/equity.cpp
@@ -13,6 +13,8 @@ namespace Dal::Index {
         auto eq_start = name.find_first_of("[");
         auto eq_stop = name.find_first_of("]");
 
+        REQUIRE(eq_start != String_::npos && eq_stop != String_::npos && eq_start < eq_stop, "equity index pattern is not good");
+
         String_ eq_name = name.substr(eq_start + 1, eq_stop - eq_start - 1);
         auto tenor_start = name.find_first_of("@>", eq_stop + 1);
         if (tenor_start == String_::npos)
diff --git a/dal/indice/parser/init.cpp b/dal/indice/parser/init.cpp
index 14647fb..977b31a 100644
--- a/dal/indice/parser/init.cpp
+++ b/dal/indice/parser/init.cpp
@@ -8,6 +8,7 @@
 #include <dal/string/strings.hpp>
 #include <dal/indice/indexparse.hpp>
 #include <dal/indice/parser/equity.hpp>
+#include <dal/indice/parser/fx.hpp>
 
 namespace Dal {
 
@@ -16,6 +17,7 @@ namespace Dal {
     void IndexParsers_::Init() {
         if (!init_) {
             Index::RegisterParser("EQ", Index::EquityParser);
+            Index::RegisterParser("FX", Index::FxParser);
             init_ = true;
         }
     }
-- 
2.43.0


From 34fe69b11bfdfa94a91afaac73c086d9315326b3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:51:11 +0000
Subject: [PATCH 47/51] fix: text naming a day that does not exist was read as
 another day

'2024-13-01' was read as 2025-01-01 and '2024-02-30' as 2024-03-01.
---
 dal/time/dateutils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dal/time/dateutils.cpp b/dal/time/dateutils.cpp
index 3fc408f..40adc1d 100644
--- a/dal/time/dateutils.cpp
+++ b/dal/time/dateutils.cpp
@@ -12,6 +12,11 @@
 namespace {
     const std::regex US_FORMAT("([0-9]+)/([0-9]+)/([0-9]+)");
     const std::regex YMD_FORMAT("([0-9]+)-([0-9]+)-([0-9]+)");
+
+    Dal::Date_ ExistingDate(int yy, int mm, int dd) {
+        REQUIRE(mm >= 1 && mm <= 12 && dd >= 1 && dd <= Dal::Date::DaysInMonth(yy, mm), "No such date");
+        return Dal::Date_(yy, mm, dd);
+    }
 } // namespace
 
 namespace Dal {
@@ -27,13 +32,13 @@ namespace Dal {
             const int mm = String::ToInt(String_(match.str(1)));
             const int dd = String::ToInt(String_(match.str(2)));
             const int yy = String::ToInt(String_(match.str(3))) + (match.str(3).size() == 2 ? 2000 : 0);
-            return Date_(yy, mm, dd);
+            return ExistingDate(yy, mm, dd);
         }
         if (std::regex_match(src, match, YMD_FORMAT)) {
             const int yyyy = String::ToInt(String_(match.str(1)));
             const int mm = String::ToInt(String_(match.str(2)));
             const int dd = String::ToInt(String_(match.str(3)));
-            return Date_(yyyy, mm, dd);
+            return ExistingDate(yyyy, mm, dd);
         }
         THROW("Unrecognizable date source");
     }
-- 
2.43.0


From 6203c3ed4d6f07d57b674ed2bc0c3ef764db6f01 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 06:57:11 +0000
Subject: [PATCH 48/51] fix: a price over no paths was not a number, and
 missing product or model dereferenced null

---
 public/src/value.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/src/value.cpp b/public/src/value.cpp
index 34cbd92..7f70945 100644
--- a/public/src/value.cpp
+++ b/public/src/value.cpp
@@ -26,6 +26,8 @@ namespace Dal {
                                                 bool use_bb,
                                                 bool enable_aad,
                                                 double smooth) {
+        REQUIRE(product && model_data, "product and model must be given");
+        REQUIRE(n_paths > 0, "number of paths must be positive");
         const auto modelType = model_data->Type();
         REQUIRE(MODEL_STORE.find(modelType) != MODEL_STORE.end(), "only support black scholes and Dupire model now");
         auto prd = product->Product();
-- 
2.43.0


From fec9d3c067742e0c6fc8c9ac1181ac08c8439fab Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 49/51] fix: a risk view could not be constructed

---
 dal/model/ivs.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dal/model/ivs.hpp b/dal/model/ivs.hpp
index cde2cee..512f8f0 100644
--- a/dal/model/ivs.hpp
+++ b/dal/model/ivs.hpp
@@ -20,10 +20,7 @@ namespace Dal::AAD {
     public:
         RiskView_() : isEmpty_(true){};
         RiskView_(const Vector_<>& strikes, const Vector_<>& mats)
-            : isEmpty_(false), strikes_(strikes), mats_(mats), spreads_(strikes.size(), mats.size()) {
-            for (auto& spr : spreads_)
-                spr = T_(0.0);
-        }
+            : isEmpty_(false), strikes_(strikes), mats_(mats), spreads_(strikes.size(), mats.size(), T_(0.0)) {}
 
         T_ Spread(double strike, double mat) const {
             return isEmpty_ ? T_(0.0) : Interp2DLinearImplX(strikes_, mats_, spreads_, strike, mat);
-- 
2.43.0


From 15880552fc2e28403d6ccf5ce342f9d609c88fe2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 07:02:59 +0000
Subject: [PATCH 50/51] fix: calibration with no grid spot near the money read
 out of bounds

---
 dal/model/dupire.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dal/model/dupire.hpp b/dal/model/dupire.hpp
index df31e24..77bb3e3 100644
--- a/dal/model/dupire.hpp
+++ b/dal/model/dupire.hpp
@@ -208,6 +208,13 @@ namespace Dal {
             while (ih >= 0 && spots[ih] > ivs.Spot() + 2.5 * std)
                 --ih;
 
+            // No spot within: flat at the money
+            if (il > ih) {
+                for (int i = 0; i < nSpots; ++i)
+                    lVolsBegin[i] = ivs.LocalVol(ivs.Spot(), maturity, &riskView);
+                return;
+            }
+
             // Loop on spots
             for (int i = il; i <= ih; ++i) {
                 //  Dupire's formula
-- 
2.43.0


From 3ce1396e2ac61e4c545a0e661e758a681001f64a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 07:17:34 +0000
Subject: [PATCH 51/51] fix: popping a stack skipped its top, empty stacks
 could not grow, inner products of unequal size read out of bounds, and unique
 ignored its order

---
 dal/math/stacks.hpp          | 9 +++++++--
 dal/utilities/algorithms.hpp | 4 +++-
 dal/utilities/numerics.hpp   | 1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/dal/math/stacks.hpp b/dal/math/stacks.hpp
index 1dbc3d6..aebeede 100644
--- a/dal/math/stacks.hpp
+++ b/dal/math/stacks.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iterator>
 
 namespace Dal {
@@ -41,7 +42,7 @@ namespace Dal {
             else
                 data_ = nullptr;
             if (sp_ > 0)
-                copy(rhs.data_, rhs.data_ + sp_, data_);
+                std::copy(rhs.data_, rhs.data_ + sp_, data_);
         }
 
         Stack_& operator=(const Stack_& rhs) {
@@ -93,6 +94,10 @@ namespace Dal {
         FORCE_INLINE const_iterator end() const { return std::reverse_iterator<const E_*>(data_); }
 
         template <typename T_> void Push(T_&& value) {
+            if (size_ == 0) {
+                delete[] data_;
+                data_ = new E_[size_ = 1];
+            }
             data_[sp_] = std::forward<T_>(value);
             ++sp_;
             if (sp_ >= size_) {
@@ -110,7 +115,7 @@ namespace Dal {
         FORCE_INLINE E_& operator[](const size_t i) { return data_[sp_ - 1 - i]; }
         FORCE_INLINE const E_& operator[](const size_t i) const { return data_[sp_ - 1 - i]; }
 
-        FORCE_INLINE E_ TopAndPop() { return std::move(data_[sp_--]); }
+        FORCE_INLINE E_ TopAndPop() { return std::move(data_[--sp_]); }
 
         FORCE_INLINE void Pop() { --sp_; }
         FORCE_INLINE void Pop(const size_t n) { sp_ -= n; }
diff --git a/dal/utilities/algorithms.hpp b/dal/utilities/algorithms.hpp
index 3fd1e28..7b342bd 100644
--- a/dal/utilities/algorithms.hpp
+++ b/dal/utilities/algorithms.hpp
@@ -101,7 +101,9 @@ namespace Dal {
     template <class C_, class LT_> C_ Unique(const C_& src, const LT_& less) {
         C_ ret_val(src);
         std::sort(ret_val.begin(), ret_val.end(), less);
-        ret_val.erase(std::unique(ret_val.begin(), ret_val.end()), ret_val.end());
+        using element_t = typename C_::value_type;
+        auto same = [&](const element_t& x, const element_t& y) { return !less(x, y) && !less(y, x); };
+        ret_val.erase(std::unique(ret_val.begin(), ret_val.end(), same), ret_val.end());
         return ret_val;
     }
 
diff --git a/dal/utilities/numerics.hpp b/dal/utilities/numerics.hpp
index f34b545..cab2b99 100644
--- a/dal/utilities/numerics.hpp
+++ b/dal/utilities/numerics.hpp
@@ -26,6 +26,7 @@ namespace Dal {
     }
 
     template <class C1_, class C2_> auto InnerProduct(const C1_& src1, const C2_& src2) {
+        REQUIRE(src1.size() == src2.size(), "src1 size is not equal to src2 size");
         using value_type = typename C1_::value_type;
         return std::inner_product(src1.begin(), src1.end(), src2.begin(), value_type());
     }
-- 
2.43.0

