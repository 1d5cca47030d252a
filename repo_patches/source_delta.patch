From 51ce8050c16862bd591facd86e9e8dceaa466c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 01/54] fix: do not confuse input byte 0xFF with end of file in
 the lexer

---
 src/lexer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.h b/src/lexer.h
index 30122c8..77fda1a 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -92,7 +92,7 @@ class Lexer
   {
     if (d_bufferPos < d_bufferEnd)
     {
-      d_ch = d_buffer[d_bufferPos];
+      d_ch = static_cast<unsigned char>(d_buffer[d_bufferPos]);
       d_bufferPos++;
     }
     else if (d_isInteractive)
@@ -110,7 +110,7 @@ class Lexer
       }
       else
       {
-        d_ch = d_buffer[0];
+        d_ch = static_cast<unsigned char>(d_buffer[0]);
         d_bufferPos = 1;
       }
     }
-- 
2.43.0


From 074b18cc76f519089db95fca94d66560d025d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 02/54] fix: keep the reference assertions in force after
 including another file

---
 src/state.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 39a984e..5c8e722 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -307,8 +307,11 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return true;
   }
   Assert (!isReference || !d_hasReference);
-  d_hasReference = isReference;
-  d_referenceNf = referenceNf;
+  if (isReference)
+  {
+    d_hasReference = true;
+    d_referenceNf = referenceNf;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From a46d95b64be4dd28a2154bc413ed89253c4a424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 03/54] fix: check assume commands at nested assumption levels
 against the reference

---
 src/cmd_parser.cpp |  2 +-
 src/state.cpp      | 18 ++++++++----------
 src/state.h        | 10 ++++++++--
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b0dc1ed..0360c3d 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -117,7 +117,7 @@ bool CmdParser::parseNextCommand()
       // bind the assumption to (pf <proven>).
       Expr pt = d_state.mkProof(proven);
       d_eparser.bind(name, pt);
-      if (!d_state.addAssumption(proven))
+      if (!d_state.addAssumption(proven, tok == Token::ASSUME_PUSH))
       {
         std::stringstream ss;
         ss << "The assumption " << name << " was not part of the referenced assertions";
diff --git a/src/state.cpp b/src/state.cpp
index 5c8e722..59dc5c1 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -452,21 +452,19 @@ void State::markDeleted(ExprValue* e)
   d_inGarbageCollection = false;
 }
 
-bool State::addAssumption(const Expr& a)
+bool State::addAssumption(const Expr& a, bool isPush)
 {
   d_assumptions.push_back(a);
-  if (d_hasReference)
+  // assumptions of assume-push are local, all others (including those from
+  // assume at a nested assumption level) are never discharged
+  if (d_hasReference && !isPush)
   {
-    // only care if at assumption level zero
-    if (d_assumptionsSizeCtx.empty())
+    Expr aa = a;
+    if (!d_referenceNf.isNull())
     {
-      Expr aa = a;
-      if (!d_referenceNf.isNull())
-      {
-        aa = mkExpr(Kind::APPLY, {d_referenceNf, a});
-      }
-      return d_referenceAsserts.find(aa.getValue()) != d_referenceAsserts.end();
+      aa = mkExpr(Kind::APPLY, {d_referenceNf, a});
     }
+    return d_referenceAsserts.find(aa.getValue()) != d_referenceAsserts.end();
   }
   return true;
 }
diff --git a/src/state.h b/src/state.h
index 7174e27..896fa63 100644
--- a/src/state.h
+++ b/src/state.h
@@ -73,8 +73,14 @@ class State
   bool includeFile(const std::string& s, bool isSignature);
   /** include file, possibly as a reference */
   bool includeFile(const std::string& s, bool isSignature, bool isReference, const Expr& referenceNf);
-  /** add assumption */
-  bool addAssumption(const Expr& a);
+  /**
+   * Add assumption.
+   * @param a The formula that is assumed.
+   * @param isPush Whether a is the assumption of an assume-push, which is local
+   * and hence is not required to occur in the reference assertions.
+   * @return false if a was required to be a reference assertion and is not.
+   */
+  bool addAssumption(const Expr& a, bool isPush);
   /** add reference assert */
   void addReferenceAssert(const Expr& a);
   /** Set type rule for literal kind k to t */
-- 
2.43.0


From fcfad6d39822c069e8138f1ed1ae7302fb9a042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 04/54] fix: close the scope of an assumption in step-pop
 regardless of push and pop

---
 src/state.cpp | 18 ++++++++++++++++--
 src/state.h   |  2 ++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 59dc5c1..dda5312 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -201,6 +201,7 @@ void State::reset()
   d_symTable.clear();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
+  d_assumptionsScopeCtx.clear();
   d_decls.clear();
   d_declsSizeCtx.clear();
   if (d_plugin!=nullptr)
@@ -228,6 +229,11 @@ void State::popScope()
   {
     EO_FATAL() << "State::popScope: empty context";
   }
+  if (!d_assumptionsScopeCtx.empty()
+      && d_declsSizeCtx.size() <= d_assumptionsScopeCtx.back())
+  {
+    EO_FATAL() << "State::popScope: cannot pop the scope of an open assumption";
+  }
   size_t lastSize = d_declsSizeCtx.back();
   d_declsSizeCtx.pop_back();
   size_t i = d_decls.size();
@@ -267,6 +273,8 @@ void State::pushAssumptionScope()
   pushScope();
   // remember assumption size
   d_assumptionsSizeCtx.push_back(d_assumptions.size());
+  // remember the scope introduced by this assumption
+  d_assumptionsScopeCtx.push_back(d_declsSizeCtx.size());
 }
 
 void State::popAssumptionScope()
@@ -275,8 +283,14 @@ void State::popAssumptionScope()
   size_t lastSize = d_assumptionsSizeCtx.back();
   d_assumptionsSizeCtx.pop_back();
   d_assumptions.resize(lastSize);
-  // pop the parsing scope
-  popScope();
+  // pop the parsing scope, along with any scopes still open within it, so that
+  // the discharged assumption is no longer accessible
+  size_t scope = d_assumptionsScopeCtx.back();
+  d_assumptionsScopeCtx.pop_back();
+  while (d_declsSizeCtx.size() >= scope)
+  {
+    popScope();
+  }
 }
 bool State::includeFile(const std::string& s, bool isSignature)
 {
diff --git a/src/state.h b/src/state.h
index 896fa63..45ed363 100644
--- a/src/state.h
+++ b/src/state.h
@@ -377,6 +377,8 @@ class State
   std::vector<Expr> d_assumptions;
   /** Context size */
   std::vector<size_t> d_assumptionsSizeCtx;
+  /** The number of open scopes after opening each assumption scope */
+  std::vector<size_t> d_assumptionsScopeCtx;
   //--------------------- expression info
   /** Map from expressions to constructor info */
   std::map<const ExprValue*, AppInfo> d_appData;
-- 
2.43.0


From e3b7d7a4769a246a21b6d757db75fc14d4a8ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 05/54] fix: reject proofs on standard input that leave an
 assumption scope open

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index dff12d3..b4fea72 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -176,6 +176,10 @@ int main( int argc, char* argv[] )
     while (p.parseNextCommand())
     {
     }
+    if (s.getAssumptionLevel() != 0)
+    {
+      EO_FATAL() << "Error: the input did not preserve assumption scope.";
+    }
   }
   else
   {
-- 
2.43.0


From f44f3f2e9c8ba41d9e35100f4d2efba6fa1e1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 06/54] fix: restore the overload information of a term when
 leaving a scope

---
 src/state.cpp | 13 ++++++++++++-
 src/state.h   |  6 ++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index dda5312..daa54eb 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -251,7 +251,13 @@ void State::popScope()
       std::vector<Expr>& ov = d_overloads[d_decls[i]];
       // we always have at least 2 overloads
       Assert (ov.size()>=2);
-      // was overloaded, we revert the binding
+      // was overloaded, we revert the binding and the overload information
+      // of the term that it bound
+      const std::pair<bool, std::string>& prev = d_overloadedPrev.back();
+      AppInfo& ain = d_appData[ov.back().getValue()];
+      ain.d_isOverloaded = prev.first;
+      ain.d_overloadName = prev.second;
+      d_overloadedPrev.pop_back();
       ov.pop_back();
       Expr tmp = ov.back();
       its->second = tmp;
@@ -1289,6 +1295,11 @@ bool State::bind(const std::string& name, const Expr& e)
     Trace("overload") << "** overload: " << name << std::endl;
     // if already bound, mark as overloaded
     AppInfo& ain = d_appData[e.getValue()];
+    // remember what to restore, if not at global scope
+    if (!d_declsSizeCtx.empty())
+    {
+      d_overloadedPrev.emplace_back(ain.d_isOverloaded, ain.d_overloadName);
+    }
     ain.d_isOverloaded = true;
     ain.d_overloadName = name;
     std::vector<Expr>& ov = d_overloads[name];
diff --git a/src/state.h b/src/state.h
index 45ed363..c669481 100644
--- a/src/state.h
+++ b/src/state.h
@@ -363,6 +363,12 @@ class State
    *   d_overloadedDecls = { "A", "A", "B" }.
    */
   std::vector<std::string> d_overloadedDecls;
+  /**
+   * For each element of d_overloadedDecls, the overload information (whether it
+   * was overloaded, and the name of the overload) that the term bound by that
+   * declaration had beforehand.
+   */
+  std::vector<std::pair<bool, std::string>> d_overloadedPrev;
   /**
    * Maps symbols that are bound to >= 2 terms to the list of all terms bound
    * to that symbol. Each vector in the range of this map has size >=2.
-- 
2.43.0


From 62dd99db9145f06b21ebc4cdb2ab8c0b3176a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 07/54] fix: keep the builtin symbols and drop all declarations
 in reset

---
 src/state.cpp        | 11 ++++++++++-
 src/state.h          |  2 ++
 src/type_checker.cpp | 26 ++++++++++++++++++++++++++
 src/type_checker.h   |  2 ++
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index daa54eb..c0fdca7 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -192,13 +192,22 @@ State::State(Options& opts, Stats& stats)
   // Proof is the return type of terms with kind Kind::PROOF, which is an
   // ordinary type (not available in the parser).
   d_proofType = Expr(mkSymbolInternal(Kind::CONST, "eo::Proof", d_type));
+
+  // remember the builtin symbols, which are the ones available after a reset
+  d_builtinSymTable = d_symTable;
 }
 
 State::~State() {}
 
 void State::reset()
 {
-  d_symTable.clear();
+  d_symTable = d_builtinSymTable;
+  d_ruleSymTable.clear();
+  d_overloads.clear();
+  d_overloadedDecls.clear();
+  d_overloadedPrev.clear();
+  d_includes.clear();
+  d_tc.resetLiteralTypeRules();
   d_assumptions.clear();
   d_assumptionsSizeCtx.clear();
   d_assumptionsScopeCtx.clear();
diff --git a/src/state.h b/src/state.h
index c669481..9985889 100644
--- a/src/state.h
+++ b/src/state.h
@@ -347,6 +347,8 @@ class State
   //--------------------- parsing state
   /** The symbol table, mapping symbols */
   std::map<std::string, Expr> d_symTable;
+  /** The builtin symbols, i.e. the initial value of the symbol table */
+  std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
   /** The (canonical) bound variables for binders */
diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 25de2f5..7c0631d 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -57,6 +57,32 @@ void TypeChecker::setLiteralTypeRule(Kind k, const Expr& t)
   it->second = t;
 }
 
+void TypeChecker::resetLiteralTypeRules()
+{
+  for (std::pair<const Kind, Expr>& r : d_literalTypeRules)
+  {
+    r.second = d_null;
+  }
+  // also forget the types that were computed with these rules, where we keep
+  // them alive until the cache is no longer being traversed
+  std::vector<Expr> types;
+  std::map<const ExprValue*, Expr>& tc = d_state.d_typeCache;
+  for (std::map<const ExprValue*, Expr>::iterator it = tc.begin();
+       it != tc.end();)
+  {
+    if (d_literalTypeRules.find(it->first->getKind())
+        != d_literalTypeRules.end())
+    {
+      types.push_back(it->second);
+      it = tc.erase(it);
+    }
+    else
+    {
+      ++it;
+    }
+  }
+}
+
 Expr TypeChecker::getOrSetLiteralTypeRule(Kind k, ExprValue* self)
 {
   std::map<Kind, Expr>::iterator it = d_literalTypeRules.find(k);
diff --git a/src/type_checker.h b/src/type_checker.h
index 4f04b72..c56ae4d 100644
--- a/src/type_checker.h
+++ b/src/type_checker.h
@@ -45,6 +45,8 @@ class TypeChecker
   static bool checkArity(Kind k, size_t nargs, std::ostream* out = nullptr);
   /** Set type rule for literal kind k to t */
   void setLiteralTypeRule(Kind k, const Expr& t);
+  /** Forget the type rules of all literal kinds, and the types of literals */
+  void resetLiteralTypeRules();
   /**
    * Evaluate the expression e in the given context.
    */
-- 
2.43.0


From 61377c1c09d54f50922dbca04364ea5ba04ffe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 08/54] fix: preserve the order of elements in list operations
 on left associative operators

---
 src/type_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 7c0631d..ee02d85 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1053,7 +1053,7 @@ Expr TypeChecker::prependNAryChildren(ExprValue* op,
   if (isLeft)
   {
     ExprValue* c1;
-    for (auto it = hargs.begin(); it != hargs.end(); ++it)
+    for (auto it = hargs.rbegin(); it != hargs.rend(); ++it)
     {
       c1 = d_state.mkExprInternal(Kind::APPLY, {op, ret});
       ret = d_state.mkExprInternal(Kind::APPLY, {c1, *it});
-- 
2.43.0


From e60a50d340fe6170ad1d46d552d76f72bcc90e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 09/54] fix: clip the upper index of eo::extract to the width
 of the binary value

---
 src/literal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/literal.cpp b/src/literal.cpp
index 8d22580..744034d 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -363,7 +363,7 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
             Assert (i1.fitsUnsignedInt() && dsize.fitsUnsignedInt());
             uint32_t v1 = i1.toUnsignedInt();
             uint32_t vs = dsize.toUnsignedInt();
-            uint32_t v2 = i2>dsize ? vs-1 : i2.toUnsignedInt();
+            uint32_t v2 = i2>=dsize ? vs-1 : i2.toUnsignedInt();
             if (v1>v2)
             {
               return Literal(ka, BitVector(0));
-- 
2.43.0


From 0fcd1fa67dd805ac33be26dbe22b8cb329004d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 10/54] fix: require three arguments for eo::extract, whose
 evaluation reads three

---
 src/type_checker.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index ee02d85..e5a3122 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -222,10 +222,8 @@ bool TypeChecker::checkArity(Kind k, size_t nargs, std::ostream* out)
     case Kind::EVAL_LIST_MINCLUDE:
     case Kind::EVAL_LIST_MEQ:
     case Kind::EVAL_LIST_DIFF:
-    case Kind::EVAL_LIST_INTER: ret = (nargs == 3); break;
-    case Kind::EVAL_EXTRACT:
-      ret = (nargs==3 || nargs==2);
-      break;
+    case Kind::EVAL_LIST_INTER:
+    case Kind::EVAL_EXTRACT: ret = (nargs == 3); break;
     default:
       if (isNaryLiteralOp(k))
       {
-- 
2.43.0


From 79c805f1da2e425adc4214420d2b94ae2bfe7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 11/54] fix: do not evaluate eo::to_str on numerals that are
 not code points

---
 src/literal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/literal.cpp b/src/literal.cpp
index 744034d..3030414 100644
--- a/src/literal.cpp
+++ b/src/literal.cpp
@@ -450,7 +450,9 @@ Literal Literal::evaluate(Kind k, const std::vector<const Literal*>& args)
               return Literal(String(vec));
             }
           }
+          // otherwise not a code point, does not evaluate
         }
+          break;
         case Kind::RATIONAL:return Literal(String(args[0]->toString()));
         case Kind::HEXADECIMAL:return Literal(String("#x" + args[0]->toString()));
         case Kind::BINARY:return Literal(String("#b" + args[0]->toString()));
-- 
2.43.0


From 0395b8f64654c56645ff923fe1286932e07f659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 12/54] fix: print the leading zeroes of hexadecimal literals

---
 src/util/bitvector.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/bitvector.cpp b/src/util/bitvector.cpp
index 69f8541..e24dbca 100644
--- a/src/util/bitvector.cpp
+++ b/src/util/bitvector.cpp
@@ -45,6 +45,10 @@ std::string BitVector::toString(unsigned int base) const
     }
     return zeroes + str;
   }
+  else if (base == 16 && (d_size + 3) / 4 > str.size())
+  {
+    return std::string((d_size + 3) / 4 - str.size(), '0') + str;
+  }
   else if (d_size==0)
   {
     // special case, if size is zero, then print nothing
-- 
2.43.0


From 015903d078b6242c76d12d6a3e1d89521d2d46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 13/54] fix: do not drop control characters from string
 literals

---
 src/util/string.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/util/string.cpp b/src/util/string.cpp
index acfb368..7e71189 100644
--- a/src/util/string.cpp
+++ b/src/util/string.cpp
@@ -54,18 +54,7 @@ String String::concat(const String &other) const
 
 void String::addCharToInternal(unsigned char ch, std::vector<unsigned>& str)
 {
-  // if not a printable character
-  if (ch > 127 || ch < 32)
-  {
-    std::stringstream serr;
-    serr << "Illegal string character: \"" << ch
-         << "\", must use escape sequence";
-    //throw cvc5::internal::Exception(serr.str());
-  }
-  else
-  {
-    str.push_back(static_cast<unsigned>(ch));
-  }
+  str.push_back(static_cast<unsigned>(ch));
 }
 
 std::vector<unsigned> String::toInternal(const std::string& s,
-- 
2.43.0


From 5c0cdc0dec32a79d8004b682aef6e9a42e9d2e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 14/54] fix: escape double quotes when printing string literals

---
 src/expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 9f32d9b..62fa3ac 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -347,7 +347,15 @@ void Expr::printDebugInternal(const Expr& e,
                 os << "#b" << l->toString();
               }
               break;
-            case Kind::STRING:os << "\"" << l->toString() << "\"";break;
+            case Kind::STRING:
+              os << "\"";
+              for (char ch : l->toString())
+              {
+                // "" denotes the escape sequence for "
+                os << (ch == '"' ? "\"\"" : std::string(1, ch));
+              }
+              os << "\"";
+              break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
               // use attribute
-- 
2.43.0


From acb6e27c5dd3f5a1739b9de1b714ac8d096438fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 15/54] fix: check for an unexpected closing parenthesis before
 accessing the parse stack

---
 src/expr_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 6b26697..1cdff4e 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -236,13 +236,13 @@ Expr ExprParser::parseExpr()
       // ------------------- close paren
       case Token::RPAREN:
       {
-        StackFrame& sf = pstack.back();
         // should only be here if we are expecting arguments
-        if (pstack.empty() || sf.d_ctx != ParseCtx::NEXT_ARG)
+        if (pstack.empty() || pstack.back().d_ctx != ParseCtx::NEXT_ARG)
         {
           d_lex.unexpectedTokenError(
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
+        StackFrame& sf = pstack.back();
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From d5f42249588aa07edf4ee421c69143ab81242b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 16/54] fix: reject applications of builtin operators to no
 arguments

---
 src/expr_parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 1cdff4e..2e71e98 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -243,6 +243,14 @@ Expr ExprParser::parseExpr()
               tok, "Mismatched parentheses in SMT-LIBv2 term");
         }
         StackFrame& sf = pstack.back();
+        // builtin operators cannot be applied to no arguments
+        if (sf.d_args.size() == 1
+            && sf.d_args[0].getKind() == Kind::BUILTIN_CONST)
+        {
+          std::stringstream ss;
+          ss << "Expected arguments when applying " << sf.d_args[0];
+          d_lex.parseError(ss.str());
+        }
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
         //typeCheck(ret);
-- 
2.43.0


From 6844b80236a2dd15367a836cd246f917eb7c964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 17/54] fix: require a digit after the minus sign of negative
 rational and decimal literals

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 37278ae..062b230 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -411,7 +411,7 @@ Token Lexer::tokenizeCurrentSymbol() const
           {
             continue;
           }
-          else if (i+1<tsize && ret==Token::INTEGER_LITERAL)
+          else if (i>1 && i+1<tsize && ret==Token::INTEGER_LITERAL)
           {
             if (d_token[i]=='.')
             {
-- 
2.43.0


From 9983d6d34b68a97c072e80eb9758308211392ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 18/54] fix: reject numerals that are not unsigned 32-bit
 integers where an index is expected

---
 src/expr_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 2e71e98..855f4f9 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -936,6 +936,11 @@ uint32_t ExprParser::tokenStrToUnsigned()
   std::stringstream ss;
   ss << d_lex.tokenStr();
   ss >> result;
+  // note that extracting a negative number does not fail but wraps around
+  if (ss.fail() || token[0] == '-')
+  {
+    d_lex.parseError("Expected an unsigned 32-bit numeral");
+  }
   return result;
 }
 
-- 
2.43.0


From d6de113282f09c9d6e024900f5d98734fef39a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 19/54] fix: do not dereference a null AppInfo for premise list
 constructors without attributes

---
 src/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index c0fdca7..2c7235c 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1540,7 +1540,7 @@ bool State::notifyStep(const std::string& name,
       {
         // the nil terminator if applied to empty list
         AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic->d_attrCons;
+        Attr ck = aic == nullptr ? Attr::NONE : aic->d_attrCons;
         if (isListNilAttr(ck))
         {
           ap = aic->d_attrConsTerm;
-- 
2.43.0


From fbfe788fe17c8331c360111c3205c8c1f29ce55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 20/54] fix: reject steps that provide no arguments to a rule
 that expects some

---
 src/state.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index 2c7235c..b90c7ea 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1605,6 +1605,16 @@ bool State::notifyStep(const std::string& name,
     {
       // otherwise a nullary rule
       result = children[0];
+      if (result.getKind() == Kind::PROGRAM_CONST)
+      {
+        // the rule expects arguments, but none were provided
+        if (err)
+        {
+          (*err) << "Expected arguments or premises, but none were provided"
+                 << std::endl;
+        }
+        return false;
+      }
     }
     Assert(!result.isNull() && !result.isEvaluatable());
     return true;
-- 
2.43.0


From 5625fe46e03d27a2ef2d65a6aaf4dc35a34f91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 21/54] fix: do not write to a trie node after erasing it

---
 src/expr_trie.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index d912c01..874f6d6 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -58,12 +58,13 @@ public:
       }
       et = &itet->second;
     }
+    // note that et is deallocated by the call to erase below
+    et->d_data = nullptr;
     // delete the subtree for which et->d_data occurs in a single path
     if (etd!=nullptr)
     {
       etd->d_children.erase(itetd);
     }
-    et->d_data = nullptr;
   }
 };
 
-- 
2.43.0


From a54f17e29c0bc0b33631be96111d4a208ffdb611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 22/54] fix: keep the trie entries of other argument vectors
 when removing one

---
 src/expr_trie.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/expr_trie.h b/src/expr_trie.h
index 874f6d6..f9c9e15 100644
--- a/src/expr_trie.h
+++ b/src/expr_trie.h
@@ -45,9 +45,10 @@ public:
     for (ExprValue* e : children)
     {
       itet = et->d_children.find(e);
-      if (etd == nullptr)
+      if (etd == nullptr || et->d_data != nullptr)
       {
-        // etd is the candidate trie to delete from
+        // etd is the candidate trie to delete from, where note that we must
+        // keep the path to et if it stores the data for another vector
         etd = et;
         itetd = itet;
       }
@@ -61,7 +62,7 @@ public:
     // note that et is deallocated by the call to erase below
     et->d_data = nullptr;
     // delete the subtree for which et->d_data occurs in a single path
-    if (etd!=nullptr)
+    if (etd != nullptr && et->d_children.empty())
     {
       etd->d_children.erase(itetd);
     }
-- 
2.43.0


From aab74dda082c0c93734196ab79852229b49c6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 23/54] fix: reject steps that provide arguments or premises to
 a nullary rule

---
 src/state.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index b90c7ea..fc0a4bf 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1570,6 +1570,16 @@ bool State::notifyStep(const std::string& name,
     }
     if (children.size() > 1)
     {
+      if (children[0].getKind() != Kind::PROGRAM_CONST)
+      {
+        // a nullary rule, but arguments or premises were provided
+        if (err)
+        {
+          (*err) << "Expected no arguments or premises, but some were provided"
+                 << std::endl;
+        }
+        return false;
+      }
       // evaluate the program app
       result = d_tc.evaluateProgramApp(children);
       // if error stream is provided, print details on the failure
-- 
2.43.0


From be909b89c0a4c5437acf94abe80aa651c5fc0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 24/54] fix: do not resolve the overloads of a name for terms
 not written with that name

---
 src/state.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index fc0a4bf..a99425a 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -695,7 +695,11 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         // must call mkExpr again, since we may auto-evaluate
         return mkExpr(ai->d_kind, achildren);
       }
-      if (ai->d_isOverloaded)
+      // note that the operator may be flagged as overloaded for a name that it
+      // is not currently the denotation of, e.g. if it was also bound to that
+      // name by a definition, in which case it was not written with that name
+      if (ai->d_isOverloaded
+          && getVar(ai->d_overloadName).getValue() == hd)
       {
         Trace("overload") << "Use overload when constructing " << k << " " << children << std::endl;
         std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
@@ -844,7 +848,8 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
       {
         dummyChildren.emplace_back(mkSymbol(Kind::CONST, "tmp", t));
       }
-      if (ai!=nullptr && ai->d_isOverloaded)
+      if (ai != nullptr && ai->d_isOverloaded
+          && getVar(ai->d_overloadName) == children[0])
       {
         Trace("overload") << "...overloaded" << std::endl;
         std::vector<Expr>& ov = d_overloads[ai->d_overloadName];
-- 
2.43.0


From 5d12c9f27dbcbe18066b41ef8db0cf9b9bf9e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 25/54] fix: forget which terms are overloaded in reset

---
 src/state.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index a99425a..bccd5c3 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -206,6 +206,12 @@ void State::reset()
   d_overloads.clear();
   d_overloadedDecls.clear();
   d_overloadedPrev.clear();
+  // no term is overloaded anymore
+  for (std::pair<const ExprValue* const, AppInfo>& a : d_appData)
+  {
+    a.second.d_isOverloaded = false;
+    a.second.d_overloadName.clear();
+  }
   d_includes.clear();
   d_tc.resetLiteralTypeRules();
   d_assumptions.clear();
-- 
2.43.0


From 5a828693e9db52e0f807455e352bbc4ef22d6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 26/54] fix: do not delete the proof rules and programs that
 statistics refer to

---
 src/state.cpp | 9 ++++++++-
 src/state.h   | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index bccd5c3..b0b22d5 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -627,7 +627,14 @@ Expr State::mkBuiltinType(Kind k)
 
 Expr State::mkSymbol(Kind k, const std::string& name, const Expr& type)
 {
-  return Expr(mkSymbolInternal(k, name, type));
+  Expr sym(mkSymbolInternal(k, name, type));
+  if (k == Kind::PROOF_RULE || k == Kind::PROGRAM_CONST)
+  {
+    // The statistics and the rules marked :sorry are indexed by these symbols
+    // until the end of the run, ensure ref count.
+    d_statSymbols.push_back(sym);
+  }
+  return sym;
 }
 
 Expr State::mkSelf() const { return d_self; }
diff --git a/src/state.h b/src/state.h
index 9985889..456d9d7 100644
--- a/src/state.h
+++ b/src/state.h
@@ -412,6 +412,8 @@ class State
   Filepath d_inputFile;
   /** The proof rules marked :sorry */
   std::unordered_set<const ExprValue*> d_pfrSorry;
+  /** The proof rules and programs created so far, which are never deleted */
+  std::vector<Expr> d_statSymbols;
   /** Cache of files included */
   std::set<Filepath> d_includes;
   /** Have we parsed a reference file to check assumptions? */
-- 
2.43.0


From 978b8b20c0bf786abd0e5b01ec16d991295d5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 27/54] fix: scope proof rules declared after a push like other
 declarations

---
 src/state.cpp | 15 +++++++++++++--
 src/state.h   |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index b0b22d5..c9d7972 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -203,6 +203,7 @@ void State::reset()
 {
   d_symTable = d_builtinSymTable;
   d_ruleSymTable.clear();
+  d_ruleDecls.clear();
   d_overloads.clear();
   d_overloadedDecls.clear();
   d_overloadedPrev.clear();
@@ -249,6 +250,13 @@ void State::popScope()
   {
     EO_FATAL() << "State::popScope: cannot pop the scope of an open assumption";
   }
+  // unbind the rules declared in this scope
+  while (!d_ruleDecls.empty()
+         && d_ruleDecls.back().second == d_declsSizeCtx.size())
+  {
+    d_ruleSymTable.erase(d_ruleDecls.back().first);
+    d_ruleDecls.pop_back();
+  }
   size_t lastSize = d_declsSizeCtx.back();
   d_declsSizeCtx.pop_back();
   size_t i = d_decls.size();
@@ -1306,13 +1314,16 @@ bool State::bind(const std::string& name, const Expr& e)
   // if using a separate symbol table for rules
   if (d_opts.d_ruleSymTable && e.getKind() == Kind::PROOF_RULE)
   {
-    // don't bind at non-global scope
-    Assert (d_declsSizeCtx.empty());
     if (d_ruleSymTable.find(name)!=d_ruleSymTable.end())
     {
       return false;
     }
     d_ruleSymTable[name] = e;
+    // only have to remember if not at global scope
+    if (!d_declsSizeCtx.empty())
+    {
+      d_ruleDecls.emplace_back(name, d_declsSizeCtx.size());
+    }
     return true;
   }
   // otherwise use the main symbol table
diff --git a/src/state.h b/src/state.h
index 456d9d7..f2628e7 100644
--- a/src/state.h
+++ b/src/state.h
@@ -351,6 +351,11 @@ class State
   std::map<std::string, Expr> d_builtinSymTable;
   /** Symbol table for proof rules, if using separate table */
   std::map<std::string, Expr> d_ruleSymTable;
+  /**
+   * The proof rules bound in d_ruleSymTable at non-global scope, paired with
+   * the number of open scopes when they were declared.
+   */
+  std::vector<std::pair<std::string, size_t>> d_ruleDecls;
   /** The (canonical) bound variables for binders */
   std::map<std::pair<std::string, const ExprValue*>, Expr> d_boundVars;
   /**
-- 
2.43.0


From 4c94e92f95564fc349ea4264ef5e69383194b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:35 +0000
Subject: [PATCH 28/54] fix: name the open assumption of a file that ends
 within a further scope

---
 src/state.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index c9d7972..05f1e17 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -376,11 +376,15 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
   Trace("state") << "...finished" << std::endl;
   if (getAssumptionLevel()!=0)
   {
-    Assert(!d_declsSizeCtx.empty() && d_declsSizeCtx.back() < d_decls.size());
+    // the assumption is the first declaration of the scope it opened, which may
+    // not be the innermost scope
+    size_t scope = d_assumptionsScopeCtx.back();
+    Assert(scope > 0 && scope <= d_declsSizeCtx.size()
+           && d_declsSizeCtx[scope - 1] < d_decls.size());
     EO_FATAL() << "Including file " << inputPath.getRawPath()
                << " did not preserve assumption scope. The most recent open "
                   "assumption was "
-               << d_decls[d_declsSizeCtx.back()] << ".";
+               << d_decls[d_declsSizeCtx[scope - 1]] << ".";
   }
   if (d_plugin != nullptr)
   {
-- 
2.43.0


From b0e14db301c7c31d332bcaf5d2165dceefc5205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 29/54] fix: reject more than one reference file on the command
 line

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index b4fea72..980111d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -149,6 +149,10 @@ int main( int argc, char* argv[] )
   {
     std::string file = includes[i].first;
     bool isInclude = includes[i].second;
+    if (!isInclude && s.hasReference())
+    {
+      EO_FATAL() << "Error: cannot use more than one reference";
+    }
     // cannot provide reference
     Expr refNf;
     if (!s.includeFile(file, isInclude, !isInclude, refNf))
-- 
2.43.0


From d90893bcb1f5dbcb1c768c5105f9190e53f47aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 30/54] fix: check assumptions also if the reference file was
 already included

---
 src/state.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 05f1e17..a645567 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -345,16 +345,16 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
     return false;
   }
 
-  if (!markIncluded(inputPath))
-  {
-    return true;
-  }
   Assert (!isReference || !d_hasReference);
   if (isReference)
   {
     d_hasReference = true;
     d_referenceNf = referenceNf;
   }
+  if (!markIncluded(inputPath))
+  {
+    return true;
+  }
   Filepath currentPath = d_inputFile;
   d_inputFile = inputPath;
   if (d_plugin!=nullptr)
-- 
2.43.0


From 5c486e38b625c0a1f131cd9fd33100e70f5ab866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 31/54] fix: bind variables in define-fun, so that its lambda
 term can be assumed

---
 src/cmd_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index 0360c3d..b385543 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -577,8 +577,10 @@ bool CmdParser::parseNextCommand()
       std::vector<Expr> impls;
       std::vector<Expr> opaques;
       std::map<ExprValue*, AttrMap> pattrMap;
-      std::vector<Expr> vars =
-          d_eparser.parseAndBindSortedVarList(Kind::LAMBDA, pattrMap);
+      // The arguments of define-fun are the variables of the lambda term that
+      // is constructed below, those of define are parameters.
+      std::vector<Expr> vars = d_eparser.parseAndBindSortedVarList(
+          tok == Token::DEFINE_FUN ? Kind::NONE : Kind::LAMBDA, pattrMap);
       if (vars.size() < pattrMap.size())
       {
         // If there were implicit variables, we go back and refine what is
-- 
2.43.0


From cd3d92a48ccd68e04faf69cb1e00b9fd33648481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 32/54] fix: reject files that cannot be read instead of
 treating them as empty

---
 src/lexer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lexer.h b/src/lexer.h
index 77fda1a..737ce2a 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -87,6 +87,14 @@ class Lexer
   // -----------------
   /** Compute the next token by reading from the stream */
   Token nextTokenInternal();
+  /** Reject the input if reading it failed, which is not an end of file */
+  void checkRead()
+  {
+    if (d_istream->bad())
+    {
+      EO_FATAL() << "Error: " << d_inputName << ": could not read input";
+    }
+  }
   /** Get the next character */
   int32_t readNextChar()
   {
@@ -98,6 +106,7 @@ class Lexer
     else if (d_isInteractive)
     {
       d_ch = d_istream->get();
+      checkRead();
     }
     else
     {
@@ -105,6 +114,7 @@ class Lexer
       d_bufferEnd = static_cast<size_t>(d_istream->gcount());
       if (d_bufferEnd == 0)
       {
+        checkRead();
         d_ch = EOF;
         d_bufferPos = 0;
       }
-- 
2.43.0


From ce8249fa36cb171472c33dc9ec95eb4781be9aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 33/54] fix: treat an application of an associative operator
 without nil to one argument as partial

---
 src/state.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index a645567..f22b0d7 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1079,6 +1079,12 @@ Expr State::mkApplyAttr(AppInfo* ai,
                         || ai->d_attrCons == Attr::LEFT_ASSOC_NS_NIL);
         bool isNil = (isNsNil || ai->d_attrCons == Attr::RIGHT_ASSOC_NIL
                       || ai->d_attrCons == Attr::LEFT_ASSOC_NIL);
+        // Without a nil terminator, an application to a single argument is
+        // not impacted by the attribute, i.e. it is a partial application.
+        if (!isNil && nchild == 2)
+        {
+          return Expr(mkExprInternal(Kind::APPLY, vchildren));
+        }
         size_t i = 1;
         ExprValue* curr = vchildren[isLeft ? i : nchild - i];
         std::vector<ExprValue*> cc{hd, nullptr, nullptr};
@@ -1569,11 +1575,11 @@ bool State::notifyStep(const std::string& name,
       }
       // TODO: do not special case this?
       Expr ap;
+      AppInfo* aic = getAppInfo(plCons.getValue());
+      Attr ck = aic == nullptr ? Attr::NONE : aic->d_attrCons;
       if (achildren.size()==1)
       {
         // the nil terminator if applied to empty list
-        AppInfo* aic = getAppInfo(plCons.getValue());
-        Attr ck = aic == nullptr ? Attr::NONE : aic->d_attrCons;
         if (isListNilAttr(ck))
         {
           ap = aic->d_attrConsTerm;
@@ -1588,6 +1594,12 @@ bool State::notifyStep(const std::string& name,
           return false;
         }
       }
+      else if (achildren.size() == 2
+               && (ck == Attr::LEFT_ASSOC || ck == Attr::RIGHT_ASSOC))
+      {
+        // a single premise, not a partial application
+        ap = achildren[1];
+      }
       else
       {
         ap = mkExpr(Kind::APPLY, achildren);
-- 
2.43.0


From b0a4813e9d7bda7a3df32a8886d267c8a4940b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 34/54] fix: reject declarations with more than one constructor
 attribute

---
 src/expr_parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 855f4f9..9651d03 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -1306,9 +1306,8 @@ void ExprParser::processAttributeMap(const AttrMap& attrs, Attr& ck, Expr& cons)
         {
           std::stringstream ss;
           ss << "Cannot set multiple constructor types ";
-          ss << "(" << ck << " and " << a.first << ")" << std::endl;
-          d_lex.warning(ss.str());
-          continue;
+          ss << "(" << ck << " and " << a.first << ")";
+          d_lex.parseError(ss.str());
         }
         // it specifies how to construct terms involving this term
         // if the constructor spec is non-ground, make a lambda
-- 
2.43.0


From 001216c41ac9fdb4377b696bf01c9484d50a6e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:46 +0000
Subject: [PATCH 35/54] fix: the hash of a term does not change when the term
 is deleted and rebuilt

---
 src/state.cpp | 2 ++
 src/state.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/state.cpp b/src/state.cpp
index f22b0d7..4217058 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1713,6 +1713,8 @@ size_t State::getHash(const ExprValue* e)
   d_hashCounter++;
   size_t ret = d_hashCounter;
   d_hashMap[e] = ret;
+  // keep the term, so that its hash does not change if it is constructed again
+  d_hashTerms.emplace_back(e);
   return ret;
 }
 
diff --git a/src/state.h b/src/state.h
index f2628e7..b1e0718 100644
--- a/src/state.h
+++ b/src/state.h
@@ -397,6 +397,8 @@ class State
   std::map<const ExprValue*, AppInfo> d_appData;
   /** Map from expressions to hash */
   std::map<const ExprValue*, size_t> d_hashMap;
+  /** The terms in the above map, which are never deleted */
+  std::vector<Expr> d_hashTerms;
   /** Mapping expressions to types */
   std::map<const ExprValue*, Expr> d_typeCache;
   /** Hash counter */
-- 
2.43.0


From 203c0025e15bdc0ac76da8f7c0e63e422794919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:38 +0000
Subject: [PATCH 36/54] fix: evaluate ground program bodies that apply forward
 declared programs

---
 src/type_checker.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index e5a3122..441beba 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -716,10 +716,14 @@ Expr TypeChecker::evaluate(ExprValue* e, Ctx& ctx)
                 // see if we evaluate
                 evaluated = evaluateProgramInternal(cchildren, newCtx);
                 //std::cout << "Evaluate prog returned " << evaluated << std::endl;
-                if (evaluated.isNull() || evaluated.isGround() || newCtx.empty())
+                if (evaluated.isNull()
+                    || (!evaluated.isEvaluatable()
+                        && (evaluated.isGround() || newCtx.empty())))
                 {
                   // if the evaluation can be shortcircuited, don't need to
-                  // push a context
+                  // push a context. Note that a ground body may still require
+                  // evaluation, e.g. if it applies a program that was only
+                  // forward declared when the body was parsed.
                   // store the base evaluation (if applicable)
                   et->d_data = evaluated.getValue();
                 }
-- 
2.43.0


From 44d3bf27a249d8db1ffd1328e3bf0528c8422e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 37/54] fix: do not truncate tokens at null characters

---
 src/lexer.cpp | 5 +++--
 src/lexer.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 062b230..5d4a100 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -179,10 +179,11 @@ bool Lexer::eatTokenChoice(Token t, Token f)
 }
 
 
-const char* Lexer::tokenStr() const
+std::string Lexer::tokenStr() const
 {
   Assert(!d_token.empty() && d_token.back() == 0);
-  return d_token.data();
+  // note that the token itself may contain null characters
+  return std::string(d_token.data(), d_token.size() - 1);
 }
 
 Token Lexer::nextTokenInternal()
diff --git a/src/lexer.h b/src/lexer.h
index 737ce2a..888d64e 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -62,7 +62,7 @@ class Lexer
    * String corresponding to the last token (old top of stack). This is only
    * valid if no tokens are currently peeked.
    */
-  const char* tokenStr() const;
+  std::string tokenStr() const;
   /** Advance to the next token (pop from stack) */
   Token nextToken();
   /** Add a token back into the stream (push to stack) */
-- 
2.43.0


From e4c49ab3e39105b4fdd20baa4b77bb0915338f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 38/54] fix: do not print a builtin operator in the error that
 it has no arguments

---
 src/expr_parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 9651d03..7ae1cbc 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -247,9 +247,7 @@ Expr ExprParser::parseExpr()
         if (sf.d_args.size() == 1
             && sf.d_args[0].getKind() == Kind::BUILTIN_CONST)
         {
-          std::stringstream ss;
-          ss << "Expected arguments when applying " << sf.d_args[0];
-          d_lex.parseError(ss.str());
+          d_lex.parseError("Expected arguments when applying a builtin operator");
         }
         // Construct the application term specified by tstack.back()
         ret = d_state.mkExpr(Kind::APPLY, sf.d_args);
-- 
2.43.0


From 605e6b2cc17096409f953527dde06ecaee4d11b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 39/54] fix: do not use the attribute of an operator whose
 constructor term is not known

---
 src/state.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index 4217058..fe0ec4e 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1167,8 +1167,12 @@ Expr State::mkApplyAttr(AppInfo* ai,
     break;
     case Attr::CHAINABLE:
     {
+      if (consTerm.isNull())
+      {
+        // failed to infer the operator to chain with, which was warned about
+        break;
+      }
       std::vector<Expr> cchildren;
-      Assert(!consTerm.isNull());
       cchildren.push_back(consTerm);
       std::vector<ExprValue*> cc{hd, nullptr, nullptr};
       for (size_t i = 1, nchild = vchildren.size() - 1; i < nchild; i++)
@@ -1188,8 +1192,12 @@ Expr State::mkApplyAttr(AppInfo* ai,
     break;
     case Attr::PAIRWISE:
     {
+      if (consTerm.isNull())
+      {
+        // failed to infer the operator to combine with, which was warned about
+        break;
+      }
       std::vector<Expr> cchildren;
-      Assert(!consTerm.isNull());
       cchildren.push_back(consTerm);
       std::vector<ExprValue*> cc{hd, nullptr, nullptr};
       for (size_t i = 1, nchild = vchildren.size(); i < nchild - 1; i++)
@@ -1220,10 +1228,14 @@ Expr State::mkApplyAttr(AppInfo* ai,
       {
         argList = Expr(vchildren[1]);
       }
+      else if (consTerm.isNull())
+      {
+        // failed to infer the list operator, which was warned about
+        break;
+      }
       else
       {
         std::vector<Expr> cchildren;
-        Assert(!consTerm.isNull());
         cchildren.push_back(consTerm);
         for (size_t i = 1, nchild = vchildren.size(); i < nchild; i++)
         {
-- 
2.43.0


From a138d311bfe143bd8d2f81b48a496a3725c76b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 40/54] fix: do not evaluate operators that are applied to the
 wrong number of arguments

---
 src/type_checker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/type_checker.cpp b/src/type_checker.cpp
index 441beba..3b2a374 100644
--- a/src/type_checker.cpp
+++ b/src/type_checker.cpp
@@ -1078,6 +1078,11 @@ Expr TypeChecker::evaluateLiteralOpInternal(
 {
   Assert (!args.empty());
   Trace("type_checker") << "EVALUATE-LIT " << k << " " << args << std::endl;
+  // does not evaluate if the arity is wrong
+  if (!checkArity(k, args.size()))
+  {
+    return d_null;
+  }
   // special cases: ITE may evaluate if non-ground
   switch (k)
   {
-- 
2.43.0


From 84282d8f938f67a9a937b9ed271ae9097e8b352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 41/54] fix: do not swallow the character after a keyword of
 one letter

---
 src/lexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 5d4a100..93b1355 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -293,7 +293,8 @@ Token Lexer::computeNextToken()
       {
         parseError("Error expected symbol following :");
       }
-      parseNonEmptyCharList(CharacterClass::SYMBOL);
+      // the symbol may consist of a single character
+      parseCharList(CharacterClass::SYMBOL);
       return Token::KEYWORD;
     default:
       if (isCharacterClass(ch, CharacterClass::DECIMAL_DIGIT))
-- 
2.43.0


From f57749174dd0d68909af4f968efe20b063505382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 42/54] fix: print partial applications so that they are not
 desugared when read

---
 src/expr.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 62fa3ac..11376b6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -403,10 +403,22 @@ void Expr::printDebugInternal(const Expr& e,
           }
           // otherwise printed as ordinary app
         }
-        else if (k != Kind::APPLY || (*cur.first)[0]->getNumChildren() > 0)
+        else if (k != Kind::APPLY)
         {
           os << kindToTerm(k) << " ";
         }
+        else
+        {
+          // The head must be a symbol unless we use "_". Moreover, we must use
+          // "_" for (partial) applications of n-ary operators, which otherwise
+          // would be desugared, e.g. (or a) is read as (_ (_ or a) false).
+          ExprValue* hd = (*cur.first)[0];
+          if (!getPrintChildren(hd).empty()
+              || isNAryAttr(ExprValue::d_state->getConstructorKind(hd)))
+          {
+            os << kindToTerm(k) << " ";
+          }
+        }
         visit.back().second++;
         visit.emplace_back((*cur.first)[0], 0);
       }
-- 
2.43.0


From 037602dbce9254629074b6470552b11f8cb57774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 43/54] fix: quote printed symbols that would be read as
 literals or reserved words

---
 src/expr.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 11376b6..be7b56b 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -206,20 +206,23 @@ std::string quoteSymbol(const std::string& s)
   {
     return "||";
   }
-  // special case: if an "eo::" symbol, it is not quoted
-  if (s.compare(0, 4, "eo::") == 0)
-  {
-    return s;
-  }
-
   // this is the set of SMT-LIBv2 permitted characters in "simple" (non-quoted)
-  // symbols
+  // symbols. As a special case, an "eo::" symbol is not quoted.
+  size_t start = s.compare(0, 4, "eo::") == 0 ? 4 : 0;
+  // words that are not read as symbols
+  static const std::set<std::string> reserved{
+      "!", "Bool", "Type", "eo::define", "let", "par"};
   if (s.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
-                          "0123456789~!@$%^&*_-+=<>.?/")
+                          "0123456789~!@$%^&*_-+=<>.?/",
+                          start)
           == std::string::npos
-      && (s[0] < '0' || s[0] > '9'))
+      && (s[0] < '0' || s[0] > '9') && reserved.find(s) == reserved.end())
   {
-    return s;
+    // a negative literal is not read as a symbol
+    if (s[0] != '-' || s.size() < 2 || s[1] < '0' || s[1] > '9')
+    {
+      return s;
+    }
   }
   std::string tmp = s;
   if (s.front() == '|' && s.back() == '|' && s.length() > 1)
-- 
2.43.0


From 9d31c6392442ccbd43fb1d397b7f09d7c1f7a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 44/54] fix: do not change a backslash in a printed symbol

---
 src/expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index be7b56b..15b98a1 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -232,9 +232,9 @@ std::string quoteSymbol(const std::string& s)
     tmp = s.substr(1, s.length() - 2);
   }
 
-  // must quote the symbol, but it cannot contain | or \, we turn those into _
+  // must quote the symbol, but it cannot contain |, we turn those into _
   size_t p;
-  while ((p = tmp.find_first_of("\\|")) != std::string::npos)
+  while ((p = tmp.find('|')) != std::string::npos)
   {
     tmp = tmp.replace(p, 1, "_");
   }
-- 
2.43.0


From fbf88be1290b6a32d385791894b0f6718e51adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 45/54] fix: print a quotation mark in the name of a variable
 as its escape sequence

---
 src/expr.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 15b98a1..930588e 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -241,6 +241,20 @@ std::string quoteSymbol(const std::string& s)
   return "|" + tmp + "|";
 }
 
+/**
+ * Print the contents of a string as a string literal
+ */
+void printString(const std::string& s, std::ostream& os)
+{
+  os << "\"";
+  for (char ch : s)
+  {
+    // "" denotes the escape sequence for "
+    os << (ch == '"' ? "\"\"" : std::string(1, ch));
+  }
+  os << "\"";
+}
+
 std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
 {
   std::vector<Expr> ret;
@@ -351,13 +365,7 @@ void Expr::printDebugInternal(const Expr& e,
               }
               break;
             case Kind::STRING:
-              os << "\"";
-              for (char ch : l->toString())
-              {
-                // "" denotes the escape sequence for "
-                os << (ch == '"' ? "\"\"" : std::string(1, ch));
-              }
-              os << "\"";
+              printString(l->toString(), os);
               break;
             case Kind::DECIMAL:
               // currently don't have a way to print decimals natively, just
@@ -389,7 +397,9 @@ void Expr::printDebugInternal(const Expr& e,
         Expr tt(ExprValue::d_state->lookupType(cur.first));
         const Literal* l = cur.first->asLiteral();
         Assert(l != nullptr);
-        os << "(eo::var \"" << l->toString() << "\" ";
+        os << "(eo::var ";
+        printString(l->toString(), os);
+        os << " ";
         visit.back().second++;
         visit.emplace_back(tt.getValue(), 0);
       }
-- 
2.43.0


From 485c005a2e2ed63cc0b09c472e4a3bc8bf2ff46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 46/54] fix: do not capture a declared symbol when sharing
 subterms in printed terms

---
 src/expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 930588e..5de221b 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -317,6 +317,11 @@ std::map<const ExprValue*, size_t> Expr::computeLetBinding(
     const ExprValue* lv = l.getValue();
     if (lcount[lv] > 1)
     {
+      // do not use a name that may occur in the term
+      while (!ExprValue::d_state->getVar("_v" + std::to_string(idc)).isNull())
+      {
+        idc++;
+      }
       ll.push_back(l);
       lbind[lv] = idc;
       idc++;
-- 
2.43.0


From 5ad31b34e378f697f175996ee92fe957be275f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 47/54] fix: print operators with several opaque arguments so
 that they can be read

---
 src/expr.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 5de221b..de0b8c1 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -266,6 +266,15 @@ std::vector<Expr> Expr::getPrintChildren(const ExprValue* e)
     ret.push_back(tt);
     return ret;
   }
+  // special case: an operator applied to several opaque arguments is printed
+  // as a single application, since it cannot be partially applied
+  if (e->getKind() == Kind::APPLY_OPAQUE
+      && (*e)[0]->getKind() == Kind::APPLY_OPAQUE)
+  {
+    ret = getPrintChildren((*e)[0]);
+    ret.emplace_back((*e)[1]);
+    return ret;
+  }
   for (size_t i = 0, nchildren = e->getNumChildren(); i < nchildren; i++)
   {
     ret.emplace_back((*e)[i]);
@@ -438,20 +447,23 @@ void Expr::printDebugInternal(const Expr& e,
           }
         }
         visit.back().second++;
-        visit.emplace_back((*cur.first)[0], 0);
+        visit.emplace_back(printChildren[0].getValue(), 0);
       }
     }
-    else if (cur.second >= cur.first->getNumChildren())
-    {
-      os << ")";
-      visit.pop_back();
-    }
     else
     {
-      Assert (cur.second<cur.first->getNumChildren());
-      os << " ";
-      visit.back().second++;
-      visit.emplace_back((*cur.first)[cur.second], 0);
+      std::vector<Expr> printChildren = getPrintChildren(cur.first);
+      if (cur.second >= printChildren.size())
+      {
+        os << ")";
+        visit.pop_back();
+      }
+      else
+      {
+        os << " ";
+        visit.back().second++;
+        visit.emplace_back(printChildren[cur.second].getValue(), 0);
+      }
     }
   } while (!visit.empty());
 }
-- 
2.43.0


From dd8c03b053132ab9078f1511155300a8af48ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 48/54] fix: expand macros and evaluate programs that are
 chosen as overloads

---
 src/state.cpp | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index fe0ec4e..cf9485a 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -733,11 +733,30 @@ Expr State::mkExpr(Kind k, const std::vector<Expr>& children)
         if (!ret.isNull())
         {
           Trace("overload") << "...found overload " << ret << std::endl;
-          return ret;
+          ExprValue* rhd = ret.getValue();
+          while (rhd->getKind() == Kind::APPLY)
+          {
+            rhd = (*rhd)[0];
+          }
+          if (rhd->getKind() != Kind::LAMBDA
+              && rhd->getKind() != Kind::PROGRAM_CONST)
+          {
+            return ret;
+          }
+          // macros and programs are applied below
+          hd = rhd;
+          vchildren[0] = rhd;
+          ai = nullptr;
+        }
+        else
+        {
+          Warning() << "No overload found when constructing application "
+                    << children << std::endl;
         }
-        Warning() << "No overload found when constructing application "
-                  << children << std::endl;
       }
+    }
+    if (ai != nullptr)
+    {
       // Compute the "constructor term" for the operator, which may involve
       // type inference. We store the constructor term in consTerm and operator
       // in hdTerm, where notice hdTerm is of kind PARAMETERIZED if consTerm
@@ -1914,8 +1933,10 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     }
     if (x.isNull())
     {
-      x = Expr(vchildren.size() > 2 ? mkApplyInternal(vchildren)
-                                    : mkExprInternal(Kind::APPLY, vchildren));
+      // note that applications of programs are not curried
+      x = Expr(vchildren.size() > 2 && hd->getKind() != Kind::PROGRAM_CONST
+                   ? mkApplyInternal(vchildren)
+                   : mkExprInternal(Kind::APPLY, vchildren));
     }
     Expr t = d_tc.getType(x);
 
-- 
2.43.0


From 570250f5a2270f5e1f15d2924130cc80c82a0f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 49/54] fix: include a file only once when it is reached via
 different paths

---
 src/state.cpp           |  9 ++-------
 src/util/filesystem.cpp | 21 +++++++++++++++++++++
 src/util/filesystem.h   |  7 +++++++
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/state.cpp b/src/state.cpp
index cf9485a..7dd2c22 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -397,13 +397,8 @@ bool State::includeFile(const std::string& s, bool isSignature, bool isReference
 
 bool State::markIncluded(const Filepath& s)
 {
-  std::set<Filepath>::iterator it = d_includes.find(s);
-  if (it != d_includes.end())
-  {
-    return false;
-  }
-  d_includes.insert(s);
-  return true;
+  // the same file may be included via different paths
+  return d_includes.insert(s.realPath()).second;
 }
 
 void State::markDeleted(ExprValue* e)
diff --git a/src/util/filesystem.cpp b/src/util/filesystem.cpp
index b9de792..82b56db 100644
--- a/src/util/filesystem.cpp
+++ b/src/util/filesystem.cpp
@@ -8,6 +8,7 @@
  ******************************************************************************/
 #include "util/filesystem.h"
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <vector>
@@ -185,6 +186,26 @@ void Filepath::makeCanonical()
 #endif
 }
 
+Filepath Filepath::realPath() const
+{
+#ifndef USE_CPP_FILESYSTEM
+  char* resolved = realpath(rawPath.c_str(), nullptr);
+  if (resolved == nullptr)
+  {
+    return *this;
+  }
+  Filepath ret;
+  ret.rawPath = resolved;
+  free(resolved);
+  return ret;
+#else
+  // makeCanonical resolves symbolic links
+  Filepath ret(rawPath);
+  ret.makeCanonical();
+  return ret;
+#endif
+}
+
 Filepath Filepath::parentPath() const
 {
 #ifndef USE_CPP_FILESYSTEM
diff --git a/src/util/filesystem.h b/src/util/filesystem.h
index 6a10fdb..7f421ea 100644
--- a/src/util/filesystem.h
+++ b/src/util/filesystem.h
@@ -73,6 +73,13 @@ class Filepath
    */
   void makeCanonical();
 
+  /**
+   * Returns the path with all symbolic links resolved, which is the same for
+   * all paths of the same file. If the file does not exist, this path itself
+   * is returned.
+   */
+  Filepath realPath() const;
+
   /**
    * @return The current path, but with the filename cut off.
    */
-- 
2.43.0


From e6093ac636f9b860dc11699a5519783683e74976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 50/54] fix: keep the type of a parametric datatype declared by
 declare-datatype

---
 src/expr_parser.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 7ae1cbc..65812b4 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -761,25 +761,15 @@ bool ExprParser::parseDatatypesDef(
     }
     tok = d_lex.nextToken();
     bool pushedScope = false;
+    std::vector<std::string> symList;
     if (tok == Token::PAR)
     {
       pushedScope = true;
-      d_state.pushScope();
-      std::vector<std::string> symList = parseSymbolList();
+      symList = parseSymbolList();
       if (symList.empty())
       {
         d_lex.parseError("Expected non-empty parameter list");
       }
-      // parameters are type variables
-      for (const std::string& sym : symList)
-      {
-        Expr t = d_state.mkSymbol(Kind::PARAM, sym, d_state.mkType());
-        if (!d_state.bind(sym, t))
-        {
-          return false;
-        }
-        params.push_back(t);
-      }
     }
     else
     {
@@ -789,8 +779,9 @@ bool ExprParser::parseDatatypesDef(
     }
     if (i >= arities.size())
     {
-      // if the arity is not yet fixed, bind it now
-      Expr t = d_state.mkTypeConstant(dnames[i], params.size());
+      // if the arity is not yet fixed, bind it now, outside of the scope of
+      // the parameters
+      Expr t = d_state.mkTypeConstant(dnames[i], symList.size());
       // bind
       if (!d_state.bind(dnames[i], t))
       {
@@ -798,12 +789,26 @@ bool ExprParser::parseDatatypesDef(
       }
       dtlist.push_back(t);
     }
-    else if (arities[i] >= 0 && params.size() != arities[i])
+    else if (arities[i] >= 0 && symList.size() != arities[i])
     {
       // if the arity was fixed by prelude and is not equal to the number of
       // parameters
       d_lex.parseError("Wrong number of parameters for datatype.");
     }
+    if (pushedScope)
+    {
+      d_state.pushScope();
+      // parameters are type variables
+      for (const std::string& sym : symList)
+      {
+        Expr t = d_state.mkSymbol(Kind::PARAM, sym, d_state.mkType());
+        if (!d_state.bind(sym, t))
+        {
+          return false;
+        }
+        params.push_back(t);
+      }
+    }
     // read constructor definition list, populate into the current datatype
     Expr& dt = dtlist[i];
     Expr dti = dt;
-- 
2.43.0


From c7d1497bd6d245047883f37deb002706a93f0a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 51/54] fix: reject datatype blocks with fewer bodies than
 datatypes

---
 src/expr_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index 65812b4..adef1ed 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -837,7 +837,7 @@ bool ExprParser::parseDatatypesDef(
     tok = d_lex.nextToken();
     i++;
   }
-  if (dtlist.size() != dnames.size())
+  if (i != dnames.size())
   {
     d_lex.unexpectedTokenError(tok, "Wrong number of datatypes provided.");
   }
-- 
2.43.0


From da55907a1ad4763e24835c61733e1ad24c545500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 52/54] fix: infer the nil terminator of the overload that is
 tried

---
 src/state.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.cpp b/src/state.cpp
index 7dd2c22..468aff3 100644
--- a/src/state.cpp
+++ b/src/state.cpp
@@ -1923,7 +1923,10 @@ Expr State::getOverloadInternal(const std::vector<Expr>& overloads,
     if (ai != nullptr)
     {
       Trace("overload") << "...has property " << ai->d_attrCons << std::endl;
-      Expr consTerm = d_tc.computeConstructorTermInternal(ai, children);
+      // the constructor term may have to be inferred for this overload
+      std::vector<Expr> ochildren = children;
+      ochildren[0] = hde;
+      Expr consTerm = d_tc.computeConstructorTermInternal(ai, ochildren);
       x = mkApplyAttr(ai, vchildren, consTerm);
     }
     if (x.isNull())
-- 
2.43.0


From 1e26589877708c1aae76498c1d0cb6be9da911c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 53/54] fix: reject steps with unknown or repeated attributes

---
 src/cmd_parser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cmd_parser.cpp b/src/cmd_parser.cpp
index b385543..7daa8b1 100644
--- a/src/cmd_parser.cpp
+++ b/src/cmd_parser.cpp
@@ -904,24 +904,31 @@ bool CmdParser::parseNextCommand()
         RuleStat::start(d_sts);
       }
       // parse premises, optionally
-      if (d_lex.peekToken()==Token::KEYWORD)
+      bool hasKeyword = (d_lex.peekToken() == Token::KEYWORD);
+      if (hasKeyword)
       {
         keyword = d_eparser.parseKeyword();
       }
       std::vector<Expr> premises;
-      if (keyword=="premises")
+      if (hasKeyword && keyword == "premises")
       {
         premises = d_eparser.parseExprList();
-        if (d_lex.peekToken()==Token::KEYWORD)
+        hasKeyword = (d_lex.peekToken() == Token::KEYWORD);
+        if (hasKeyword)
         {
           keyword = d_eparser.parseKeyword();
         }
       }
       // parse args, optionally
       std::vector<Expr> args;
-      if (keyword=="args")
+      if (hasKeyword && keyword == "args")
       {
         args = d_eparser.parseExprList();
+        hasKeyword = false;
+      }
+      if (hasKeyword)
+      {
+        d_lex.parseError("Unexpected attribute :" + keyword + " in step");
       }
       // compute the conclusion of the proof rule
       Expr concTerm;
-- 
2.43.0


From be6f3b0a9056e53c8e09d07378a685d0b84e7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 54/54] fix: reject annotated terms without attributes

---
 src/expr_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr_parser.cpp b/src/expr_parser.cpp
index adef1ed..645c19e 100644
--- a/src/expr_parser.cpp
+++ b/src/expr_parser.cpp
@@ -449,6 +449,11 @@ Expr ExprParser::parseExpr()
           // NOTE parsing attributes may trigger recursive calls to this
           // method.
           parseAttributeList(Kind::NONE, ret, attrs);
+          // an annotation has at least one attribute
+          if (attrs.empty())
+          {
+            d_lex.parseError("Expected an attribute in annotated term");
+          }
           // process the attributes
           for (std::pair<const Attr, std::vector<Expr>>& a : attrs)
           {
-- 
2.43.0

