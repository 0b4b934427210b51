From e4263d06d66c8b71a20dc628720d4224152c774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 01/85] fix: give '/', '!' and '?' their Nix precedence

---
 libnixf/src/Parse/ParseOp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..0e27afb 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,10 +57,12 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
+  case tok_question: // %nonassoc '?'
+    return {20, 21};
   // % op_negate
   default:
     __builtin_unreachable();
@@ -69,8 +71,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
-  case tok_op_not:
-    return 11;
+  case tok_op_not: // between %right // and %left + -
+    return 13;
   case tok_op_negate:
     return 100;
   default:
@@ -140,6 +142,8 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > getBP(tok_question).first)
+        return Prefix;
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 66b1afd78672ef14d8306526c654a9a1ab99d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 02/85] fix: do not read past the end of a string ending in a
 backslash

---
 libnixf/src/Parse/Lexer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..590e1c6 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,8 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    // There may be nothing to escape, at the end of the file.
+    consume(eof(Cur.Offset + 1) ? 1 : 2);
     Tok = tok_string_escape;
     break;
   case '$':
@@ -439,8 +440,9 @@ Token Lexer::lexIndString() {
     if (consumePrefix("$") || consumePrefix("'")) {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
-      // ''\ escapes any character
-      consume();
+      // ''\ escapes any character, if there is one
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From 5344f93bdbf382904b31dca7b6ed3020ba4ecf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 03/85] fix: parse paths with adjacent or trailing
 interpolations

---
 libnixf/src/Parse/ParseStrings.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..7ff3f95 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,23 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    // Fragments and interpolations may follow each other in any order,
+    // e.g. a/${x}${y}b
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      if (Current.kind() == tok_path_fragment) {
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+      } else if (Current.kind() == tok_dollar_curly) {
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
-        continue;
+      } else {
+        assert(Current.kind() == tok_path_end && "should be path_end or ${");
+        break;
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+    }
+    assert(LastToken && "LastToken should be set after a path");
+    End = LastToken->rCur();
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From 045958c74e5b38cd3cc46e86ecf07c971fc0b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 04/85] fix: accept quoted and dynamic names in a plain inherit

---
 libnixf/src/Sema/SemaActions.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..3963fa1 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -337,9 +337,17 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // Dynamic names are rejected later, in lowerInheritName.
+    if (!Name->isStatic())
+      return {nullptr, Attribute::AttributeKind::Inherit};
+    // The name may be quoted: inherit "foo";
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From d119b0c69d248d9c9c1af6975c0f853231cc1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 05/85] fix: an empty string is a literal

---
 libnixf/include/nixf/Basic/Nodes/Simple.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Simple.h b/libnixf/include/nixf/Basic/Nodes/Simple.h
index c8cb3ef..d20bb33 100644
--- a/libnixf/include/nixf/Basic/Nodes/Simple.h
+++ b/libnixf/include/nixf/Basic/Nodes/Simple.h
@@ -94,13 +94,16 @@ public:
   };
 
   [[nodiscard]] bool isLiteral() const {
-    return Fragments.size() == 1 &&
-           Fragments[0].kind() == InterpolablePart::SPK_Escaped;
+    // No fragment at all is the empty string.
+    return Fragments.empty() ||
+           (Fragments.size() == 1 &&
+            Fragments[0].kind() == InterpolablePart::SPK_Escaped);
   }
 
   [[nodiscard]] const std::string &literal() const {
     assert(isLiteral() && "must be a literal");
-    return Fragments[0].escaped();
+    static const std::string Empty;
+    return Fragments.empty() ? Empty : Fragments[0].escaped();
   }
 
   [[nodiscard]] ChildVector children() const override {
-- 
2.43.0


From c3def060d868ed11758dc71e59725e8439121956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 06/85] fix: decode the escapes of indented strings

---
 libnixf/src/Parse/ParseStrings.cpp | 42 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 7ff3f95..e10b391 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -78,22 +78,32 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
       // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
-      if (EscapeSeq.size() >= 2) {
-        char Escaped = EscapeSeq[1];
-        switch (Escaped) {
-        case 'n':
-          Unescaped = "\n";
-          break;
-        case 'r':
-          Unescaped = "\r";
-          break;
-        case 't':
-          Unescaped = "\t";
-          break;
-        default:
-          // For \\, \", \$, and any other escape, just use the character itself
-          Unescaped = Escaped;
-          break;
+      if (EscapeSeq == "''$") {
+        Unescaped = "$";
+      } else if (EscapeSeq == "'''") {
+        Unescaped = "''";
+      } else {
+        // Indented strings: ''\n, ''\r, ...
+        if (EscapeSeq.starts_with("''"))
+          EscapeSeq.remove_prefix(2);
+        if (EscapeSeq.size() >= 2) {
+          char Escaped = EscapeSeq[1];
+          switch (Escaped) {
+          case 'n':
+            Unescaped = "\n";
+            break;
+          case 'r':
+            Unescaped = "\r";
+            break;
+          case 't':
+            Unescaped = "\t";
+            break;
+          default:
+            // For \\, \", \$, and any other escape, just use the character
+            // itself
+            Unescaped = Escaped;
+            break;
+          }
         }
       }
       if (!Unescaped.empty())
-- 
2.43.0


From c3421ab385303edfd0e32444a7a6fe51558e6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 07/85] fix: pair up dollars in strings from the left

---
 libnixf/src/Parse/Lexer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 590e1c6..62b6758 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -419,7 +419,8 @@ Token Lexer::lexString() {
         break;
       // double-$, or \$, escapes ${.
       // We will handle escaping on Sema
-      if (consumePrefix("$${"))
+      // Dollars pair up from the left: $$${ is $$, then an interpolation.
+      if (consumePrefix("$$"))
         continue;
       // Encountered a string interpolation, stop here
       if (peekPrefix("${"))
@@ -461,7 +462,8 @@ Token Lexer::lexIndString() {
       break;
     // double-$, or \$, escapes ${.
     // We will handle escaping on Sema
-    if (consumePrefix("$${"))
+    // Dollars pair up from the left: $$${ is $$, then an interpolation.
+    if (consumePrefix("$$"))
       continue;
     // Encountered a string interpolation, stop here
     if (peekPrefix("${"))
-- 
2.43.0


From 418192eead56eb2529ac9158fa2b83b896fcef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 08/85] fix: read floats in double precision

---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index c5ceebf..a7fbf57 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_float: {
     consume();
     // libc++ doesn't support std::from_chars for floating point numbers.
-    NixFloat N = std::strtof(std::string(Tok.view()).c_str(), nullptr);
+    NixFloat N = std::strtod(std::string(Tok.view()).c_str(), nullptr);
     return std::make_shared<ExprFloat>(Tok.range(), N);
   }
   case tok_spath: {
-- 
2.43.0


From ba61e082102a6752c6f85f66eb5a39475d104587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 09/85] fix: end line comments at a carriage return, reject
 <a/>

---
 libnixf/src/Parse/Lexer.cpp | 3 +++
 libnixf/src/Parse/Lexer.h   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 62b6758..8a50d48 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -306,6 +306,9 @@ bool Lexer::consumeSPath() {
             consume();
           continue;
         }
+        // A slash must be followed by a path char
+        Cur = Saved;
+        return false;
       }
       break;
     }
diff --git a/libnixf/src/Parse/Lexer.h b/libnixf/src/Parse/Lexer.h
index fbefffd..40371db 100644
--- a/libnixf/src/Parse/Lexer.h
+++ b/libnixf/src/Parse/Lexer.h
@@ -64,7 +64,7 @@ class Lexer {
 
   [[nodiscard]] bool eof() const { return eof(Cur.Offset); }
 
-  bool consumeEOL() { return consumePrefix("\r\n") || consumePrefix("\n"); }
+  bool consumeEOL() { return consumePrefix("\r\n") || consumeOneOf("\r\n"); }
 
   bool lexFloatExp();
 
-- 
2.43.0


From adaf4f417ee09420613ab5fee6d8bc9349e3fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 10/85] fix: accept floats without leading digits

---
 libnixf/src/Parse/Lexer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 8a50d48..7e19ccf 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -192,7 +192,8 @@ void Lexer::lexNumbers() {
   // and issues a warning if it has leading zeros
   // [0-9]+
   auto Ch = consumeManyDigits();
-  assert(Ch.has_value() && "lexNumbers() must be called with a digit start");
+  assert((Ch.has_value() || peek() == '.') &&
+         "lexNumbers() must be called with a digit, or with .[0-9]");
   if (peek() == '.') {
     // float
     Tok = tok_float;
@@ -200,6 +201,9 @@ void Lexer::lexNumbers() {
     // [0-9]*
     consumeManyDigits();
     lexFloatExp();
+    // No digits before the dot, e.g. ".5"
+    if (!Ch)
+      return;
     // Checking that if the float token has leading zeros.
     std::string_view Prefix = Src.substr(Ch->lCur().Offset, 2);
     if (Prefix.starts_with("0") && Prefix != "0.")
@@ -506,7 +510,8 @@ Token Lexer::lex() {
     }
   }
 
-  if (std::isdigit(*Ch)) {
+  if (std::isdigit(*Ch) || (*Ch == '.' && Cur.Offset + 1 < Src.length() &&
+                            std::isdigit(Src[Cur.Offset + 1]))) {
     lexNumbers();
     return finishToken();
   }
-- 
2.43.0


From 05deb4810d29048f8ec4c1c20c4a67af87b79e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 11/85] fix: start paths at '~' only at their beginning, split
 '|||>'

---
 libnixf/src/Parse/Lexer.cpp | 6 ++++--
 libnixf/src/Parse/Lexer.h   | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 7e19ccf..47a3e9c 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -363,7 +363,8 @@ Token Lexer::lexPath() {
     return finishToken();
   }
 
-  if (peekPrefix("~/")) {
+  // The '~' marker may only start a path, "/a~/b" is "/a" and then "~/b".
+  if (Cur.Offset == PathStart && peekPrefix("~/")) {
     Tok = tok_path_fragment;
     consume(2);
     while (!eof() && (isPathChar(peekUnwrap()) || peekUnwrap() == '/')) {
@@ -497,6 +498,7 @@ Token Lexer::lex() {
   if (isPathChar(*Ch) || *Ch == '/' || *Ch == '~') {
     if (consumePathStart()) {
       // Form a concret token, this is a path part.
+      PathStart = TokStartPtr.Offset;
       Tok = tok_path_fragment;
       return finishToken();
     }
@@ -571,7 +573,7 @@ Token Lexer::lex() {
   case '|':
     if (consumePrefix("||"))
       Tok = tok_op_or;
-    if (consumePrefix("|>"))
+    else if (consumePrefix("|>"))
       Tok = tok_op_pipe_into;
     break;
   case '!':
diff --git a/libnixf/src/Parse/Lexer.h b/libnixf/src/Parse/Lexer.h
index 40371db..b83354c 100644
--- a/libnixf/src/Parse/Lexer.h
+++ b/libnixf/src/Parse/Lexer.h
@@ -38,6 +38,9 @@ class Lexer {
     Cur.Offset += N;
   }
 
+  // Where the path being lexed begins.
+  std::optional<std::size_t> PathStart;
+
   // token recorder
   LexerCursor TokStartPtr;
   tok::TokenKind Tok;
-- 
2.43.0


From 7dec4fab492c56126777f788282be011e186f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 12/85] fix: a name written ${"foo"} is static

---
 libnixf/include/nixf/Basic/Nodes/Attrs.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Attrs.h b/libnixf/include/nixf/Basic/Nodes/Attrs.h
index 4a39b01..639de2d 100644
--- a/libnixf/include/nixf/Basic/Nodes/Attrs.h
+++ b/libnixf/include/nixf/Basic/Nodes/Attrs.h
@@ -17,6 +17,17 @@ private:
   const std::shared_ptr<ExprString> String;
   const std::shared_ptr<Interpolation> Interp;
 
+  /// \brief The string of `${"foo"}`, which is the same name as `"foo"`.
+  [[nodiscard]] const ExprString *literalInterp() const {
+    const Expr *E = Interp->expr();
+    if (!E || E->kind() != NK_ExprString)
+      return nullptr;
+    const auto &Str = static_cast<const ExprString &>(*E);
+    // Leave indented strings alone, their indentation is not stripped here.
+    bool Indented = Str.parts().lCur().offset() != Str.lCur().offset() + 1;
+    return Str.isLiteral() && !Indented ? &Str : nullptr;
+  }
+
 public:
   [[nodiscard]] AttrNameKind kind() const { return Kind; }
 
@@ -41,7 +52,7 @@ public:
     if (Kind == ANK_ID)
       return true;
     if (Kind == ANK_Interpolation)
-      return false;
+      return literalInterp() != nullptr;
 
     assert(Kind == ANK_String);
     return string().isLiteral();
@@ -51,6 +62,8 @@ public:
     assert(isStatic() && "must be static");
     if (Kind == ANK_ID)
       return id()->name();
+    if (Kind == ANK_Interpolation)
+      return literalInterp()->literal();
     assert(Kind == ANK_String);
     return string().literal();
   }
-- 
2.43.0


From d83f52638c310e126bbc045b0d7d37643a32f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 13/85] fix: parentheses do not keep attribute sets from
 merging

---
 libnixf/src/Sema/SemaActions.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 3963fa1..6346567 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -12,6 +12,19 @@
 
 namespace nixf {
 
+namespace {
+
+/// \brief The attrset \p E denotes, parentheses do not matter.
+ExprAttrs *attrsetOf(Expr *E) {
+  while (E && E->kind() == Node::NK_ExprParen)
+    E = const_cast<Expr *>(static_cast<const ExprParen *>(E)->expr());
+  if (!E || E->kind() != Node::NK_ExprAttrs)
+    return nullptr;
+  return static_cast<ExprAttrs *>(E);
+}
+
+} // namespace
+
 void Sema::dupAttr(std::string Name, LexerCursorRange Range,
                    LexerCursorRange Prev) {
   auto &Diag = Diags.emplace_back(Diagnostic::DK_DuplicatedAttrName, Range);
@@ -83,11 +96,10 @@ void Sema::insertAttr(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
   std::string StaticName = Name->staticName();
   if (auto Nested = Attrs.find(StaticName); Nested != Attrs.end()) {
     const auto &[K, V] = *Nested;
-    if (V.value() && V.value()->kind() == Node::NK_ExprAttrs && E &&
-        E->kind() == Node::NK_ExprAttrs) {
+    auto *XAttrSet = attrsetOf(V.value());
+    auto *YAttrSet = attrsetOf(E.get());
+    if (XAttrSet && YAttrSet) {
       // If this is also an attrset, we want to merge them.
-      auto *XAttrSet = static_cast<ExprAttrs *>(V.value());
-      auto *YAttrSet = static_cast<ExprAttrs *>(E.get());
       checkAttrRecursiveForMerge(*XAttrSet, *YAttrSet);
       mergeAttrSets(XAttrSet->SA, YAttrSet->SA);
       return;
@@ -121,12 +133,12 @@ Sema::selectOrCreate(SemaAttrs &SA,
           Nested != StaticAttrs.end()) {
         // Find another attr, with the same name.
         const auto &[K, V] = *Nested;
-        if (V.fromInherit() || !V.value() ||
-            V.value()->kind() != Node::NK_ExprAttrs) {
+        ExprAttrs *Attrs = attrsetOf(V.value());
+        if (V.fromInherit() || !Attrs) {
           dupAttr(StaticName, Name->range(), V.key().range());
           return nullptr;
         }
-        Inner = &static_cast<ExprAttrs *>(V.value())->SA;
+        Inner = &Attrs->SA;
       } else {
         // There is no existing one, let's create a new attribute.
         // These attributes are implicitly created, and to match default ctor
-- 
2.43.0


From cf31d59a958d41af594bfaf80030c7f456ff5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:52 +0000
Subject: [PATCH 14/85] fix: report leading commas and commas after the
 ellipsis in formals

---
 libnixf/src/Parse/ParseLambda.cpp |  9 +++---
 libnixf/src/Sema/SemaActions.cpp  | 47 +++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/libnixf/src/Parse/ParseLambda.cpp b/libnixf/src/Parse/ParseLambda.cpp
index 59947ab..3b3fb09 100644
--- a/libnixf/src/Parse/ParseLambda.cpp
+++ b/libnixf/src/Parse/ParseLambda.cpp
@@ -88,7 +88,8 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
     assert(LastToken && "LastToken should be set after consume()");
     auto ID =
         std::make_shared<Identifier>(TokID.range(), std::string(TokID.view()));
-    if (peek().kind() != tok_at)
+    Token TokAt = peek();
+    if (TokAt.kind() != tok_at)
       return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                              std::move(ID), nullptr);
 
@@ -97,10 +98,10 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
     if (!Formals) {
       // extra "@", consider remove it.
       Diagnostic &D =
-          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokID.range());
-      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokID.range()));
+          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokAt.range());
+      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokAt.range()));
       D.fix("insert dummy formals")
-          .edit(TextEdit::mkInsertion(TokID.rCur(), R"({})"));
+          .edit(TextEdit::mkInsertion(TokAt.rCur(), R"({})"));
     }
     return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                            std::move(ID), std::move(Formals));
diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 6346567..96b9eba 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -23,6 +23,11 @@ ExprAttrs *attrsetOf(Expr *E) {
   return static_cast<ExprAttrs *>(E);
 }
 
+/// \brief Is this formal just a comma?
+bool isEmptyFormal(const Formal &F) {
+  return F.comma() && !F.id() && !F.isEllipsis();
+}
+
 } // namespace
 
 void Sema::dupAttr(std::string Name, LexerCursorRange Range,
@@ -197,11 +202,16 @@ void Sema::checkFormalEllipsis(const FormalVector &FV) {
   if (FV.empty())
     return;
 
-  Formal &LastF = *FV.back().get(); // Last Formal
+  // Last Formal, not looking at a trailing comma.
+  auto Last = FV.end() - 1;
+  while (Last != FV.begin() && isEmptyFormal(**Last))
+    Last--;
+  Formal &LastF = **Last;
+  bool TrailingComma = isEmptyFormal(*FV.back());
 
-  for (auto It = FV.begin(); It + 1 != FV.end(); It++) {
+  for (auto It = FV.begin(); It != FV.end(); It++) {
     Formal &CurF = **It; // Current Formal
-    if (!CurF.isEllipsis())
+    if (!CurF.isEllipsis() || It == Last)
       continue;
 
     if (LastF.isEllipsis()) {
@@ -217,9 +227,11 @@ void Sema::checkFormalEllipsis(const FormalVector &FV) {
       std::string NewText(CurF.src(Src));
       // If current formal does not contain the seperator ", "
       // Insert a new comma to seperate it from the last formal
-      if (!CurF.comma())
+      if (TrailingComma)
+        NewText = " ...";
+      else if (!CurF.comma())
         NewText = std::string(", ").append(NewText);
-      Fx.edit(TextEdit::mkInsertion(LastF.rCur(), std::move(NewText)));
+      Fx.edit(TextEdit::mkInsertion(FV.back()->rCur(), std::move(NewText)));
     }
   }
 }
@@ -239,23 +251,28 @@ void Sema::checkFormalSep(const FormalVector &FV) {
 }
 
 void Sema::checkFormalEmpty(const FormalVector &FV) {
+  bool AfterEllipsis = false;
   for (auto It = FV.cbegin(); It != FV.cend(); It++) {
-    // Special case, ignore the last one.
-    // Because the nix formatting guide explicitly place a "comma" at the
-    // trailing of formals.
-    if (It + 1 == FV.cend())
-      break;
-
     const std::shared_ptr<Formal> &FPtr = *It;
     const Formal &F = *FPtr;
+    // Nothing precedes the first comma, e.g.
+    // { , a }
+    //   ^  empty formal
+    bool Leading = It == FV.cbegin() && F.comma();
+    // Special case, ignore the last one.
+    // Because the nix formatting guide explicitly place a "comma" at the
+    // trailing of formals. But it must not follow an ellipsis.
+    bool Trailing = It + 1 == FV.cend() && !AfterEllipsis;
+    if (!isEmptyFormal(F))
+      AfterEllipsis = F.isEllipsis();
     // Check if the formal is emtpy, e.g.
     // { , }
     //   ^  empty formal
-    if (F.comma() && !F.id() && !F.isEllipsis()) {
-      Diagnostic &D = Diags.emplace_back(Diagnostic::DK_EmptyFormal, F.range());
-      D.fix("remove empty formal").edit(TextEdit::mkRemoval(F.range()));
+    if (Leading || (isEmptyFormal(F) && !Trailing)) {
+      LexerCursorRange Range = F.comma()->range();
+      Diagnostic &D = Diags.emplace_back(Diagnostic::DK_EmptyFormal, Range);
+      D.fix("remove empty formal").edit(TextEdit::mkRemoval(Range));
       D.tag(DiagnosticTag::Faded);
-      continue;
     }
   }
 }
-- 
2.43.0


From aa4546eebbc5d732828cd882988fecf4c7b7973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 15/85] fix: a name from nested withs comes from the innermost

---
 libnixf/src/Sema/VariableLookup.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 792d706..0d82a21 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -201,8 +201,11 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
     // need to determine if converting a `with` to `let/inherit` is safe).
     std::vector<const ExprWith *> WithScopes;
     for (const auto *WithEnv : WithEnvs) {
-      Def = WithDefs.at(WithEnv->syntax());
-      Def->usedBy(Var);
+      const auto &WithDef = WithDefs.at(WithEnv->syntax());
+      // The innermost one takes precedence.
+      if (!Def)
+        Def = WithDef;
+      WithDef->usedBy(Var);
       WithScopes.push_back(static_cast<const ExprWith *>(WithEnv->syntax()));
     }
     VarWithScopes.insert({&Var, std::move(WithScopes)});
-- 
2.43.0


From 370560565f31957ef297e7ccfdf528e1ff0d1b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 16/85] fix: do not call the let of a legacy let redundant

---
 libnixf/src/Sema/VariableLookup.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 0d82a21..2bf0ba3 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -402,8 +402,11 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
 
 void VariableLookupAnalysis::dfs(const ExprLegacyLet &LegacyLet,
                                  const std::shared_ptr<EnvNode> &Env) {
-  if (LegacyLet.attrs())
-    dfs(*LegacyLet.attrs(), Env);
+  // The attrset is recursive because of `let`, do not complain about that.
+  if (const ExprAttrs *Attrs = LegacyLet.attrs()) {
+    Envs.insert({Attrs, Env});
+    dfsAttrs(Attrs->sema(), Env, Attrs, Definition::DS_Rec);
+  }
 }
 
 void VariableLookupAnalysis::trivialDispatch(
-- 
2.43.0


From 16c5c31a82306f4e199ebe2b99932ad7ac880fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 17/85] fix: analyse the source of an inherit once

---
 libnixf/src/Sema/VariableLookup.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 2bf0ba3..2650604 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -515,7 +515,9 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
 
 void VariableLookupAnalysis::dfs(const Node &Root,
                                  const std::shared_ptr<EnvNode> &Env) {
-  Envs.insert({&Root, Env});
+  // Visit each node once: "inherit (expr) a b" shares "expr" between a and b.
+  if (!Envs.insert({&Root, Env}).second)
+    return;
   switch (Root.kind()) {
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(Root);
-- 
2.43.0


From 61751a949ada0e6a983e7adcee61fbfeb06fa375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 18/85] fix: builtin hints respect shadowing of builtins and
 primops

---
 libnixf/include/nixf/Sema/VariableLookup.h |  6 ++-
 libnixf/src/Sema/VariableLookup.cpp        | 44 ++++++++++++++++++----
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index e592a14..756c350 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -140,9 +140,11 @@ private:
 
   void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
 
-  void checkBuiltins(const ExprSelect &Sel);
+  void checkBuiltins(const ExprSelect &Sel,
+                     const std::shared_ptr<EnvNode> &Env);
 
-  void checkLetInheritBuiltins(const SemaAttrs &SA);
+  void checkLetInheritBuiltins(const SemaAttrs &SA,
+                               const std::shared_ptr<EnvNode> &Env);
 
   std::shared_ptr<EnvNode> dfsAttrs(const SemaAttrs &SA,
                                     const std::shared_ptr<EnvNode> &Env,
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 2650604..54dabac 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -85,6 +85,15 @@ bool checkInheritedFromBuiltin(const Attribute &Attr) {
   return false;
 }
 
+/// \brief Does \p Name mean the builtin of that name, i.e. is it not shadowed?
+bool isGlobal(const std::string &Name, const EnvNode *Env) {
+  for (; Env; Env = Env->parent()) {
+    if (auto It = Env->defs().find(Name); It != Env->defs().end())
+      return !It->second->syntax();
+  }
+  return false;
+}
+
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
@@ -217,6 +226,14 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
       assert(false && "primop name should be defined");
       break;
     case PrimopLookupResult::PrefixedFound: {
+      // The prefix does not help if it means something else here.
+      if (!isGlobal("builtins", Env.get())) {
+        Results.insert(
+            {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
+        Diags.emplace_back(Diagnostic::DK_UndefinedVariable, Var.range())
+            << Name;
+        break;
+      }
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
       D.fix("use `builtins.` prefix")
@@ -320,11 +337,14 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
   if (SA.isRecursive()) {
     // rec { }, or let ... in ...
     DefBuilder DB(Diags);
+    bool GlobalBuiltins = !SA.staticAttrs().contains("builtins") &&
+                          isGlobal("builtins", Env.get());
     // For each static names, create a name binding.
     for (const auto &[Name, Attr] : SA.staticAttrs()) {
       ToDef.insert_or_assign(
           &Attr.key(),
-          DB.add(Name, &Attr.key(), Source, checkInheritedFromBuiltin(Attr)));
+          DB.add(Name, &Attr.key(), Source,
+                 GlobalBuiltins && checkInheritedFromBuiltin(Attr)));
     }
 
     auto NewEnv = std::make_shared<EnvNode>(Env, DB.finish(), Syntax);
@@ -389,7 +409,7 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     // If there are some attributes actually, create a new env.
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
-    checkLetInheritBuiltins(SA);
+    checkLetInheritBuiltins(SA, Env);
     return dfsAttrs(SA, Env, &Let, Definition::DS_Let);
   };
 
@@ -446,7 +466,8 @@ void VariableLookupAnalysis::dfs(const ExprWith &With,
   }
 }
 
-void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
+void VariableLookupAnalysis::checkBuiltins(
+    const ExprSelect &Sel, const std::shared_ptr<EnvNode> &Env) {
   if (!Sel.path())
     return;
 
@@ -458,7 +479,7 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
     return;
 
   const auto &Builtins = static_cast<const ExprVar &>(Sel.expr());
-  if (Builtins.id().name() != "builtins")
+  if (Builtins.id().name() != "builtins" || !isGlobal("builtins", Env.get()))
     return;
 
   const auto &AP = *Sel.path();
@@ -474,6 +495,9 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
 
   switch (lookupGlobalPrimOpInfo(Name)) {
   case PrimopLookupResult::Found: {
+    // Without the prefix the name would mean something else.
+    if (!isGlobal(Name, Env.get()))
+      return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
     Fix &F =
@@ -498,13 +522,19 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   }
 }
 
-void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
+void VariableLookupAnalysis::checkLetInheritBuiltins(
+    const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env) {
+  // `builtins` may be something else.
+  if (SA.staticAttrs().contains("builtins") ||
+      !isGlobal("builtins", Env.get()))
+    return;
   for (const auto &[Name, Attr] : SA.staticAttrs()) {
     if (!checkInheritedFromBuiltin(Attr))
       continue;
 
     // Check if the inherited name is a prelude builtin
-    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found) {
+    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found &&
+        isGlobal(Name, Env.get())) {
       Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                          Attr.key().range());
       D.fix("remove unnecessary inherit")
@@ -552,7 +582,7 @@ void VariableLookupAnalysis::dfs(const Node &Root,
   case Node::NK_ExprSelect: {
     trivialDispatch(Root, Env);
     const auto &Sel = static_cast<const ExprSelect &>(Root);
-    checkBuiltins(Sel);
+    checkBuiltins(Sel, Env);
     break;
   }
   default:
-- 
2.43.0


From 6086d715b50453c8ca86d1ef8cf311a591a7f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 19/85] fix: builtins.builtins exists

---
 libnixf/src/Sema/VariableLookup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 54dabac..9d08dfe 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -97,6 +97,9 @@ bool isGlobal(const std::string &Name, const EnvNode *Env) {
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
+  // builtins.builtins is builtins itself.
+  if (Name == "builtins")
+    return true;
   return Constants.contains(Name) || Constants.contains("__" + Name);
 }
 
-- 
2.43.0


From 4ae5011d24d727ca88aa72a89b12f0ae31977e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 20/85] fix: internal primops are no names of the language

---
 libnixf/src/Sema/PrimOpLookup.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/PrimOpLookup.cpp b/libnixf/src/Sema/PrimOpLookup.cpp
index 222c596..ee52f15 100644
--- a/libnixf/src/Sema/PrimOpLookup.cpp
+++ b/libnixf/src/Sema/PrimOpLookup.cpp
@@ -2,14 +2,24 @@
 
 using namespace nixf;
 
+namespace {
+
+/// \brief Is it a primop that programs may refer to?
+bool isPublicPrimOp(const std::string &Name) {
+  auto It = PrimOpsInfo.find(Name);
+  return It != PrimOpsInfo.end() && !It->second.Internal;
+}
+
+} // namespace
+
 PrimopLookupResult nixf::lookupGlobalPrimOpInfo(const std::string &Name) {
-  if (PrimOpsInfo.contains(Name)) {
+  if (isPublicPrimOp(Name)) {
     return PrimopLookupResult::Found;
   }
 
   // Prefix the name with "__", and check again.
   std::string PrefixedName = "__" + Name;
-  if (PrimOpsInfo.contains(PrefixedName)) {
+  if (isPublicPrimOp(PrefixedName)) {
     return PrimopLookupResult::PrefixedFound;
   }
 
-- 
2.43.0


From 3bc70f27bb67ad5c798d58b069159c1860173712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 21/85] fix: attribute sets can be called (__functor)

---
 libnixf/include/nixf/Basic/Nodes/Basic.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Basic.h b/libnixf/include/nixf/Basic/Nodes/Basic.h
index 23988d4..1c9c38a 100644
--- a/libnixf/include/nixf/Basic/Nodes/Basic.h
+++ b/libnixf/include/nixf/Basic/Nodes/Basic.h
@@ -87,7 +87,6 @@ public:
     switch (Kind) {
     case Node::NK_ExprInt:
     case Node::NK_ExprFloat:
-    case Node::NK_ExprAttrs:
     case Node::NK_ExprString:
     case Node::NK_ExprPath:
       return false;
-- 
2.43.0


From 263b81a1ff12899293c4e5338f432908f505238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:09 +0000
Subject: [PATCH 22/85] fix: positions of requests count UTF-16 code units

---
 nixd/lib/Controller/CodeAction.cpp        |  2 +-
 nixd/lib/Controller/Completion.cpp        |  3 ++-
 nixd/lib/Controller/Convert.cpp           | 19 +++++++++++++++----
 nixd/lib/Controller/Convert.h             |  7 +++++--
 nixd/lib/Controller/Definition.cpp        |  5 +++--
 nixd/lib/Controller/DocumentHighlight.cpp |  3 ++-
 nixd/lib/Controller/FindReferences.cpp    |  3 ++-
 nixd/lib/Controller/Hover.cpp             |  5 ++---
 nixd/lib/Controller/InlayHints.cpp        |  2 +-
 nixd/lib/Controller/Rename.cpp            |  8 +++++---
 10 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 6e73711..4b1e69d 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -82,7 +82,7 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
 
       // Add refactoring code actions based on cursor position
       if (TU->ast() && TU->parentMap()) {
-        nixf::PositionRange NixfRange = toNixfRange(Range);
+        nixf::PositionRange NixfRange = toNixfRange(TU->src(), Range);
         if (const nixf::Node *N = TU->ast()->descend(NixfRange)) {
           addAttrNameActions(*N, *TU->parentMap(), FileURI, TU->src(), Actions);
           addConvertToInheritAction(*N, *TU->parentMap(), FileURI, TU->src(),
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ffd3e5f..f0b7898 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -465,11 +465,12 @@ void Controller::onCompletion(const CompletionParams &Params,
                               Callback<CompletionList> Reply) {
   using CheckTy = CompletionList;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply([&]() -> llvm::Expected<CompletionList> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
       CheckDefault(Desc && canCompleteAt(*Desc));
diff --git a/nixd/lib/Controller/Convert.cpp b/nixd/lib/Controller/Convert.cpp
index 8d969f2..9633936 100644
--- a/nixd/lib/Controller/Convert.cpp
+++ b/nixd/lib/Controller/Convert.cpp
@@ -29,12 +29,23 @@ lspserver::Position nixd::toLSPPosition(llvm::StringRef Code,
   return lspserver::offsetToPosition(Code, P.offset());
 }
 
-nixf::Position nixd::toNixfPosition(const lspserver::Position &P) {
-  return {P.line, P.character};
+nixf::Position nixd::toNixfPosition(llvm::StringRef Code,
+                                    const lspserver::Position &P) {
+  llvm::Expected<size_t> Offset = positionToOffset(Code, P);
+  if (!Offset) {
+    // Not in the document, there is nothing to convert.
+    llvm::consumeError(Offset.takeError());
+    return {P.line, P.character};
+  }
+  // nixf counts columns in bytes, from the last '\n'.
+  llvm::StringRef Before = Code.take_front(*Offset);
+  return {P.line,
+          static_cast<int64_t>(Before.size() - (Before.rfind('\n') + 1))};
 }
 
-nixf::PositionRange nixd::toNixfRange(const lspserver::Range &P) {
-  return {toNixfPosition(P.start), toNixfPosition(P.end)};
+nixf::PositionRange nixd::toNixfRange(llvm::StringRef Code,
+                                      const lspserver::Range &P) {
+  return {toNixfPosition(Code, P.start), toNixfPosition(Code, P.end)};
 }
 
 lspserver::Range nixd::toLSPRange(llvm::StringRef Code,
diff --git a/nixd/lib/Controller/Convert.h b/nixd/lib/Controller/Convert.h
index d203b01..f5852c6 100644
--- a/nixd/lib/Controller/Convert.h
+++ b/nixd/lib/Controller/Convert.h
@@ -13,9 +13,12 @@ namespace nixd {
 lspserver::Position toLSPPosition(llvm::StringRef Code,
                                   const nixf::LexerCursor &P);
 
-nixf::Position toNixfPosition(const lspserver::Position &P);
+/// \brief Convert \p P, which counts UTF-16 code units, to a position in bytes.
+nixf::Position toNixfPosition(llvm::StringRef Code,
+                              const lspserver::Position &P);
 
-nixf::PositionRange toNixfRange(const lspserver::Range &P);
+nixf::PositionRange toNixfRange(llvm::StringRef Code,
+                                const lspserver::Range &P);
 
 lspserver::Range toLSPRange(llvm::StringRef Code,
                             const nixf::LexerCursorRange &R);
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5982195..52d9cde 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -137,7 +137,7 @@ class WorkerReportedException : std::exception {
   llvm::Error E;
 
 public:
-  WorkerReportedException(llvm::Error E) : E(std::move(E)) {};
+  WorkerReportedException(llvm::Error E) : E(std::move(E)){};
 
   llvm::Error takeError() { return std::move(E); }
   [[nodiscard]] const char *what() const noexcept override {
@@ -380,11 +380,12 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
                               Callback<llvm::json::Value> Reply) {
   using CheckTy = Locations;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index e7fcdb9..3379364 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -58,11 +58,12 @@ void Controller::onDocumentHighlight(
     Callback<std::vector<DocumentHighlight>> Reply) {
   using CheckTy = std::vector<DocumentHighlight>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
       try {
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 041388b..5e4251e 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -51,11 +51,12 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
                               Callback<std::vector<Location>> Reply) {
   using CheckTy = std::vector<Location>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 556a2f9..fb891f2 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -72,8 +72,7 @@ class NixpkgsHoverProvider {
     }
 
     if (Package.Description) {
-      OS << "## Description"
-         << "\n\n";
+      OS << "## Description" << "\n\n";
       OS << *Package.Description;
       OS << "\n\n";
 
@@ -213,7 +212,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = nixf::Position{RawPos.line, RawPos.character};
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
 
       const auto Name = std::string(N.name());
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 2938e0a..4e505fd 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -65,7 +65,7 @@ public:
       : NixpkgsProvider(NixpkgsProvider), VLA(VLA), PMA(PMA), Hints(Hints),
         Src(Src) {
     if (Range)
-      this->Range = toNixfRange(*Range);
+      this->Range = toNixfRange(Src, *Range);
   }
 
   void dfs(const Node *N) {
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 973c9e7..d9a0a90 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -73,12 +73,13 @@ void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position),
-                 NewText = Params.newName, this]() mutable {
+                 RawPos = Params.position, NewText = Params.newName,
+                 this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = *CheckReturn(
           AST->descend({Pos, Pos}),
           error("cannot find corresponding node on given position"));
@@ -100,11 +101,12 @@ void Controller::onPrepareRename(
     Callback<std::optional<lspserver::Range>> Reply) {
   using CheckTy = std::optional<lspserver::Range>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
 
-- 
2.43.0


From 72010cb112de207aee70b7b5142cc88f01b54f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 23/85] fix: definition of a duplicate inherited name

---
 nixd/lib/Controller/Definition.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 52d9cde..1a78e40 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -85,8 +85,13 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
       return nullptr;
 
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-    const Node *Var = SA.staticAttrs().at(AN.staticName()).value();
-    assert(Var->kind() == Node::NK_ExprVar);
+    auto It = SA.staticAttrs().find(AN.staticName());
+    // This name may be a duplicate, which does not bind anything.
+    if (It == SA.staticAttrs().end() || &It->second.key() != &AN)
+      return nullptr;
+    const Node *Var = It->second.value();
+    if (!Var || Var->kind() != Node::NK_ExprVar)
+      return nullptr;
     return static_cast<const ExprVar *>(Var);
   }
   return nullptr;
-- 
2.43.0


From 41dd94599952fe56314f64886ce3777ea87891e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 24/85] fix: rename all names bound together, refuse inherited
 attributes

---
 nixd/lib/Controller/Definition.cpp |  29 +++++--
 nixd/lib/Controller/Definition.h   |   5 ++
 nixd/lib/Controller/Rename.cpp     | 127 ++++++++++++++++++++++++-----
 3 files changed, 136 insertions(+), 25 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 1a78e40..bb88e3a 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -49,18 +49,33 @@ const Definition *findSelfDefinition(const Node &N,
     return Def;
 
   // If N is inside an attrset, it maybe an "AttrName", let's look for it.
-  const Node *Parent = PMA.query(N);
-  if (Parent && Parent->kind() == Node::NK_AttrName)
-    return VLA.toDef(*Parent);
+  const Node *Parent = PMA.upTo(N, Node::NK_AttrName);
+  if (!Parent || !static_cast<const AttrName &>(*Parent).isStatic())
+    return nullptr;
+  if (const Definition *Def = VLA.toDef(*Parent))
+    return Def;
 
-  return nullptr;
+  // "a.b = 1; a.c = 2;", the definition of "a" is recorded at the first one.
+  const auto &Name = static_cast<const AttrName &>(*Parent);
+  const Node *Path = PMA.query(*Parent);
+  if (!Path || Path->kind() != Node::NK_AttrPath ||
+      static_cast<const AttrPath &>(*Path).names().front().get() != &Name)
+    return nullptr;
+  const Node *Up = PMA.upTo(*Path, Node::NK_ExprAttrs);
+  if (!Up)
+    return nullptr;
+  const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
+  auto It = SA.staticAttrs().find(Name.staticName());
+  return It == SA.staticAttrs().end() ? nullptr : VLA.toDef(It->second.key());
 }
 
+} // namespace
+
 // Special case, variable in "inherit"
 // inherit name
 //         ^~~~<---  this is an "AttrName", not variable.
-const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
-                              const VariableLookupAnalysis &VLA) {
+const ExprVar *nixd::findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
+                                    const VariableLookupAnalysis &VLA) {
   if (const Node *Up = PMA.upTo(N, Node::NK_Inherit)) {
     const Node *UpAn = PMA.upTo(N, Node::NK_AttrName);
     if (!UpAn)
@@ -97,6 +112,8 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
   return nullptr;
 }
 
+namespace {
+
 const ExprVar *findVar(const Node &N, const ParentMapAnalysis &PMA,
                        const VariableLookupAnalysis &VLA) {
   if (const ExprVar *InVar = findInheritVar(N, PMA, VLA))
diff --git a/nixd/lib/Controller/Definition.h b/nixd/lib/Controller/Definition.h
index 2706602..d5747ca 100644
--- a/nixd/lib/Controller/Definition.h
+++ b/nixd/lib/Controller/Definition.h
@@ -18,4 +18,9 @@ const nixf::Definition &findDefinition(const nixf::Node &N,
                                        const nixf::ParentMapAnalysis &PMA,
                                        const nixf::VariableLookupAnalysis &VLA);
 
+/// \brief The variable "inherit a;" uses, for \p N inside the name "a".
+const nixf::ExprVar *findInheritVar(const nixf::Node &N,
+                                    const nixf::ParentMapAnalysis &PMA,
+                                    const nixf::VariableLookupAnalysis &VLA);
+
 } // namespace nixd
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index d9a0a90..235160d 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -12,7 +12,13 @@
 
 #include <boost/asio/post.hpp>
 
+#include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Sema/ParentMap.h>
+#include <nixf/Sema/VariableLookup.h>
+
 #include <exception>
+#include <set>
+#include <vector>
 
 using namespace lspserver;
 using namespace nixd;
@@ -35,33 +41,116 @@ struct RenameBuiltinException : RenameException {
   }
 };
 
-WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
-                     const ParentMapAnalysis &PMA,
+struct RenameInheritedException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "cannot rename attribute selected by `inherit (...)`";
+  }
+};
+
+/// \brief Collects the places where a name has to be changed.
+///
+/// A plain "inherit a;" uses an outer "a" and binds another one of the same
+/// name, thus these definitions are renamed together.
+class Renamer {
+  const nixf::Node &Root;
+  const ParentMapAnalysis &PMA;
+  const VariableLookupAnalysis &VLA;
+
+  std::set<const Definition *> Visited;
+  std::vector<const nixf::Node *> Places;
+
+  void addPlace(const nixf::Node &N) {
+    for (const nixf::Node *P : Places) {
+      if (P->lCur().offset() == N.lCur().offset())
+        return;
+    }
+    Places.emplace_back(&N);
+  }
+
+  /// \brief "a.b = 1; a.c = 2;" binds "a" at two places.
+  void addBindings(const AttrName &Name) {
+    const auto *Attrs = PMA.upTo(Name, nixf::Node::NK_Binds);
+    if (!Attrs)
+      return;
+    for (const auto &B : static_cast<const Binds &>(*Attrs).bindings()) {
+      if (!B || B->kind() != nixf::Node::NK_Binding)
+        continue;
+      const AttrName &First =
+          *static_cast<const Binding &>(*B).path().names().front();
+      if (First.isStatic() && First.staticName() == Name.staticName())
+        addPlace(First);
+    }
+  }
+
+  /// \brief The definition a desugared variable from "inherit a;" makes.
+  const Definition *inheriting(const ExprVar &Var) {
+    const nixf::Node *N = Root.descend(Var.positionRange());
+    const nixf::Node *Name =
+        N ? PMA.upTo(*N, nixf::Node::NK_AttrName) : nullptr;
+    return Name ? VLA.toDef(*Name) : nullptr;
+  }
+
+public:
+  Renamer(const nixf::Node &Root, const ParentMapAnalysis &PMA,
+          const VariableLookupAnalysis &VLA)
+      : Root(Root), PMA(PMA), VLA(VLA) {}
+
+  [[nodiscard]] const std::vector<const nixf::Node *> &places() const {
+    return Places;
+  }
+
+  void add(const Definition &Def) {
+    if (!Visited.insert(&Def).second)
+      return;
+
+    if (Def.source() == Definition::DS_With)
+      throw RenameWithException();
+
+    if (Def.isBuiltin())
+      throw RenameBuiltinException();
+
+    for (const auto *Use : Def.uses()) {
+      addPlace(*Use);
+      // Desugared variables are not part of the tree.
+      if (PMA.query(*Use))
+        continue;
+      if (const Definition *Inner = inheriting(*Use))
+        add(*Inner);
+    }
+
+    addPlace(*Def.syntax());
+    if (Def.syntax()->kind() != nixf::Node::NK_AttrName)
+      return;
+
+    const auto &Name = static_cast<const AttrName &>(*Def.syntax());
+    const nixf::Node *Up = PMA.query(Name);
+    if (!Up || Up->kind() != nixf::Node::NK_Inherit) {
+      addBindings(Name);
+      return;
+    }
+    if (static_cast<const Inherit &>(*Up).expr())
+      throw RenameInheritedException();
+    if (findInheritVar(Name, PMA, VLA))
+      add(findDefinition(Name, PMA, VLA));
+  }
+};
+
+WorkspaceEdit rename(const nixf::Node &Root, const nixf::Node &Desc,
+                     const std::string &NewText, const ParentMapAnalysis &PMA,
                      const VariableLookupAnalysis &VLA, const URIForFile &URI,
                      llvm::StringRef Src) {
   using lspserver::TextEdit;
   // Find "definition"
-  auto Def = findDefinition(Desc, PMA, VLA);
-
-  if (Def.source() == Definition::DS_With)
-    throw RenameWithException();
-
-  if (Def.isBuiltin())
-    throw RenameBuiltinException();
+  Renamer R(Root, PMA, VLA);
+  R.add(findDefinition(Desc, PMA, VLA));
 
   std::vector<TextEdit> Edits;
-
-  for (const auto *Use : Def.uses()) {
+  for (const nixf::Node *N : R.places()) {
     Edits.emplace_back(TextEdit{
-        .range = toLSPRange(Src, Use->range()),
+        .range = toLSPRange(Src, N->range()),
         .newText = NewText,
     });
   }
-
-  Edits.emplace_back(TextEdit{
-      .range = toLSPRange(Src, Def.syntax()->range()),
-      .newText = NewText,
-  });
   WorkspaceEdit WE;
   WE.changes = std::map<std::string, std::vector<TextEdit>>{
       {URI.uri(), std::move(Edits)}};
@@ -87,7 +176,7 @@ void Controller::onRename(const RenameParams &Params,
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        return rename(Desc, NewText, PM, VLA, URI, TU->src());
+        return rename(*AST, Desc, NewText, PM, VLA, URI, TU->src());
       } catch (std::exception &E) {
         return error(E.what());
       }
@@ -113,7 +202,7 @@ void Controller::onPrepareRename(
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        WorkspaceEdit WE = rename(Desc, "", PM, VLA, URI, TU->src());
+        WorkspaceEdit WE = rename(*AST, Desc, "", PM, VLA, URI, TU->src());
         return toLSPRange(TU->src(), Desc.range());
       } catch (std::exception &E) {
         return error(E.what());
-- 
2.43.0


From 041fa8e65be64de8c7619ab534c395d34edbcc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 25/85] fix: answer calls of unknown methods with an error

---
 nixd/lspserver/src/LSPServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..1d5ed84 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -1,6 +1,7 @@
 #include "lspserver/LSPServer.h"
 #include "lspserver/Connection.h"
 #include "lspserver/Function.h"
+#include "lspserver/Protocol.h"
 
 #include <llvm/ADT/FunctionExtras.h>
 #include <llvm/Support/Compiler.h>
@@ -46,7 +47,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID),
+               llvm::make_error<LSPError>("method not found",
+                                          ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From 99f1029bac2c22d251fca6b27b5bb2cee2175810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 26/85] fix: ignore replies whose id is no small integer

---
 nixd/lspserver/src/LSPServer.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 1d5ed84..396cc63 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -8,8 +8,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <climits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -58,21 +58,20 @@ bool LSPServer::onReply(llvm::json::Value ID,
   log("<-- reply({0})", ID);
   std::optional<Callback<llvm::json::Value>> CB;
 
-  if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
+  // Calls have small integer IDs, there is none for anything else.
+  if (auto OptI = ID.getAsInteger(); OptI && *OptI > 0 && *OptI <= INT_MAX) {
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
     auto I = static_cast<int>(*OptI);
     if (PendingCalls.contains(I)) {
       CB = std::move(PendingCalls[I]);
       PendingCalls.erase(I);
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
     // Ignore this error
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     return true;
   }
   // Invoke the callback outside of the critical zone, because we just do not
-- 
2.43.0


From 09a4ab90fe239d26feb8c0ab3de91990c7201473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 27/85] fix: give up the oldest call outside of the lock

---
 nixd/lspserver/src/LSPServer.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 396cc63..d62c592 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -81,20 +81,28 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  int Ret;
+  int OldestID = 0;
+  std::optional<Callback<llvm::json::Value>> OldestCallback;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      OldestID = Begin->first;
+      OldestCallback = std::move(Begin->second);
+      PendingCalls.erase(Begin);
+    }
+  }
+  // Invoke the callback outside of the critical zone, it may call in turn.
+  if (OldestCallback) {
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+         MaxPendingCalls, OldestID);
+    (*OldestCallback)(
+        error("failed to receive a client reply for request ({0})", OldestID));
   }
   return Ret;
 }
-- 
2.43.0


From 12800ba38718c960fc27083cdbe39a41cacbf0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 28/85] fix: fail pending calls when the peer closes the
 connection

---
 nixd/lspserver/include/lspserver/LSPServer.h |  3 +++
 nixd/lspserver/src/LSPServer.cpp             | 22 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/include/lspserver/LSPServer.h b/nixd/lspserver/include/lspserver/LSPServer.h
index 14a946a..24dc116 100644
--- a/nixd/lspserver/include/lspserver/LSPServer.h
+++ b/nixd/lspserver/include/lspserver/LSPServer.h
@@ -41,6 +41,9 @@ private:
 
   int TopID = 1;
 
+  /// The peer has closed the connection, no replies will come.
+  bool Closed = false;
+
   /// Allocate an "ID" (as returned value) for this callback.
   int bindReply(Callback<llvm::json::Value>);
 
diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index d62c592..7f88fa5 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -10,10 +10,23 @@
 
 #include <climits>
 #include <mutex>
+#include <utility>
 
 namespace lspserver {
 
-void LSPServer::run() { In->loop(*this); }
+void LSPServer::run() {
+  In->loop(*this);
+
+  // There are no replies to come, fail the calls waiting for one.
+  std::map<int, Callback<llvm::json::Value>> Calls;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Closed = true;
+    Calls = std::exchange(PendingCalls, {});
+  }
+  for (auto &[ID, CB] : Calls)
+    CB(error("connection closed before the reply of request ({0})", ID));
+}
 
 bool LSPServer::onNotify(llvm::StringRef Method, llvm::json::Value Params) {
   log("<-- {0}", Method);
@@ -87,7 +100,10 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
   {
     std::lock_guard<std::mutex> _(PendingCallsLock);
     Ret = TopID++;
-    PendingCalls[Ret] = std::move(CB);
+    if (!Closed) {
+      PendingCalls[Ret] = std::move(CB);
+      CB = nullptr;
+    }
 
     // Check the limit
     if (PendingCalls.size() > MaxPendingCalls) {
@@ -104,6 +120,8 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
     (*OldestCallback)(
         error("failed to receive a client reply for request ({0})", OldestID));
   }
+  if (CB)
+    CB(error("connection closed before the reply of request ({0})", Ret));
   return Ret;
 }
 
-- 
2.43.0


From 2f5808fdd13badfb007fe921e25eb8276f3c0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 29/85] fix: forkPiped returns stderr of the child

---
 nixd/lib/Support/ForkPiped.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..f0b6ab4 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -40,6 +40,6 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  Err = PipeErr[READ];
   return Child;
 }
-- 
2.43.0


From 038355869f84ae1a13802ca7cd9ebba9548b2497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 30/85] fix: survive dead, missing and busy workers, leave none
 behind

---
 nixd/include/nixd/Controller/Controller.h | 35 ++++++++++++++---
 nixd/include/nixd/Eval/AttrSetClient.h    | 12 +++---
 nixd/include/nixd/Support/StreamProc.h    |  2 +
 nixd/lib/Controller/Completion.cpp        | 45 +++++++++++-----------
 nixd/lib/Controller/Configuration.cpp     |  9 ++---
 nixd/lib/Controller/Definition.cpp        | 29 +++++++-------
 nixd/lib/Controller/Hover.cpp             | 47 +++++++++++------------
 nixd/lib/Controller/InlayHints.cpp        |  5 ++-
 nixd/lib/Eval/AttrSetClient.cpp           | 29 +++++++++++++-
 nixd/lib/Support/ForkPiped.cpp            |  8 ++++
 nixd/lib/Support/StreamProc.cpp           | 10 ++++-
 nixd/tools/nixd.cpp                       |  5 +++
 12 files changed, 155 insertions(+), 81 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index f49fac5..7ae7a9a 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -19,6 +19,7 @@ namespace nixd {
 class Controller : public lspserver::LSPServer {
 public:
   using OptionMapTy = std::map<std::string, std::unique_ptr<AttrSetClientProc>>;
+  using OptionClients = std::vector<std::pair<std::string, AttrSetClient *>>;
 
 private:
   std::unique_ptr<OwnedEvalClient> Eval;
@@ -33,12 +34,23 @@ private:
   //      "home-manager" -> home-manager worker
   OptionMapTy Options; // GUARDED_BY(OptionsLock)
 
-  AttrSetClientProc &nixpkgsEval() {
-    assert(NixpkgsEval);
-    return *NixpkgsEval;
+  /// \returns nullptr if the worker is not running.
+  AttrSetClient *nixpkgsClient() {
+    return NixpkgsEval ? NixpkgsEval->client() : nullptr;
   }
 
-  AttrSetClient *nixpkgsClient() { return nixpkgsEval().client(); }
+  /// \brief Clients of running option workers.
+  ///
+  /// Workers are never removed, so the lock isn't held while waiting for them.
+  OptionClients optionClients() {
+    std::lock_guard _(OptionsLock);
+    OptionClients Clients;
+    for (const auto &[Name, Option] : Options) {
+      if (AttrSetClient *Client = Option->client())
+        Clients.emplace_back(Name, Client);
+    }
+    return Clients;
+  }
 
   void evalExprWithProgress(AttrSetClient &Client, const EvalExprParams &Params,
                             std::string_view Description);
@@ -254,7 +266,20 @@ public:
   Controller(std::unique_ptr<lspserver::InboundPort> In,
              std::unique_ptr<lspserver::OutboundPort> Out);
 
-  ~Controller() override { Pool.join(); }
+  ~Controller() override {
+    // Requests may be waiting for the workers.
+    if (NixpkgsEval)
+      NixpkgsEval->stop();
+    {
+      std::lock_guard _(OptionsLock);
+      for (const auto &[_, Option] : Options)
+        Option->stop();
+    }
+    Pool.join();
+    // The workers' callbacks use other members.
+    NixpkgsEval.reset();
+    Options.clear();
+  }
 
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
diff --git a/nixd/include/nixd/Eval/AttrSetClient.h b/nixd/include/nixd/Eval/AttrSetClient.h
index 11931d9..c076a7a 100644
--- a/nixd/include/nixd/Eval/AttrSetClient.h
+++ b/nixd/include/nixd/Eval/AttrSetClient.h
@@ -5,6 +5,7 @@
 
 #include <lspserver/LSPServer.h>
 
+#include <atomic>
 #include <thread>
 
 namespace nixd {
@@ -76,16 +77,17 @@ class AttrSetClientProc {
   StreamProc Proc;
   AttrSetClient Client;
   std::thread Input;
+  std::atomic<bool> Stopped = false;
 
 public:
   /// \brief Check if the process is still alive
   /// \returns nullptr if it has been dead.
   AttrSetClient *client();
-  ~AttrSetClientProc() {
-    Client.exit();
-    Client.closeInbound();
-    Input.join();
-  }
+
+  /// \brief Terminate the process. Calls waiting for it fail.
+  void stop();
+
+  ~AttrSetClientProc();
 
   /// \see StreamProc::StreamProc
   AttrSetClientProc(const std::function<int()> &Action);
diff --git a/nixd/include/nixd/Support/StreamProc.h b/nixd/include/nixd/Support/StreamProc.h
index bfba46b..d4a409e 100644
--- a/nixd/include/nixd/Support/StreamProc.h
+++ b/nixd/include/nixd/Support/StreamProc.h
@@ -19,6 +19,8 @@ public:
   /// value.
   StreamProc(const std::function<int()> &Action);
 
+  ~StreamProc();
+
   [[nodiscard]] llvm::raw_fd_ostream &stream() const {
     assert(Stream);
     return *Stream;
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index f0b7898..e79d9ed 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -340,22 +340,18 @@ public:
 void completeAttrName(const lspserver::Range EditRange,
                       const std::vector<std::string> &Scope,
                       const std::string &Prefix,
-                      Controller::OptionMapTy &Options, bool CompletionSnippets,
+                      const Controller::OptionClients &Options,
+                      bool CompletionSnippets,
                       std::vector<CompletionItem> &List) {
-  for (const auto &[Name, Provider] : Options) {
-    AttrSetClient *Client = Options.at(Name)->client();
-    if (!Client) [[unlikely]] {
-      elog("skipped client {0} as it is dead", Name);
-      continue;
-    }
+  for (const auto &[Name, Client] : Options) {
     OptionCompletionProvider OCP(*Client, Name, CompletionSnippets);
     OCP.completeOptions(EditRange, Scope, Prefix, List);
   }
 }
 
 void completeAttrPath(const lspserver::Range EditRange, const Node &N,
-                      const ParentMapAnalysis &PM, std::mutex &OptionsLock,
-                      Controller::OptionMapTy &Options, bool Snippets,
+                      const ParentMapAnalysis &PM,
+                      const Controller::OptionClients &Options, bool Snippets,
                       std::vector<lspserver::CompletionItem> &Items) {
   std::vector<std::string> Scope;
   using PathResult = FindAttrPathResult;
@@ -364,10 +360,7 @@ void completeAttrPath(const lspserver::Range EditRange, const Node &N,
     // Construct request.
     std::string Prefix = Scope.back();
     Scope.pop_back();
-    {
-      std::lock_guard _(OptionsLock);
-      completeAttrName(EditRange, Scope, Prefix, Options, Snippets, Items);
-    }
+    completeAttrName(EditRange, Scope, Prefix, Options, Snippets, Items);
   }
 }
 
@@ -391,7 +384,7 @@ AttrPathCompleteParams mkParams(nixd::Selector Sel, bool IsComplete) {
 void completeVarName(const lspserver::Range EditRange,
                      const VariableLookupAnalysis &VLA,
                      const ParentMapAnalysis &PM, const nixf::ExprVar &N,
-                     AttrSetClient &Client, std::vector<CompletionItem> &List) {
+                     AttrSetClient *Client, std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/var"
 
   VLACompletionProvider VLAP(VLA);
@@ -402,11 +395,11 @@ void completeVarName(const lspserver::Range EditRange,
     Selector Sel = idioms::mkVarSelector(N, VLA, PM);
 
     // Clickling "pkgs" does not make sense for variable completion
-    if (Sel.empty())
+    if (Sel.empty() || !Client)
       return;
 
     // Invoke nixpkgs provider to get the completion list.
-    NixpkgsCompletionProvider NCP(Client);
+    NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
     NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
   } catch (ExceedSizeError &) {
@@ -426,7 +419,7 @@ void completeVarName(const lspserver::Range EditRange,
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
 void completeSelect(const lspserver::Range EditRange,
-                    const nixf::ExprSelect &Select, AttrSetClient &Client,
+                    const nixf::ExprSelect &Select, AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
                     std::vector<CompletionItem> &List) {
@@ -442,8 +435,10 @@ void completeSelect(const lspserver::Range EditRange,
   }
 
   const auto &Var = static_cast<const nixf::ExprVar &>(BaseExpr);
+  if (!Client)
+    return;
   // Ask nixpkgs provider to get idioms completion.
-  NixpkgsCompletionProvider NCP(Client);
+  NixpkgsCompletionProvider NCP(*Client);
 
   try {
     Selector Sel =
@@ -494,7 +489,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           case Node::NK_ExprVar: {
             completeVarName(EditRange, VLA, PM,
                             static_cast<const nixf::ExprVar &>(UpExpr),
-                            *nixpkgsClient(), List.items);
+                            nixpkgsClient(), List.items);
             return List;
           }
           // A "select" expression. e.g.
@@ -503,12 +498,12 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, *nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
           case Node::NK_ExprAttrs: {
-            completeAttrPath(EditRange, N, PM, OptionsLock, Options,
+            completeAttrPath(EditRange, N, PM, optionClients(),
                              ClientCaps.CompletionSnippets, List.items);
             return List;
           }
@@ -544,8 +539,12 @@ void Controller::onCompletionItemResolve(const CompletionItem &Params,
     llvm::json::Path::Root Root;
     fromJSON(*EV, Req, Root);
 
-    // FIXME: handle null nixpkgsClient()
-    NixpkgsCompletionProvider NCP(*nixpkgsClient());
+    AttrSetClient *Client = nixpkgsClient();
+    if (!Client) {
+      Reply(error("nixpkgs worker is not running"));
+      return;
+    }
+    NixpkgsCompletionProvider NCP(*Client);
     CompletionItem Resp = Params;
     NCP.resolvePackage(Req.Scope, Params.label, Resp);
 
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 3bb28e8..65a8b91 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -59,10 +59,8 @@ void Controller::updateConfig(Configuration NewConfig) {
 
   if (!Config.nixpkgs.expr.empty()) {
     /// Evaluate nixpkgs and options, using user-provided config.
-    if (nixpkgsClient()) {
-      evalExprWithProgress(*nixpkgsClient(), Config.nixpkgs.expr,
-                           "nixpkgs entries");
-    }
+    if (AttrSetClient *Client = nixpkgsClient())
+      evalExprWithProgress(*Client, Config.nixpkgs.expr, "nixpkgs entries");
   }
   if (!Config.options.empty()) {
     std::lock_guard _(OptionsLock);
@@ -74,7 +72,8 @@ void Controller::updateConfig(Configuration NewConfig) {
         startOption(Name, Client);
       }
       assert(Client);
-      evalExprWithProgress(*Client->client(), Opt.expr, Name);
+      if (AttrSetClient *C = Client->client())
+        evalExprWithProgress(*C, Opt.expr, Name);
     }
   }
 
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index bb88e3a..39cfeb2 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -279,20 +279,16 @@ std::optional<Location> definePath(const ExprPath &Path,
 ///
 /// Usually this function will return a list of option declarations via RPC
 Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
-                         std::mutex &OptionsLock,
-                         Controller::OptionMapTy &Options) {
+                         const Controller::OptionClients &Options) {
   using PathResult = FindAttrPathResult;
   std::vector<std::string> Scope;
   auto R = findAttrPathForOptions(N, PM, Scope);
   Locations Locs;
   if (R == PathResult::OK) {
-    std::lock_guard _(OptionsLock);
     // For each option worker, try to get it's decl position.
     for (const auto &[_, Client] : Options) {
-      if (AttrSetClient *C = Client->client()) {
-        OptionsDefinitionProvider ODP(*C);
-        ODP.resolveLocations(Scope, Locs);
-      }
+      OptionsDefinitionProvider ODP(*Client);
+      ODP.resolveLocations(Scope, Locs);
     }
   }
   return Locs;
@@ -300,10 +296,13 @@ Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
 
 /// \brief Get nixpkgs definition from a selector.
 Locations defineNixpkgsSelector(const Selector &Sel,
-                                AttrSetClient &NixpkgsClient) {
+                                AttrSetClient *NixpkgsClient) {
+  // The worker may be dead.
+  if (!NixpkgsClient)
+    return {};
   try {
     // Ask nixpkgs provider information about this selector.
-    NixpkgsDefinitionProvider NDP(NixpkgsClient);
+    NixpkgsDefinitionProvider NDP(*NixpkgsClient);
     return NDP.resolveSelector(Sel);
   } catch (NoLocationsFoundInNixpkgsException &E) {
     elog("definition/idiom: {0}", E.what());
@@ -316,7 +315,7 @@ Locations defineNixpkgsSelector(const Selector &Sel,
 /// \brief Get definiton of select expressions.
 Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
                        const ParentMapAnalysis &PM,
-                       AttrSetClient &NixpkgsClient) {
+                       AttrSetClient *NixpkgsClient) {
   // Currently we can only deal with idioms.
   // Maybe more data-flow analysis will be added though.
   try {
@@ -341,7 +340,7 @@ std::vector<T> mergeVec(std::vector<T> A, const std::vector<T> &B) {
 
 llvm::Expected<Locations>
 defineVar(const ExprVar &Var, const VariableLookupAnalysis &VLA,
-          const ParentMapAnalysis &PM, AttrSetClient &NixpkgsClient,
+          const ParentMapAnalysis &PM, AttrSetClient *NixpkgsClient,
           const URIForFile &URI, llvm::StringRef Src) {
   try {
     Locations StaticLocs = defineVarStatic(Var, VLA, URI, Src);
@@ -415,19 +414,19 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
 
       // Special case for inherited names.
       if (const ExprVar *Var = findInheritVar(N, PM, VLA))
-        return defineVar(*Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(*Var, VLA, PM, nixpkgsClient(), URI, TU->src());
 
       switch (UpExpr.kind()) {
       case Node::NK_ExprVar: {
         const auto &Var = static_cast<const ExprVar &>(UpExpr);
-        return defineVar(Var, VLA, PM, *nixpkgsClient(), URI, TU->src());
+        return defineVar(Var, VLA, PM, nixpkgsClient(), URI, TU->src());
       }
       case Node::NK_ExprSelect: {
         const auto &Sel = static_cast<const ExprSelect &>(UpExpr);
-        return defineSelect(Sel, VLA, PM, *nixpkgsClient());
+        return defineSelect(Sel, VLA, PM, nixpkgsClient());
       }
       case Node::NK_ExprAttrs:
-        return defineAttrPath(N, PM, OptionsLock, Options);
+        return defineAttrPath(N, PM, optionClients());
       case Node::NK_ExprPath: {
         const auto &Path = static_cast<const ExprPath &>(UpExpr);
         if (auto Loc = definePath(Path, File))
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index fb891f2..324c45a 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -241,32 +241,29 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
           auto Scope = std::vector<std::string>();
           const auto R = findAttrPathForOptions(N, PM, Scope);
           if (R == FindAttrPathResult::OK) {
-            std::lock_guard _(OptionsLock);
-            for (const auto &[_, Client] : Options) {
-              if (AttrSetClient *C = Client->client()) {
-                OptionsHoverProvider OHP(*C);
-                std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
-                std::string Docs;
-                if (Desc) {
-                  if (Desc->Type) {
-                    std::string TypeName = Desc->Type->Name.value_or("");
-                    std::string TypeDesc = Desc->Type->Description.value_or("");
-                    Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
-                  } else {
-                    Docs += "? (missing type)";
-                  }
-                  if (Desc->Description) {
-                    Docs += "\n\n" + Desc->Description.value_or("");
-                  }
-                  return Hover{
-                      .contents =
-                          MarkupContent{
-                              .kind = MarkupKind::Markdown,
-                              .value = std::move(Docs),
-                          },
-                      .range = toLSPRange(TU->src(), N.range()),
-                  };
+            for (const auto &[_, C] : optionClients()) {
+              OptionsHoverProvider OHP(*C);
+              std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
+              std::string Docs;
+              if (Desc) {
+                if (Desc->Type) {
+                  std::string TypeName = Desc->Type->Name.value_or("");
+                  std::string TypeDesc = Desc->Type->Description.value_or("");
+                  Docs += llvm::formatv("{0} ({1})", TypeName, TypeDesc);
+                } else {
+                  Docs += "? (missing type)";
                 }
+                if (Desc->Description) {
+                  Docs += "\n\n" + Desc->Description.value_or("");
+                }
+                return Hover{
+                    .contents =
+                        MarkupContent{
+                            .kind = MarkupKind::Markdown,
+                            .value = std::move(Docs),
+                        },
+                    .range = toLSPRange(TU->src(), N.range()),
+                };
               }
             }
           }
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 4e505fd..f67c181 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -129,7 +129,10 @@ void Controller::onInlayHint(const InlayHintsParams &Params,
       const auto AST = CheckDefault(getAST(*TU));
       // Perform inlay hints computation on the range.
       std::vector<InlayHint> Response;
-      NixpkgsInlayHintsProvider NP(*nixpkgsClient(), *TU->variableLookup(),
+      AttrSetClient *Client = nixpkgsClient();
+      if (!Client)
+        return Response;
+      NixpkgsInlayHintsProvider NP(*Client, *TU->variableLookup(),
                                    *TU->parentMap(), Range, Response,
                                    TU->src());
       NP.dfs(AST.get());
diff --git a/nixd/lib/Eval/AttrSetClient.cpp b/nixd/lib/Eval/AttrSetClient.cpp
index 9c19c4c..66d7afa 100644
--- a/nixd/lib/Eval/AttrSetClient.cpp
+++ b/nixd/lib/Eval/AttrSetClient.cpp
@@ -3,6 +3,9 @@
 #include "nixd/Eval/AttrSetClient.h"
 
 #include <signal.h> // NOLINT(modernize-deprecated-headers)
+#include <sys/wait.h>
+
+#include <chrono>
 
 using namespace nixd;
 using namespace lspserver;
@@ -34,7 +37,31 @@ AttrSetClientProc::AttrSetClientProc(const std::function<int()> &Action)
       Input([this]() { Client.run(); }) {}
 
 AttrSetClient *AttrSetClientProc::client() {
-  if (!kill(Proc.proc().PID, 0))
+  if (!Stopped && !kill(Proc.proc().PID, 0))
     return &Client;
   return nullptr;
 }
+
+void AttrSetClientProc::stop() {
+  if (Stopped)
+    return;
+  Stopped = true;
+  Client.exit();
+  Client.closeInbound();
+
+  // Let the worker exit, it may be busy though.
+  using namespace std::chrono_literals;
+  pid_t PID = Proc.proc().PID;
+  for (int I = 0; I < 50; I++) {
+    if (waitpid(PID, nullptr, WNOHANG) != 0)
+      return;
+    std::this_thread::sleep_for(10ms);
+  }
+  kill(PID, SIGKILL);
+  waitpid(PID, nullptr, 0);
+}
+
+AttrSetClientProc::~AttrSetClientProc() {
+  stop();
+  Input.join();
+}
diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index f0b6ab4..9f225d3 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -2,6 +2,8 @@
 
 #include <cerrno>
 
+#include <fcntl.h>
+#include <signal.h> // NOLINT(modernize-deprecated-headers)
 #include <system_error>
 #include <unistd.h>
 
@@ -14,6 +16,11 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
   if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
     throw std::system_error(errno, std::generic_category());
 
+  // Other children must not keep the pipes open. (dup2 clears the flag)
+  for (int FD : {PipeIn[READ], PipeIn[WRITE], PipeOut[READ], PipeOut[WRITE],
+                 PipeErr[READ], PipeErr[WRITE]})
+    fcntl(FD, F_SETFD, FD_CLOEXEC);
+
   pid_t Child = fork();
 
   if (Child == 0) {
@@ -28,6 +35,7 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
     close(PipeOut[WRITE]);
     close(PipeErr[WRITE]);
     // Child process.
+    signal(SIGPIPE, SIG_DFL);
     return 0;
   }
 
diff --git a/nixd/lib/Support/StreamProc.cpp b/nixd/lib/Support/StreamProc.cpp
index 6963b0d..87e11f8 100644
--- a/nixd/lib/Support/StreamProc.cpp
+++ b/nixd/lib/Support/StreamProc.cpp
@@ -1,6 +1,8 @@
 #include "nixd/Support/StreamProc.h"
 #include "nixd/Support/ForkPiped.h"
 
+#include <unistd.h>
+
 using namespace nixd;
 using namespace util;
 using namespace lspserver;
@@ -21,9 +23,15 @@ StreamProc::StreamProc(const std::function<int()> &Action) {
 
   pid_t Child = forkPiped(In, Out, Err);
   if (Child == 0)
-    exit(Action());
+    _exit(Action());
 
   // Parent process.
   Proc = std::make_unique<PipedProc>(Child, In, Out, Err);
   Stream = std::make_unique<llvm::raw_fd_ostream>(In, false);
 }
+
+StreamProc::~StreamProc() {
+  // The process may be dead already, that is not an error of the stream.
+  if (Stream)
+    Stream->clear_error();
+}
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 9417cf4..88f396b 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -9,6 +9,8 @@
 #include <llvm/ADT/ArrayRef.h>
 #include <llvm/Support/CommandLine.h>
 
+#include <signal.h> // NOLINT(modernize-deprecated-headers)
+
 using namespace lspserver;
 using namespace nixd;
 
@@ -70,6 +72,9 @@ int main(int argc, char *argv[]) {
   StreamLogger Logger(llvm::errs(), LogLevel);
   LoggingSession Session(Logger);
 
+  // Writing to a worker that died is an error, but not a reason to exit.
+  signal(SIGPIPE, SIG_IGN);
+
   auto In = std::make_unique<lspserver::InboundPort>(STDIN_FILENO, InputStyle);
 
   auto Out = std::make_unique<lspserver::OutboundPort>(PrettyPrint);
-- 
2.43.0


From ac8d3f39df86379e26bc3726cbd01a35c425cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 31/85] fix: framing survives broken messages and hang-ups with
 pending data

---
 nixd/lspserver/src/Connection.cpp | 61 +++++++++++++++++++------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..a7ad69a 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -129,7 +129,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Object ||
       Object->getString("jsonrpc") != std::optional<llvm::StringRef>("2.0")) {
     elog("Not a JSON-RPC 2.0 message: {0:2}", Message);
-    return false;
+    return true;
   }
   // ID may be any JSON value. If absent, this is a notification.
   std::optional<llvm::json::Value> ID;
@@ -139,7 +139,7 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   if (!Method) { // This is a response.
     if (!ID) {
       elog("No method and no response ID: {0:2}", Message);
-      return false;
+      return true;
     }
     if (auto *Err = Object->getObject("error"))
       // TODO: Logging & reply errors.
@@ -160,6 +160,9 @@ bool InboundPort::dispatch(llvm::json::Value Message, MessageHandler &Handler) {
   return Handler.onNotify(*Method, std::move(Params));
 }
 
+/// Messages are not expected to be larger.
+static constexpr unsigned long long MaxContentLength = 1 << 30;
+
 bool readLine(int fd, const std::atomic<bool> &Close,
               llvm::SmallString<128> &Line) {
   Line.clear();
@@ -174,18 +177,20 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     char Ch;
     // FIXME: inefficient
     int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
+    if (Poll < 0) {
+      if (errno == EINTR)
+        continue;
       return false;
+    }
     if (Close)
       return false;
 
-    // POLLHUB: hang up from the writer side
     // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    if (FDs[0].revents & POLLNVAL)
       return false;
-    }
 
-    if (FDs[0].revents & POLLIN) {
+    // POLLHUB: hang up from the writer side, there may be something to read
+    if (FDs[0].revents & (POLLIN | POLLHUP)) {
       ssize_t BytesRead = read(fd, &Ch, 1);
       if (BytesRead == -1) {
         if (errno != EINTR)
@@ -199,10 +204,9 @@ bool readLine(int fd, const std::atomic<bool> &Close,
       }
     }
 
-    if (kill(ClientProcessID, 0) < 0) {
-      // Parent died.
+    // Nothing to read, is the parent still there?
+    if (Poll == 0 && kill(ClientProcessID, 0) < 0)
       return false;
-    }
   }
 }
 
@@ -217,8 +221,9 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     llvm::StringRef LineRef = Line;
 
     // Content-Length is a mandatory header, and the only one we handle.
-    if (LineRef.consume_front("Content-Length: ")) {
-      llvm::getAsUnsignedInteger(LineRef.trim(), 0, ContentLength);
+    if (LineRef.consume_front_insensitive("Content-Length:")) {
+      if (llvm::getAsUnsignedInteger(LineRef.trim(), 10, ContentLength))
+        ContentLength = 0;
       continue;
     }
     // An empty line indicates the end of headers.
@@ -228,16 +233,23 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
+  if (ContentLength == 0 || ContentLength > MaxContentLength)
+    return error("skipping message without valid Content-Length");
+
   Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
+  for (size_t Pos = 0; Pos < ContentLength;) {
 
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    ssize_t Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
 
-    if (Read == 0) {
+    if (Read < 0 && errno == EINTR)
+      continue;
+
+    if (Read <= 0) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
     }
+    Pos += Read;
   }
   return llvm::json::parse(Buffer);
 }
@@ -325,15 +337,16 @@ void InboundPort::loop(MessageHandler &Handler) {
         return;
     } else {
       // Handle error while reading message.
-      return [&]() {
-        auto Err = Message.takeError();
-        if (Err.isA<ReadEOF>())
-          return; // Stop reading.
-        else if (Err.isA<llvm::json::ParseError>())
-          elog("The received json cannot be parsed, reason: {0}", Err);
-        else
-          elog("Error reading message: {0}", llvm::toString(std::move(Err)));
-      }();
+      auto Err = Message.takeError();
+      if (Err.isA<ReadEOF>()) {
+        llvm::consumeError(std::move(Err));
+        return; // Stop reading.
+      }
+      // Skip this one, the following messages are framed on their own.
+      if (Err.isA<llvm::json::ParseError>())
+        elog("The received json cannot be parsed, reason: {0}", std::move(Err));
+      else
+        elog("Error reading message: {0}", std::move(Err));
     }
   }
 }
-- 
2.43.0


From dd296b9804a22280c3ecf2466b8b1838f670db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 32/85] fix: exit status tells whether shutdown was requested

---
 nixd/include/nixd/Controller/Controller.h | 3 +++
 nixd/tools/nixd.cpp                       | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 7ae7a9a..ac7e2de 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -281,6 +281,9 @@ public:
     Options.clear();
   }
 
+  /// \brief Has the client asked for shutting down?
+  [[nodiscard]] bool receivedShutdown() const { return ReceivedShutdown; }
+
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
 
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 88f396b..2a0d013 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -84,5 +84,6 @@ int main(int argc, char *argv[]) {
 
   Controller->run();
 
-  return 0;
+  // LSP: exiting without a shutdown request is an error. The lit tests do.
+  return Controller->receivedShutdown() || LitTest ? 0 : 1;
 }
-- 
2.43.0


From e6e5ba6225787b664c9a5f48c2e9a0fe4772a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 33/85] fix: attributes selected are no references to a binding
 of the enclosing set

---
 nixd/lib/Controller/Definition.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 39cfeb2..05a1074 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -61,7 +61,10 @@ const Definition *findSelfDefinition(const Node &N,
   if (!Path || Path->kind() != Node::NK_AttrPath ||
       static_cast<const AttrPath &>(*Path).names().front().get() != &Name)
     return nullptr;
-  const Node *Up = PMA.upTo(*Path, Node::NK_ExprAttrs);
+  const Node *Binding = PMA.query(*Path);
+  if (!Binding || Binding->kind() != Node::NK_Binding)
+    return nullptr;
+  const Node *Up = PMA.upTo(*Binding, Node::NK_ExprAttrs);
   if (!Up)
     return nullptr;
   const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-- 
2.43.0


From 491f1aeabdbc24b960e584b86e88150817a5dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 34/85] fix: rename neither to an invalid name nor the body of
 a legacy let

---
 nixd/lib/Controller/Rename.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 235160d..123cfa9 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -4,6 +4,7 @@
 /// https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#textDocument_rename
 
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 #include "Definition.h"
 
@@ -47,6 +48,12 @@ struct RenameInheritedException : RenameException {
   }
 };
 
+struct RenameLegacyLetBodyException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "cannot rename `body` of `let { }`";
+  }
+};
+
 /// \brief Collects the places where a name has to be changed.
 ///
 /// A plain "inherit a;" uses an outer "a" and binds another one of the same
@@ -82,6 +89,15 @@ class Renamer {
     }
   }
 
+  /// \brief Is this name the result of "let { body = ...; }"?
+  bool isLegacyLetBody(const AttrName &Name) {
+    if (!Name.isStatic() || Name.staticName() != "body")
+      return false;
+    const auto *Attrs = PMA.upTo(Name, nixf::Node::NK_ExprAttrs);
+    const auto *Up = Attrs ? PMA.query(*Attrs) : nullptr;
+    return Up && Up->kind() == nixf::Node::NK_ExprLegacyLet;
+  }
+
   /// \brief The definition a desugared variable from "inherit a;" makes.
   const Definition *inheriting(const ExprVar &Var) {
     const nixf::Node *N = Root.descend(Var.positionRange());
@@ -123,6 +139,8 @@ public:
       return;
 
     const auto &Name = static_cast<const AttrName &>(*Def.syntax());
+    if (isLegacyLetBody(Name))
+      throw RenameLegacyLetBodyException();
     const nixf::Node *Up = PMA.query(Name);
     if (!Up || Up->kind() != nixf::Node::NK_Inherit) {
       addBindings(Name);
@@ -166,6 +184,8 @@ void Controller::onRename(const RenameParams &Params,
                  this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
+      if (!isValidNixIdentifier(NewText))
+        return error("the new name is not a valid identifier");
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
       const auto Pos = toNixfPosition(TU->src(), RawPos);
-- 
2.43.0


From 08965664e82c3801bce75968168b0f13b7bd06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 35/85] fix: inserting a missing keyword does not glue it to
 its neighbours

---
 libnixf/src/Parse/ParseSupport.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseSupport.cpp b/libnixf/src/Parse/ParseSupport.cpp
index 48a8d36..cf29d03 100644
--- a/libnixf/src/Parse/ParseSupport.cpp
+++ b/libnixf/src/Parse/ParseSupport.cpp
@@ -113,8 +113,13 @@ Parser::ExpectResult Parser::expect(TokenKind Kind) {
   LexerCursor Insert = LastToken ? LastToken->rCur() : peek().lCur();
   Diagnostic &D =
       Diags.emplace_back(Diagnostic::DK_Expected, LexerCursorRange(Insert));
-  D << std::string(tok::spelling(Kind));
-  D.fix("insert " + std::string(tok::spelling(Kind)))
-      .edit(TextEdit::mkInsertion(Insert, std::string(tok::spelling(Kind))));
+  std::string Spelling(tok::spelling(Kind));
+  D << Spelling;
+  // Words must not be glued to what is around them.
+  std::string NewText = Spelling;
+  if (Spelling.front() >= 'a' && Spelling.front() <= 'z')
+    NewText = " " + Spelling + " ";
+  D.fix("insert " + Spelling)
+      .edit(TextEdit::mkInsertion(Insert, std::move(NewText)));
   return {&D};
 }
-- 
2.43.0


From 8ee3d21f333aa4d8f58dfdb3ae94a2aad70e326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 36/85] fix: removing redundant parentheses does not glue
 tokens

---
 libnixf/src/Parse/ParseSimple.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index a7fbf57..f7af450 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -35,6 +35,21 @@ bool mayProducedBySimple(const Expr *E) {
   return mayProducedBySimple(E->kind());
 }
 
+/// \brief Remove a parenthesis, not gluing the tokens around it.
+TextEdit removeParen(std::string_view Src, LexerCursorRange Paren) {
+  std::size_t Begin = Paren.lCur().offset();
+  std::size_t End = Paren.rCur().offset();
+  constexpr std::string_view Blanks = " \t\r\n";
+  if (Begin == 0 || End == Src.size() ||
+      (Blanks.find(Src[Begin - 1]) != std::string_view::npos) ||
+      (Blanks.find(Src[End]) != std::string_view::npos) ||
+      std::string_view("([{;,=").find(Src[Begin - 1]) !=
+          std::string_view::npos ||
+      std::string_view(")]};,").find(Src[End]) != std::string_view::npos)
+    return TextEdit::mkRemoval(Paren);
+  return {Paren, " "};
+}
+
 } // namespace
 
 std::shared_ptr<ExprParen> Parser::parseExprParen() {
@@ -55,8 +70,8 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove ( and )");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
-      F.edit(TextEdit::mkRemoval(RParen->range()));
+      F.edit(removeParen(Src, LParen->range()));
+      F.edit(removeParen(Src, RParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), ER.tok().rCur()}, std::move(Expr),
@@ -69,7 +84,7 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove (");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
+      F.edit(removeParen(Src, LParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), LastToken->rCur()}, std::move(Expr),
-- 
2.43.0


From 9aae8efa4388c78bf52fa16e70d5659c379ad677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 37/85] fix: removing an empty inherit removes its source too

---
 libnixf/src/Parse/ParseAttrs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseAttrs.cpp b/libnixf/src/Parse/ParseAttrs.cpp
index 3eab21c..2e46796 100644
--- a/libnixf/src/Parse/ParseAttrs.cpp
+++ b/libnixf/src/Parse/ParseAttrs.cpp
@@ -135,6 +135,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
     }
     break;
   }
+  LexerCursor End = LastToken->rCur();
   ExpectResult ER = expect(tok_semi_colon);
   if (ER.ok())
     consume();
@@ -148,7 +149,8 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
         Diags.emplace_back(Diagnostic::DK_EmptyInherit, TokInherit.range());
     D.tag(DiagnosticTag::Faded);
     Fix &F = D.fix("remove `inherit` keyword");
-    F.edit(TextEdit::mkRemoval(TokInherit.range()));
+    // Remove "(expr)" also.
+    F.edit(TextEdit::mkRemoval({TokInherit.lCur(), End}));
     if (ER.ok()) {
       // Remove ";" also.
       F.edit(TextEdit::mkRemoval(ER.tok().range()));
-- 
2.43.0


From dc4921d78e0331cea95ac651fb8858f054ef0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 38/85] fix: conversion of a legacy let keeps the meaning of
 names

---
 libnixf/src/Parse/ParseExpr.cpp | 51 ++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 88062b1..4f73dea 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -3,6 +3,28 @@
 using namespace nixf;
 using namespace nixf::detail;
 
+namespace {
+
+/// \brief Is there a variable (or a plain inherit) of this \p Name below \p N?
+bool usesName(const Node &N, const std::string &Name) {
+  if (N.kind() == Node::NK_ExprVar)
+    return static_cast<const ExprVar &>(N).id().name() == Name;
+  if (N.kind() == Node::NK_Inherit) {
+    const auto &Inh = static_cast<const Inherit &>(N);
+    for (const auto &AN : Inh.names()) {
+      if (!Inh.expr() && AN && AN->isStatic() && AN->staticName() == Name)
+        return true;
+    }
+  }
+  for (const Node *Ch : N.children()) {
+    if (Ch && usesName(*Ch, Name))
+      return true;
+  }
+  return false;
+}
+
+} // namespace
+
 std::shared_ptr<Expr> Parser::parseExprSelect() {
   std::shared_ptr<Expr> Expr = parseExprSimple();
   if (!Expr)
@@ -158,7 +180,7 @@ std::shared_ptr<ExprIf> Parser::parseExprIf() {
     Diagnostic &D = diagNullExpr(Diags, LastToken->rCur(), "condition");
     D.fix("remove `if` keyword").edit(TextEdit::mkRemoval(TokIf.range()));
     D.fix("insert dummy condition")
-        .edit(TextEdit::mkInsertion(TokIf.rCur(), "true"));
+        .edit(TextEdit::mkInsertion(TokIf.rCur(), " true"));
 
     if (peek().kind() != tok_kw_then)
       return std::make_shared<ExprIf>(LexerCursorRange{LCur, LastToken->rCur()},
@@ -225,7 +247,7 @@ std::shared_ptr<ExprAssert> Parser::parseExprAssert() {
     D.fix("remove `assert` keyword")
         .edit(TextEdit::mkRemoval(TokAssert.range()));
 
-    if (peek().kind() != tok_colon)
+    if (peek().kind() != tok_semi_colon)
       return std::make_shared<ExprAssert>(
           LexerCursorRange{LCur, LastToken->rCur()}, std::move(Cond),
           /*Value=*/nullptr);
@@ -369,7 +391,13 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
   Diagnostic &DWarn =
       Diags.emplace_back(Diagnostic::DK_DeprecatedLet, FullRange);
 
-  if (HasBody && Attrs->binds()) {
+  // "body" is not bound any more after the conversion, "let ... in ..." cannot
+  // have dynamic attributes.
+  bool Convertible = HasBody && Attrs->binds() &&
+                     Attrs->sema().dynamicAttrs().empty() &&
+                     !usesName(*Attrs->binds(), "body");
+
+  if (Convertible) {
     for (const auto &BindNode : Attrs->binds()->bindings()) {
       if (BindNode->kind() != Node::NK_Binding)
         continue;
@@ -379,13 +407,22 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
       const auto &Name = *Bind.path().names()[0];
       if (!Name.isStatic() || Name.staticName() != "body")
         continue;
-      if (!Bind.value())
+      if (!Bind.value() || Bind.path().names().size() != 1)
         break;
+      // Do not glue the tokens around.
+      auto IsBlank = [this](std::size_t Offset) {
+        return Offset >= Src.size() ||
+               std::string_view(" \t\r\n);]}").find(Src[Offset]) !=
+                   std::string_view::npos;
+      };
+      bool GlueBefore = LCurlyRange.lCur().offset() == TokLet.rCur().offset() &&
+                        !IsBlank(LCurlyRange.rCur().offset());
+      bool GlueAfter = !IsBlank(RCurlyRange.rCur().offset());
       Fix &F = DWarn.fix("convert to `let ... in ...`");
-      F.edit(TextEdit::mkRemoval(LCurlyRange));
+      F.edit(TextEdit(LCurlyRange, GlueBefore ? " " : ""));
       F.edit(TextEdit::mkRemoval(Bind.range()));
-      F.edit(
-          TextEdit(RCurlyRange, "in " + std::string(Bind.value()->src(Src))));
+      F.edit(TextEdit(RCurlyRange, "in " + std::string(Bind.value()->src(Src)) +
+                                       (GlueAfter ? " " : "")));
       break;
     }
   }
-- 
2.43.0


From 4c317249a09f4a79242aa71377b18c78131b5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 39/85] fix: fixes of unused bindings and builtins prefixes
 keep programs valid

---
 libnixf/include/nixf/Sema/VariableLookup.h |  4 ++
 libnixf/src/Sema/VariableLookup.cpp        | 76 +++++++++++++---------
 2 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 756c350..76eb2c4 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -17,6 +17,7 @@
 
 #include <map>
 #include <memory>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -175,6 +176,9 @@ private:
   /// converting an outer `with` to `let/inherit` could change semantics.
   std::map<const ExprVar *, std::vector<const ExprWith *>> VarWithScopes;
 
+  /// Variables that "inherit foo;" stands for.
+  std::set<const Node *> InheritedVars;
+
 public:
   VariableLookupAnalysis(std::vector<Diagnostic> &Diags);
 
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 9d08dfe..612a4e1 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -103,6 +103,38 @@ bool isBuiltinConstant(const std::string &Name) {
   return Constants.contains(Name) || Constants.contains("__" + Name);
 }
 
+/// \brief Suggest removing the bindings of the \p Name, reported in \p D.
+void addRemoveBindingFix(Diagnostic &D, const std::string &Name,
+                         const Binds &Bs) {
+  std::vector<LexerCursorRange> Ranges;
+  bool Found = false;
+  for (const auto &BindNode : Bs.bindings()) {
+    // Skip non-Binding nodes (Inherit handled separately)
+    if (!BindNode || BindNode->kind() != Node::NK_Binding)
+      continue;
+
+    const auto &Bind = static_cast<const Binding &>(*BindNode);
+    const auto &PathNames = Bind.path().names();
+    if (PathNames.empty())
+      continue;
+
+    const auto &FirstName = PathNames[0];
+    if (!FirstName || !FirstName->isStatic() || FirstName->staticName() != Name)
+      continue;
+
+    // a.b = 1; a.c = 2; are bindings of the same name.
+    Ranges.emplace_back(Bind.range());
+    // Match by comparing first attrname range with the reported one.
+    Found |= D.range().lCur() == FirstName->range().lCur() &&
+             D.range().rCur() == FirstName->range().rCur();
+  }
+  if (!Found)
+    return;
+  Fix &F = D.fix("remove unused binding");
+  for (const auto &Range : Ranges)
+    F.edit(TextEdit::mkRemoval(Range));
+}
+
 } // namespace
 
 bool EnvNode::isLive() const {
@@ -149,31 +181,8 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
         const Node *LetNode = NewEnv->syntax();
         if (LetNode && LetNode->kind() == Node::NK_ExprLet) {
           const auto &Let = static_cast<const ExprLet &>(*LetNode);
-          if (Let.binds()) {
-            for (const auto &BindNode : Let.binds()->bindings()) {
-              // Skip non-Binding nodes (Inherit handled separately)
-              if (BindNode->kind() != Node::NK_Binding)
-                continue;
-
-              const auto &Bind = static_cast<const Binding &>(*BindNode);
-              const auto &PathNames = Bind.path().names();
-              if (PathNames.empty())
-                continue;
-
-              const auto &FirstName = PathNames[0];
-              if (!FirstName)
-                continue;
-
-              // Match by comparing first attrname range with Def->syntax()
-              // range
-              if (D.range().lCur() == FirstName->range().lCur() &&
-                  D.range().rCur() == FirstName->range().rCur()) {
-                D.fix("remove unused binding")
-                    .edit(TextEdit::mkRemoval(Bind.range()));
-                break;
-              }
-            }
-          }
+          if (Let.binds())
+            addRemoveBindingFix(D, Name, *Let.binds());
         }
       }
     }
@@ -239,8 +248,10 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
       }
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
-      D.fix("use `builtins.` prefix")
-          .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
+      // "inherit builtins.foo;" is not possible.
+      if (!InheritedVars.contains(&Var))
+        D.fix("use `builtins.` prefix")
+            .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
       Results.insert(
           {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
       break;
@@ -337,6 +348,11 @@ void VariableLookupAnalysis::dfsDynamicAttrs(
 std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
     const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env,
     const Node *Syntax, Definition::DefinitionSource Source) {
+  for (const auto &[_, Attr] : SA.staticAttrs()) {
+    if (Attr.kind() == Attribute::AttributeKind::Inherit)
+      InheritedVars.insert(Attr.value());
+  }
+
   if (SA.isRecursive()) {
     // rec { }, or let ... in ...
     DefBuilder DB(Diags);
@@ -503,6 +519,9 @@ void VariableLookupAnalysis::checkBuiltins(
       return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
+    // builtins."foo" and "builtins.foo or ..." do not work without the prefix.
+    if (First.kind() != AttrName::ANK_ID || Sel.defaultExpr())
+      return;
     Fix &F =
         D.fix("remove `builtins.` prefix")
             .edit(TextEdit::mkRemoval(Builtins.range())); // remove `builtins`
@@ -528,8 +547,7 @@ void VariableLookupAnalysis::checkBuiltins(
 void VariableLookupAnalysis::checkLetInheritBuiltins(
     const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env) {
   // `builtins` may be something else.
-  if (SA.staticAttrs().contains("builtins") ||
-      !isGlobal("builtins", Env.get()))
+  if (SA.staticAttrs().contains("builtins") || !isGlobal("builtins", Env.get()))
     return;
   for (const auto &[Name, Attr] : SA.staticAttrs()) {
     if (!checkInheritedFromBuiltin(Attr))
-- 
2.43.0


From 117e2844d82bb22a4389b474ae75692521e5e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 40/85] fix: analyse the source of an empty inherit

---
 libnixf/include/nixf/Sema/VariableLookup.h |  4 ++++
 libnixf/src/Sema/VariableLookup.cpp        | 21 +++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 76eb2c4..fcb1114 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -154,6 +154,10 @@ private:
 
   void emitEnvLivenessWarning(const std::shared_ptr<EnvNode> &NewEnv);
 
+  /// "inherit (expr);" contributes no attribute, "expr" is still evaluated in
+  /// the scope.
+  void dfsInheritSources(const Binds &Bs, const std::shared_ptr<EnvNode> &Env);
+
   void dfsDynamicAttrs(const std::vector<Attribute> &DynamicAttrs,
                        const std::shared_ptr<EnvNode> &Env);
 
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 612a4e1..865185f 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -334,6 +334,16 @@ void VariableLookupAnalysis::dfs(const ExprLambda &Lambda,
   emitEnvLivenessWarning(NewEnv);
 }
 
+void VariableLookupAnalysis::dfsInheritSources(
+    const Binds &Bs, const std::shared_ptr<EnvNode> &Env) {
+  for (const auto &Bind : Bs.bindings()) {
+    if (!Bind || Bind->kind() != Node::NK_Inherit)
+      continue;
+    if (const auto &Source = static_cast<const Inherit &>(*Bind).expr())
+      dfs(*Source, Env);
+  }
+}
+
 void VariableLookupAnalysis::dfsDynamicAttrs(
     const std::vector<Attribute> &DynamicAttrs,
     const std::shared_ptr<EnvNode> &Env) {
@@ -400,6 +410,8 @@ void VariableLookupAnalysis::dfs(const ExprAttrs &Attrs,
   const SemaAttrs &SA = Attrs.sema();
   std::shared_ptr<EnvNode> NewEnv =
       dfsAttrs(SA, Env, &Attrs, Definition::DS_Rec);
+  if (Attrs.binds())
+    dfsInheritSources(*Attrs.binds(), NewEnv);
   if (NewEnv != Env) {
     assert(Attrs.isRecursive() &&
            "NewEnv must be created for recursive attrset");
@@ -429,7 +441,10 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
     checkLetInheritBuiltins(SA, Env);
-    return dfsAttrs(SA, Env, &Let, Definition::DS_Let);
+    auto NewEnv = dfsAttrs(SA, Env, &Let, Definition::DS_Let);
+    if (Let.binds())
+      dfsInheritSources(*Let.binds(), NewEnv);
+    return NewEnv;
   };
 
   auto LetEnv = GetLetEnv();
@@ -444,7 +459,9 @@ void VariableLookupAnalysis::dfs(const ExprLegacyLet &LegacyLet,
   // The attrset is recursive because of `let`, do not complain about that.
   if (const ExprAttrs *Attrs = LegacyLet.attrs()) {
     Envs.insert({Attrs, Env});
-    dfsAttrs(Attrs->sema(), Env, Attrs, Definition::DS_Rec);
+    auto NewEnv = dfsAttrs(Attrs->sema(), Env, Attrs, Definition::DS_Rec);
+    if (Attrs->binds())
+      dfsInheritSources(*Attrs->binds(), NewEnv);
   }
 }
 
-- 
2.43.0


From cf14e7128b340f3dc5c4790c1af767aa63df21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 41/85] fix: read CR and CR LF in double-quoted strings as Nix
 does

---
 libnixf/src/Parse/ParseStrings.cpp | 27 ++++++++++++++++++++++++---
 libnixf/src/Parse/Parser.h         |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index e10b391..1303c35 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -57,7 +57,27 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
                                     std::move(Parts));
 }
 
-std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
+namespace {
+
+/// \brief Nix reads CR and CR LF as LF in double-quoted strings.
+std::string normalizeLineEnds(std::string_view S) {
+  std::string Result;
+  Result.reserve(S.size());
+  for (std::size_t I = 0; I < S.size(); I++) {
+    if (S[I] != '\r') {
+      Result += S[I];
+      continue;
+    }
+    Result += '\n';
+    if (I + 1 < S.size() && S[I + 1] == '\n')
+      I++;
+  }
+  return Result;
+}
+
+} // namespace
+
+std::shared_ptr<InterpolatedParts> Parser::parseStringParts(bool IsIndented) {
   std::vector<InterpolablePart> Parts;
   LexerCursor PartsBegin = peek().lCur();
   while (true) {
@@ -69,7 +89,8 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
     }
     case tok_string_part: {
       // If this is a part of string, just push it.
-      Parts.emplace_back(std::string(Tok.view()));
+      Parts.emplace_back(IsIndented ? std::string(Tok.view())
+                                    : normalizeLineEnds(Tok.view()));
       consume();
       continue;
     }
@@ -131,7 +152,7 @@ std::shared_ptr<ExprString> Parser::parseString(bool IsIndented) {
   assert(LastToken && "LastToken should be set after consume()");
   /* with(PS_String / PS_IndString) */ {
     auto StringState = withState(IsIndented ? PS_IndString : PS_String);
-    std::shared_ptr<InterpolatedParts> Parts = parseStringParts();
+    std::shared_ptr<InterpolatedParts> Parts = parseStringParts(IsIndented);
     if (ExpectResult ER = expect(QuoteKind); ER.ok()) {
       consume();
       return std::make_shared<ExprString>(
diff --git a/libnixf/src/Parse/Parser.h b/libnixf/src/Parse/Parser.h
index 96ac52d..9573a7a 100644
--- a/libnixf/src/Parse/Parser.h
+++ b/libnixf/src/Parse/Parser.h
@@ -179,7 +179,7 @@ public:
   ///             | STRING_PART
   ///             | STRING_ESCAPE
   /// \endcode
-  std::shared_ptr<InterpolatedParts> parseStringParts();
+  std::shared_ptr<InterpolatedParts> parseStringParts(bool IsIndented);
 
   /// \code
   /// string : " string_part* "
-- 
2.43.0


From 79ffa5ed0672f3f51cb64b824a9906434d9dd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 42/85] fix: rewriting a string keeps its value

---
 .../Controller/CodeActions/RewriteString.cpp  | 328 +++++++++++++++---
 1 file changed, 280 insertions(+), 48 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..745ba65 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -8,6 +8,16 @@
 
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <llvm/ADT/StringExtras.h>
+
+#include <algorithm>
+#include <map>
+#include <optional>
+#include <set>
+#include <string>
+#include <utility>
+#include <vector>
+
 namespace nixd {
 
 namespace {
@@ -23,54 +33,191 @@ bool isIndentedString(llvm::StringRef Src,
   return Src[Offset] == '\'' && Src[Offset + 1] == '\'';
 }
 
-/// \brief Escape a string for indented string literal syntax.
+/// \brief A part of the value of a string.
+struct StringPart {
+  std::string Text;     ///< Characters, or the source of an interpolation
+  bool IsInterpolation; ///< ${ ... }
+  bool IsEscape;        ///< Written as an escape, thus no indentation
+};
+
+/// \brief The source text of interpolations, with their offsets.
+using Interpolations = std::map<size_t, llvm::StringRef>;
+
+/// \brief Collect the parts of an indented string, as they are written.
 ///
-/// Escapes:
-/// - '' -> ''' (two single quotes become three)
-/// - ${ -> ''${ (prevent interpolation)
-std::string escapeForIndentedString(llvm::StringRef S) {
-  std::string Result;
-  Result.reserve(S.size() + S.size() / 8);
+/// Adjacent characters are one part only if Nix reads them as one token, see
+/// the rules for IND_STRING in its lexer.
+std::vector<StringPart> splitIndented(llvm::StringRef Src, size_t Begin,
+                                      size_t End, const Interpolations &Itps) {
+  std::vector<StringPart> Parts;
+  auto AddChars = [&](llvm::StringRef S) {
+    if (Parts.empty() || Parts.back().IsInterpolation || Parts.back().IsEscape)
+      Parts.emplace_back(StringPart{{}, false, false});
+    Parts.back().Text += S;
+  };
+  auto AddEscape = [&](llvm::StringRef S) {
+    Parts.emplace_back(StringPart{S.str(), false, true});
+  };
 
-  for (size_t I = 0; I < S.size(); ++I) {
-    char C = S[I];
+  // The rest of the line after the opening quotes is ignored if it is blank.
+  size_t I = Begin;
+  while (I < End && Src[I] == ' ')
+    I++;
+  if (I < End && Src[I] == '\n')
+    I++;
+  else
+    I = Begin;
 
-    // Check for '' sequence that needs escaping
-    if (C == '\'' && I + 1 < S.size() && S[I + 1] == '\'') {
-      Result += "'''";
-      ++I; // Skip the second quote
+  while (I < End) {
+    if (auto It = Itps.find(I); It != Itps.end()) {
+      Parts.emplace_back(StringPart{It->second.str(), true, false});
+      I += It->second.size();
       continue;
     }
+    llvm::StringRef Rest = Src.slice(I, End);
+    char Next = Rest.size() > 1 ? Rest[1] : '\'';
+    if (Rest.starts_with("''$")) {
+      AddEscape("$");
+      I += 3;
+    } else if (Rest.starts_with("'''")) {
+      AddEscape("''");
+      I += 3;
+    } else if (Rest.starts_with("''\\") && Rest.size() > 3) {
+      switch (Rest[3]) {
+      case 'n':
+        AddEscape("\n");
+        break;
+      case 'r':
+        AddEscape("\r");
+        break;
+      case 't':
+        AddEscape("\t");
+        break;
+      default:
+        AddEscape(Rest.substr(3, 1));
+      }
+      I += 4;
+    } else if ((Rest[0] == '\'' && (Next == '\'' || Next == '$')) ||
+               (Rest[0] == '$' && Next == '\'')) {
+      AddEscape(Rest.substr(0, 1));
+      I += 1;
+    } else {
+      // A quote or a dollar hides the meaning of the next character.
+      size_t N = Rest[0] == '\'' || Rest[0] == '$' ? 2 : 1;
+      AddChars(Rest.substr(0, N));
+      I += N;
+    }
+  }
+  return Parts;
+}
 
-    // Check for ${ that needs escaping
-    if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
-      Result += "''${";
-      ++I; // Skip the '{'
+/// \brief Remove the indentation common to all lines, as Nix does.
+void stripIndentation(std::vector<StringPart> &Parts) {
+  size_t Min = std::string::npos;
+  bool LineStart = true;
+  size_t Cur = 0;
+  auto EndIndentation = [&]() {
+    if (LineStart)
+      Min = std::min(Min, Cur);
+    LineStart = false;
+  };
+  for (const StringPart &P : Parts) {
+    if (P.IsInterpolation || P.IsEscape) {
+      EndIndentation();
       continue;
     }
+    for (char C : P.Text) {
+      if (C == '\n') {
+        LineStart = true;
+        Cur = 0;
+      } else if (LineStart && C == ' ') {
+        Cur++;
+      } else {
+        EndIndentation();
+      }
+    }
+  }
 
-    Result += C;
+  LineStart = true;
+  size_t Dropped = 0;
+  for (StringPart &P : Parts) {
+    if (P.IsInterpolation) {
+      LineStart = false;
+      Dropped = 0;
+      continue;
+    }
+    std::string Kept;
+    for (char C : P.Text) {
+      if (C == '\n') {
+        LineStart = true;
+        Dropped = 0;
+      } else if (LineStart && C == ' ') {
+        if (Dropped++ < Min)
+          continue;
+      } else {
+        LineStart = false;
+        Dropped = 0;
+      }
+      Kept += C;
+    }
+    P.Text = std::move(Kept);
   }
 
-  return Result;
+  // The last line is dropped if it is blank.
+  if (Parts.empty() || Parts.back().IsInterpolation)
+    return;
+  std::string &Last = Parts.back().Text;
+  size_t Newline = Last.find_last_of('\n');
+  if (Newline != std::string::npos &&
+      Last.find_first_not_of(' ', Newline + 1) == std::string::npos)
+    Last.resize(Newline + 1);
 }
 
-/// \brief Build a double-quoted string from InterpolatedParts.
-///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
-                                    llvm::StringRef Src) {
+/// \brief The value of a string literal.
+std::vector<StringPart> valueOf(const nixf::ExprString &Str,
+                                llvm::StringRef Src, bool IsIndented) {
+  std::vector<StringPart> Parts;
+  Interpolations Itps;
+  for (const auto &Frag : Str.parts().fragments()) {
+    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
+      Parts.emplace_back(StringPart{Frag.escaped(), false, false});
+      continue;
+    }
+    const nixf::Interpolation &Itp = Frag.interpolation();
+    llvm::StringRef ItpSrc = Itp.src(Src);
+    Itps.insert({Itp.lCur().offset(), ItpSrc});
+    Parts.emplace_back(StringPart{ItpSrc.str(), true, false});
+  }
+  if (IsIndented) {
+    Parts = splitIndented(Src, Str.lCur().offset() + 2,
+                          Str.rCur().offset() - 2, Itps);
+    stripIndentation(Parts);
+  }
+
+  // Join adjacent characters.
+  std::vector<StringPart> Joined;
+  for (StringPart &P : Parts) {
+    if (!P.IsInterpolation && !Joined.empty() && !Joined.back().IsInterpolation)
+      Joined.back().Text += P.Text;
+    else
+      Joined.emplace_back(std::move(P));
+  }
+  return Joined;
+}
+
+/// \brief Write a value as double-quoted string.
+std::string buildDoubleQuotedString(const std::vector<StringPart> &Parts) {
   std::string Result = "\"";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for double-quoted string
-      Result += escapeNixString(Frag.escaped());
+  for (const StringPart &P : Parts) {
+    if (P.IsInterpolation) {
+      // "$${" does not start an interpolation.
+      if (Result.back() == '$')
+        Result.insert(Result.size() - 1, "\\");
+      // Preserve source text exactly
+      Result += P.Text;
     } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+      Result += escapeNixString(P.Text);
     }
   }
 
@@ -78,29 +225,113 @@ std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
   return Result;
 }
 
-/// \brief Build an indented string from InterpolatedParts.
+/// \brief Find blanks which Nix would remove if they were written literally.
 ///
-/// Iterates through fragments, escaping text parts and preserving
-/// interpolations from source.
-std::string buildIndentedString(const nixf::InterpolatedParts &Parts,
-                                llvm::StringRef Src) {
-  std::string Result = "''";
+/// \return pairs of a part's index, and the offset into its text
+std::set<std::pair<size_t, size_t>>
+findStrippedBlanks(const std::vector<StringPart> &Parts) {
+  std::set<std::pair<size_t, size_t>> Blanks;
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for indented string
-      Result += escapeForIndentedString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+  // Indentation is preserved if some line has none.
+  std::optional<std::pair<size_t, size_t>> Indented;
+  bool HasFlushLine = false;
+  bool LineStart = true;
+  for (size_t I = 0; I < Parts.size(); I++) {
+    if (Parts[I].IsInterpolation) {
+      HasFlushLine |= LineStart;
+      LineStart = false;
+      continue;
+    }
+    for (size_t J = 0; J < Parts[I].Text.size(); J++) {
+      char C = Parts[I].Text[J];
+      if (LineStart && C == ' ' && !Indented)
+        Indented = {I, J};
+      HasFlushLine |= LineStart && C != ' ' && C != '\n';
+      LineStart = C == '\n';
+    }
+  }
+  if (Indented && !HasFlushLine)
+    Blanks.insert(*Indented);
+
+  // The last line is removed if it is blank.
+  if (!Parts.empty() && !Parts.back().IsInterpolation) {
+    const std::string &Last = Parts.back().Text;
+    size_t End = Last.find_last_not_of(' ');
+    if (End != std::string::npos && Last[End] == '\n' && End + 1 < Last.size())
+      Blanks.insert({Parts.size() - 1, Last.size() - 1});
+  }
+  return Blanks;
+}
+
+/// \brief Write a value as indented string.
+///
+/// Escapes:
+/// - '' -> ''' (two single quotes become three)
+/// - ${ -> ''${ (prevent interpolation)
+/// - quotes, dollars and blanks that would mean something else where they are
+std::string buildIndentedString(const std::vector<StringPart> &Parts) {
+  const auto Blanks = findStrippedBlanks(Parts);
+
+  // Escapes depend on what follows, thus go backwards.
+  std::vector<std::string> Pieces;
+  bool BeforeQuote = true; // Is the next character written a quote?
+  for (size_t I = Parts.size(); I-- > 0;) {
+    llvm::StringRef Text = Parts[I].Text;
+    if (Parts[I].IsInterpolation) {
+      Pieces.emplace_back(Text.str());
+      BeforeQuote = false;
+      continue;
+    }
+    for (size_t J = Text.size(); J > 0;) {
+      size_t Quotes = J - Text.substr(0, J).rtrim('\'').size();
+      char C = Text[--J];
+      std::string Piece;
+      if (C == '\'' && Quotes % 2 == 0) {
+        Piece = "'''";
+        J--;
+      } else if (C == '\'' && BeforeQuote) {
+        Piece = "''\\'";
+      } else if (C == ' ' && Blanks.count({I, J})) {
+        Piece = "''\\ ";
+      } else if (C == '$' && (J + 1 < Text.size() ? Text[J + 1] == '{'
+                                                  : I + 1 < Parts.size())) {
+        Piece = "''$";
+      } else {
+        Piece = C;
+      }
+      BeforeQuote = Piece[0] == '\'';
+      Pieces.emplace_back(std::move(Piece));
     }
   }
 
+  std::string Body;
+  for (auto It = Pieces.rbegin(); It != Pieces.rend(); ++It)
+    Body += *It;
+
+  std::string Result = "''";
+  // A blank line after the opening quotes would be ignored.
+  if (llvm::StringRef(Body).ltrim(' ').starts_with("\n"))
+    Result += "\n";
+  Result += Body;
   Result += "''";
   return Result;
 }
 
+/// \brief Make sure that the literal is not read together with its neighbours.
+///
+/// e.g. f"a" is an application, f''a'' is a name.
+std::string separate(std::string Literal, llvm::StringRef Src,
+                     const nixf::LexerCursorRange &Range) {
+  size_t Begin = Range.lCur().offset();
+  size_t End = Range.rCur().offset();
+  if (Begin > 0 && !llvm::isSpace(Src[Begin - 1]) &&
+      !llvm::StringRef("([{};").contains(Src[Begin - 1]))
+    Literal.insert(0, " ");
+  if (End < Src.size() && llvm::StringRef("'$\\").contains(Src[End]))
+    Literal += " ";
+  return Literal;
+}
+
 } // namespace
 
 void addRewriteStringAction(const nixf::Node &N,
@@ -128,11 +359,12 @@ void addRewriteStringAction(const nixf::Node &N,
 
   if (IsIndented) {
     // Convert indented -> double-quoted
-    NewText = buildDoubleQuotedString(Str.parts(), Src);
+    NewText = buildDoubleQuotedString(valueOf(Str, Src, IsIndented));
     Title = "Convert to double-quoted string";
   } else {
     // Convert double-quoted -> indented
-    NewText = buildIndentedString(Str.parts(), Src);
+    NewText = separate(buildIndentedString(valueOf(Str, Src, IsIndented)), Src,
+                       Str.range());
     Title = "Convert to indented string";
   }
 
-- 
2.43.0


From edab435a4bf06d469f694c7c769ffe896ecac9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 43/85] fix: JSON is converted to Nix of the same value

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 67 +++++++++++++++++--
 1 file changed, 62 insertions(+), 5 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..ed52642 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -4,16 +4,64 @@
 #include "JsonToNix.h"
 #include "Utils.h"
 
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/JSON.h>
+#include <llvm/Support/Regex.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
+#include <cmath>
+#include <cstdint>
 #include <iomanip>
+#include <limits>
 #include <sstream>
 
 namespace nixd {
 
 namespace {
 
+/// \brief Check that numbers are written as JSON requires.
+///
+/// llvm::json is more lenient, it accepts e.g. "+1", ".5" and "01".
+bool hasOnlyJsonNumbers(llvm::StringRef Text) {
+  static const llvm::Regex Number(
+      "^-?(0|[1-9][0-9]*)(\\.[0-9]+)?([eE][+-]?[0-9]+)?$");
+  for (size_t I = 0; I < Text.size();) {
+    if (Text[I] == '"') {
+      for (++I; I < Text.size() && Text[I] != '"'; ++I)
+        if (Text[I] == '\\')
+          ++I;
+      ++I;
+    } else if (llvm::isAlpha(Text[I])) {
+      I = Text.find_if_not(llvm::isAlpha, I);
+    } else if (llvm::isDigit(Text[I]) || Text[I] == '-' || Text[I] == '+' ||
+               Text[I] == '.') {
+      size_t End = Text.find_first_not_of("0123456789eE+-.", I);
+      if (!Number.match(Text.slice(I, End)))
+        return false;
+      I = End;
+    } else {
+      ++I;
+    }
+  }
+  return true;
+}
+
+/// \brief Convert a floating point number to a Nix literal.
+/// \return Nix expression string, or empty string on error
+std::string floatToNix(double D) {
+  if (!std::isfinite(D))
+    return "";
+  // Format floating point with enough precision
+  std::ostringstream SS;
+  SS << std::setprecision(17) << D;
+  std::string Out = SS.str();
+  // Nix requires a decimal point, "1e+30" would be an addition.
+  if (Out.find('.') == std::string::npos)
+    Out.insert(std::min(Out.find('e'), Out.size()), ".0");
+  return Out;
+}
+
 /// \brief Convert a JSON value to Nix expression syntax.
 /// \param V The JSON value to convert
 /// \param Indent Current indentation level (for pretty-printing)
@@ -33,13 +81,15 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
   } else if (auto B = V.getAsBoolean()) {
     Out = *B ? "true" : "false";
   } else if (auto I = V.getAsInteger()) {
-    Out = std::to_string(*I);
+    // The literal 9223372036854775808 is out of range.
+    Out = *I == std::numeric_limits<int64_t>::min()
+              ? "(-9223372036854775807 - 1)"
+              : std::to_string(*I);
   } else if (auto D = V.getAsNumber()) {
-    // Format floating point with enough precision
-    std::ostringstream SS;
-    SS << std::setprecision(17) << *D;
-    Out = SS.str();
+    Out = floatToNix(*D);
   } else if (auto S = V.getAsString()) {
+    if (S->contains('\0'))
+      return ""; // Not possible in Nix
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
     if (A->size() > MaxJsonWidth)
@@ -57,6 +107,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // Elements of a list are no operators.
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
@@ -77,6 +130,8 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
       Out = "{\n";
       size_t I = 0;
       for (const auto &KV : *O) {
+        if (KV.first.str().find('\0') != std::string::npos)
+          return ""; // Not possible in Nix
         std::string Key = quoteNixAttrKey(KV.first.str());
         std::string Val = jsonToNix(KV.second, Indent + 1, Depth + 1);
         if (Val.empty())
@@ -134,6 +189,8 @@ void addJsonToNixAction(llvm::StringRef Src, const lspserver::Range &Range,
     llvm::consumeError(JsonVal.takeError());
     return;
   }
+  if (!hasOnlyJsonNumbers(SelectedText))
+    return;
 
   // Skip empty JSON structures - already valid Nix
   if (const auto *A = JsonVal->getAsArray()) {
-- 
2.43.0


From 3de4a037a4f32735ed8925483b460824b8f467bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 44/85] fix: formatting survives any document and formatter

---
 nixd/lib/Controller/Format.cpp | 106 ++++++++++++++++++++++++---------
 1 file changed, 77 insertions(+), 29 deletions(-)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 7368e42..2bd3475 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -10,16 +10,80 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <boost/asio/post.hpp>
+
+#include <cerrno>
+#include <fcntl.h>
+#include <functional>
+#include <poll.h>
 #include <sys/wait.h>
+#include <system_error>
+#include <unistd.h>
 
 using namespace nixd;
 using namespace lspserver;
 
+namespace {
+
+/// \brief Write \p Input to \p In, and read everything from \p Out.
+///
+/// Do both at once, the process may well block on its output before it has
+/// read all of the input. Closes the file descriptors.
+std::string communicate(int In, int Out, int Err, llvm::StringRef Input) {
+  std::string Output;
+  fcntl(In, F_SETFL, O_NONBLOCK);
+  auto Close = [](pollfd &P) {
+    close(P.fd);
+    P.fd = -1; // ignored by poll(2)
+  };
+  pollfd Fds[] = {{In, POLLOUT, 0}, {Out, POLLIN, 0}, {Err, POLLIN, 0}};
+  if (Input.empty())
+    Close(Fds[0]);
+  while (Fds[1].fd != -1) {
+    if (poll(Fds, 3, -1) == -1) {
+      if (errno == EINTR)
+        continue;
+      break;
+    }
+    if (Fds[0].fd != -1 && Fds[0].revents) {
+      long Written = write(Fds[0].fd, Input.data(), Input.size());
+      if (Written > 0)
+        Input = Input.drop_front(Written);
+      // The process does not have to read its input.
+      if (Input.empty() || (Written < 0 && errno != EAGAIN && errno != EINTR))
+        Close(Fds[0]);
+    }
+    for (pollfd &P : {std::ref(Fds[1]), std::ref(Fds[2])}) {
+      if (P.fd == -1 || !P.revents)
+        continue;
+      char Buf[1024];
+      long Read = read(P.fd, Buf, sizeof(Buf));
+      if (Read > 0) {
+        if (&P == &Fds[1])
+          Output.append(Buf, Read);
+      } else if (Read == 0 || errno != EINTR) {
+        Close(P);
+      }
+    }
+  }
+  for (pollfd &P : Fds) {
+    if (P.fd != -1)
+      close(P.fd);
+  }
+  return Output;
+}
+
+} // namespace
+
 void Controller::onFormat(const DocumentFormattingParams &Params,
                           Callback<std::vector<TextEdit>> Reply) {
   auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
     lspserver::PathRef File = Params.textDocument.uri.file();
-    const std::string &Code = *Store.getDraft(File)->Contents;
+    const auto Draft = Store.getDraft(File);
+    if (!Draft) {
+      Reply(error("{0} is not open", File));
+      return;
+    }
+    const std::string &Code = *Draft->Contents;
     // Invokes another process and then read it's stdout.
     std::vector<std::string> FormatCommand;
     {
@@ -48,27 +112,24 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
     int Out;
     int Err;
 
-    pid_t Child = forkPiped(In, Out, Err);
+    pid_t Child;
+    try {
+      Child = forkPiped(In, Out, Err);
+    } catch (const std::system_error &E) {
+      Reply(error("cannot run formatting command: {0}", E.what()));
+      return;
+    }
     if (Child == 0) {
       execvp(Syscall[0], Syscall.data());
-      exit(-1);
+      _exit(-1);
     }
-    // Firstly, send the document to the process stdin.
-    // Invoke POSIX write(2) to do such thing.
-    const char *Start = Code.c_str();
-    const char *End = Code.c_str() + Code.size();
-    while (Start != End) {
-      if (long Writen = write(In, Start, End - Start); Writen != -1) {
-        Start += Writen;
-      } else {
-        throw std::system_error(errno, std::generic_category());
-      }
-    }
-    close(In);
+    // Send the document to the process's stdin, and read its stdout.
+    std::string Response = communicate(In, Out, Err, Code);
 
     // And, wait for the process.
     int Exit = 0;
-    waitpid(Child, &Exit, 0);
+    while (waitpid(Child, &Exit, 0) == -1 && errno == EINTR)
+      ;
 
     if (Exit != 0) {
       Reply(error("formatting {0} command exited with {1}", FormatCommand[0],
@@ -76,19 +137,6 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
-    // Okay, read stdout from it.
-    std::string Response;
-    while (true) {
-      char Buf[1024];
-      auto Read = read(Out, Buf, sizeof(Buf));
-      if (Read == 0)
-        break;
-      if (Read < 0)
-        throw std::system_error(errno, std::generic_category());
-      // Otherwise, append it to "response"
-      Response.append(Buf, Read);
-    }
-
     if (Response == Code) {
       Reply(std::vector<TextEdit>{});
       return;
-- 
2.43.0


From 777b98ad7c91b1c97293773bed8648af3dc75350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 45/85] fix: ignore empty configuration responses

---
 nixd/lib/Controller/Configuration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 65a8b91..ef03c93 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -95,12 +95,13 @@ void Controller::fetchConfig() {
     }
 
     // LSP response is a json array, just take the first.
-    if (Resp->kind() != llvm::json::Value::Array) {
+    const llvm::json::Array *Configs = Resp->getAsArray();
+    if (!Configs || Configs->empty()) {
       lspserver::elog("workspace/configuration response is not an array: {0}",
                       *Resp);
       return;
     }
-    const Value &FirstConfig = Resp->getAsArray()->front();
+    const Value &FirstConfig = Configs->front();
 
     // Run this job in the thread pool. Don't block input thread.
     auto ConfigAction = [this, FirstConfig]() mutable {
-- 
2.43.0


From a0ac969f101fd426913b5abe8bdf2c70395045a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 46/85] fix: published diagnostics are of the latest text and
 settings

---
 nixd/include/nixd/Controller/Controller.h | 10 +++++++++-
 nixd/lib/Controller/Configuration.cpp     | 10 +++++++---
 nixd/lib/Controller/Support.cpp           | 16 +++++++---------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index ac7e2de..6d6b1de 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -12,6 +12,8 @@
 
 #include <boost/asio/thread_pool.hpp>
 
+#include <atomic>
+#include <cstdint>
 #include <set>
 
 namespace nixd {
@@ -61,6 +63,10 @@ private:
 
   std::mutex ConfigLock;
   Configuration Config; // GUARDED_BY(ConfigLock)
+  /// Number of the response that \p Config is from.
+  uint64_t AppliedConfig = 0; // GUARDED_BY(ConfigLock)
+  /// Number of configuration responses received so far.
+  std::atomic<uint64_t> ReceivedConfigs = 0;
 
   llvm::unique_function<void(const lspserver::ConfigurationParams &,
                              lspserver::Callback<llvm::json::Value>)>
@@ -72,7 +78,9 @@ private:
   /// \brief Update the configuration, do necessary adjusting for updates.
   ///
   /// \example If asked to change eval settings, send eval requests to workers.
-  void updateConfig(Configuration NewConfig);
+  ///
+  /// \param Seq number of the response. Older configuration is ignored.
+  void updateConfig(Configuration NewConfig, uint64_t Seq);
 
   /// \brief Get configuration from LSP client. Update the config.
   void fetchConfig();
diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index ef03c93..e3984b2 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -53,8 +53,12 @@ void Controller::onDidChangeConfiguration(
   fetchConfig();
 }
 
-void Controller::updateConfig(Configuration NewConfig) {
+void Controller::updateConfig(Configuration NewConfig, uint64_t Seq) {
   std::lock_guard G(ConfigLock);
+  // Jobs of the thread pool may overtake each other.
+  if (Seq < AppliedConfig)
+    return;
+  AppliedConfig = Seq;
   Config = std::move(NewConfig);
 
   if (!Config.nixpkgs.expr.empty()) {
@@ -104,7 +108,7 @@ void Controller::fetchConfig() {
     const Value &FirstConfig = Configs->front();
 
     // Run this job in the thread pool. Don't block input thread.
-    auto ConfigAction = [this, FirstConfig]() mutable {
+    auto ConfigAction = [this, FirstConfig, Seq = ++ReceivedConfigs]() mutable {
       // Parse the config
       Configuration NewConfig;
       llvm::json::Path::Root P;
@@ -114,7 +118,7 @@ void Controller::fetchConfig() {
       }
 
       // OK, update the config
-      updateConfig(std::move(NewConfig));
+      updateConfig(std::move(NewConfig), Seq);
     };
 
     boost::asio::post(Pool, std::move(ConfigAction));
diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index d9c1670..816fcad 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -24,8 +24,8 @@ void Controller::actOnDocumentAdd(PathRef File,
                                   std::optional<int64_t> Version) {
   auto Action = [this, File = std::string(File), Version]() {
     auto Draft = Store.getDraft(File);
-    std::shared_ptr<const std::string> Src = Draft->Contents;
     assert(Draft && "Added document is not in the store?");
+    std::shared_ptr<const std::string> Src = Draft->Contents;
 
     std::vector<nixf::Diagnostic> Diagnostics;
     std::shared_ptr<nixf::Node> AST =
@@ -44,15 +44,13 @@ void Controller::actOnDocumentAdd(PathRef File,
     auto VLA = std::make_unique<nixf::VariableLookupAnalysis>(Diagnostics);
     VLA->runOnAST(*AST);
 
+    // Publish within the lock, otherwise diagnostics of the previous unit may
+    // be published later, see updateConfig().
+    std::lock_guard G(TUsLock);
     publishDiagnostics(File, Version, *Src, Diagnostics);
-
-    {
-      std::lock_guard G(TUsLock);
-      TUs.insert_or_assign(
-          File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
-                                        std::nullopt, std::move(VLA), Src));
-      return;
-    }
+    TUs.insert_or_assign(
+        File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
+                                      std::nullopt, std::move(VLA), Src));
   };
   Action();
 }
-- 
2.43.0


From 3604869c6a31ba733027c11cecdcf57fb0a5677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 47/85] fix: lengths of semantic tokens count UTF-16 code units

---
 nixd/lib/Controller/SemanticTokens.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/SemanticTokens.cpp b/nixd/lib/Controller/SemanticTokens.cpp
index 42716d9..ab6adb0 100644
--- a/nixd/lib/Controller/SemanticTokens.cpp
+++ b/nixd/lib/Controller/SemanticTokens.cpp
@@ -15,6 +15,7 @@
 #include <nixf/Sema/VariableLookup.h>
 
 #include <lspserver/Protocol.h>
+#include <lspserver/SourceCode.h>
 
 #include <boost/asio/post.hpp>
 
@@ -86,8 +87,9 @@ public:
     return N.range().lCur().line() != N.range().rCur().line();
   }
 
-  static unsigned len(const Node &N) {
-    return N.range().rCur().offset() - N.range().lCur().offset();
+  [[nodiscard]] unsigned len(const Node &N) const {
+    // In UTF-16 code units, as positions.
+    return lspserver::lspLength(N.src(Src));
   }
 
   void dfs(const ExprString &Str) {
-- 
2.43.0


From 88c788a7b9f1b71e60f091b065f57e0fa4d83c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 48/85] fix: extracting to a file decodes the URI of the
 document

---
 .../Controller/CodeActions/ExtractToFile.cpp  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 9d3fd9b..7b47a05 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -5,6 +5,7 @@
 #include "Utils.h"
 
 #include "../Convert.h"
+#include "lspserver/URI.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Expr.h>
@@ -189,14 +190,17 @@ std::string generateImportStatement(const std::string &Filename,
   return Import;
 }
 
-/// \brief Strip the "file://" scheme prefix from a URI if present.
+/// \brief The filesystem path denoted by a file URI.
 ///
-/// LSP URIs typically have the form "file:///path/to/file", but
-/// URIForFile::canonicalize expects a filesystem path without the scheme.
-std::string stripFileScheme(llvm::StringRef URI) {
-  if (URI.starts_with("file://"))
-    return URI.drop_front(7).str();
-  return URI.str();
+/// LSP URIs typically have the form "file:///path/to/file" with special
+/// characters percent-encoded, but URIForFile::canonicalize expects a
+/// filesystem path. Anything that is not a valid URI is returned as is.
+std::string fileOfURI(llvm::StringRef FileURI) {
+  llvm::Expected<std::string> Path = lspserver::URI::resolve(FileURI);
+  if (Path)
+    return std::move(*Path);
+  llvm::consumeError(Path.takeError());
+  return FileURI.str();
 }
 
 /// \brief Generate a unique filename by appending a numeric suffix if needed.
@@ -343,7 +347,7 @@ void addExtractToFileAction(const nixf::Node &N,
   std::string BaseFilename = generateFilename(*ExprNode, PM);
 
   // Build the directory path for the new file (same directory as source)
-  std::string SourceFilePath = stripFileScheme(FileURI);
+  std::string SourceFilePath = fileOfURI(FileURI);
   llvm::SmallString<256> Directory(SourceFilePath);
   llvm::sys::path::remove_filename(Directory);
 
-- 
2.43.0


From c12625a33183d24acf33b760cb86e024d70bc425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 49/85] fix: the configuration given on the command line is
 applied

---
 nixd/lib/Controller/LifeTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 0aac76d..d180949 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -189,7 +189,7 @@ void Controller::
                            "nixos options");
   }
   try {
-    Config = parseCLIConfig();
+    updateConfig(parseCLIConfig(), ReceivedConfigs);
   } catch (LLVMErrorException &Err) {
     lspserver::elog("parse CLI config error: {0}, {1}", Err.what(),
                     Err.takeError());
-- 
2.43.0


From 9bfbb53ded177437e2cb2b20ef2b48b16db06fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 50/85] fix: drive letters and backslashes in file URIs are
 special on Windows only

---
 nixd/lspserver/src/URI.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 8fee314..ed0fab0 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -44,12 +44,18 @@ public:
     if (!Authority.empty()) {
       // Windows UNC paths e.g. file://server/share => \\server\share
       ("//" + Authority).toVector(Path);
-    } else if (isWindowsPath(Body.substr(1))) {
+    } else if (llvm::sys::path::is_style_windows(
+                   llvm::sys::path::Style::native) &&
+               isWindowsPath(Body.substr(1))) {
       // Windows paths e.g. file:///X:/path => X:\path
       Body.consume_front("/");
     }
     Path.append(Body);
-    llvm::sys::path::native(Path);
+    // Elsewhere a backslash is a character of a name.
+    if (llvm::sys::path::is_style_windows(llvm::sys::path::Style::native))
+      llvm::sys::path::native(Path);
+    if (!llvm::sys::path::is_absolute(Path))
+      return error("File scheme: expect an absolute path: {0}", Path);
     return std::string(Path);
   }
 
-- 
2.43.0


From 221c5dd15f65821429630e203e8f6cf988fbf5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 51/85] fix: only values of bindings are nested in attribute
 paths

---
 nixd/lib/Controller/AST.cpp | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index baf0937..cde40df 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -53,36 +53,26 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (!Up)
     return;
 
-  Up = PM.upExpr(*Up);
-
-  if (!Up)
+  // Only values of bindings are nested. "N" may be a part of a dynamic name or
+  // of an inherit, too.
+  if (Up->kind() != Node::NK_Binding)
     return;
+  const auto &Binding = static_cast<const nixf::Binding &>(*Up);
+  if (Binding.value().get() != &N)
+    return;
+
+  Up = PM.upExpr(*Up);
 
   // Only attrs can "nest something"
-  if (Up->kind() != Node::NK_ExprAttrs)
+  if (!Up || Up->kind() != Node::NK_ExprAttrs)
     return;
 
-  std::vector<std::string_view> Basic;
   // Recursively search up all nested entries
   if (!PM.isRoot(*Up))
     getValueAttrPath(*Up, PM, Path);
 
   // Find out how "N" gets nested.
-  const auto &UpAttrs = static_cast<const nixf::ExprAttrs &>(*Up);
-  assert(UpAttrs.binds() && "empty binds cannot nest anything!");
-  for (const std::shared_ptr<nixf::Node> &Attr : UpAttrs.binds()->bindings()) {
-    assert(Attr);
-    if (Attr->kind() == Node::NK_Inherit) // Cannot deal with inherits
-      continue;
-    assert(Attr->kind() == Node::NK_Binding);
-    const auto &Binding = static_cast<const nixf::Binding &>(*Attr);
-    if (Binding.value().get() == &N) {
-      getSelectAttrPath(*Binding.path().names().back(), PM, Path);
-      return;
-    }
-  }
-  assert(false && "must have corresbonding value");
-  __builtin_unreachable();
+  getSelectAttrPath(*Binding.path().names().back(), PM, Path);
 }
 
 void getNestedAttrPath(const nixf::AttrName &N,
-- 
2.43.0


From 0ee03154e3ffae91c89e61509172c12aaa414813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 52/85] fix: a location which isn't 'file:line' does not kill
 the server

---
 nixd/lib/Controller/Definition.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 05a1074..d47e357 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -18,6 +18,7 @@
 
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
+#include <llvm/Support/Path.h>
 
 #include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Basic.h>
@@ -26,6 +27,7 @@
 #include <nixf/Sema/ParentMap.h>
 #include <nixf/Sema/VariableLookup.h>
 
+#include <algorithm>
 #include <exception>
 #include <semaphore>
 
@@ -158,7 +160,7 @@ struct NoLocationsFoundInNixpkgsException : std::exception {
   }
 };
 
-class WorkerReportedException : std::exception {
+class WorkerReportedException : public std::exception {
   llvm::Error E;
 
 public:
@@ -179,18 +181,20 @@ class NixpkgsDefinitionProvider {
   AttrSetClient &NixpkgsClient;
 
   /// \brief Parse nix-rolled location: file:line -> lsp Location
-  static Location parseLocation(std::string_view Position) {
-    // Firstly, find ":"
-    auto Pos = Position.find_first_of(':');
-    if (Pos == std::string_view::npos) {
-      return Location{
-          .uri = URIForFile::canonicalize(Position, Position),
-          .range = {{0, 0}, {0, 0}},
-      };
+  ///
+  /// "meta.position" may be anything, throws if it isn't such a location.
+  static Location parseLocation(llvm::StringRef Position) {
+    llvm::StringRef File = Position;
+    lspserver::Position P{0, 0};
+    // Firstly, find ":". There might be some in the name of the file.
+    int Line;
+    if (auto [Name, LineStr] = Position.rsplit(':');
+        !LineStr.getAsInteger(10, Line)) {
+      File = Name;
+      P.line = std::max(Line, 0);
     }
-    int PosL = std::stoi(std::string(Position.substr(Pos + 1)));
-    lspserver::Position P{PosL, 0};
-    std::string_view File = Position.substr(0, Pos);
+    if (!llvm::sys::path::is_absolute(File))
+      throw NoLocationsFoundInNixpkgsException();
     return Location{
         .uri = URIForFile::canonicalize(File, File),
         .range = {P, P},
@@ -323,7 +327,7 @@ Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
   // Maybe more data-flow analysis will be added though.
   try {
     return defineNixpkgsSelector(mkSelector(Sel, VLA, PM), NixpkgsClient);
-  } catch (IdiomSelectorException &E) {
+  } catch (std::exception &E) {
     elog("defintion/idiom/selector: {0}", E.what());
   }
   return {};
-- 
2.43.0


From d1aacd3e58a8ad80dfe148471cced34bcbd63d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 53/85] fix: completion items which aren't objects are refused

---
 nixd/lspserver/src/Protocol.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6ba5110..592ac86 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1209,11 +1209,12 @@ llvm::json::Value toJSON(const CompletionItem &CI) {
 bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  int Kind;
-  if (!O.mapOptional("kind", Kind))
+  int Kind = static_cast<int>(R.kind);
+  if (!O || !O.mapOptional("kind", Kind))
     return false;
   R.kind = static_cast<CompletionItemKind>(Kind);
 
+  Kind = static_cast<int>(R.insertTextFormat);
   if (!O.mapOptional("insertTextFormat", Kind))
     return false;
   R.insertTextFormat = static_cast<InsertTextFormat>(Kind);
-- 
2.43.0


From a4f5eb7b5cd21d65f1802c1e6a78462be27de863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 54/85] fix: a second 'initialize' is refused

---
 nixd/include/nixd/Controller/Controller.h | 1 +
 nixd/lib/Controller/LifeTime.cpp          | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 6d6b1de..608529a 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -180,6 +180,7 @@ private:
 
   void onInitialized(const lspserver::InitializedParams &Params);
 
+  bool ReceivedInitialize = false;
   bool ReceivedShutdown = false;
 
   void onShutdown(const lspserver::NoParams &,
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index d180949..8f80371 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -15,6 +15,8 @@
 
 #include <llvm/Support/CommandLine.h>
 
+#include <utility>
+
 using namespace nixd;
 using namespace util;
 using namespace llvm::json;
@@ -88,6 +90,13 @@ void Controller::
         [[maybe_unused]] const InitializeParams &Params,
         Callback<Value> Reply) {
 
+  // Jobs may be using the workers, they cannot be launched again.
+  if (std::exchange(ReceivedInitialize, true)) {
+    Reply(llvm::make_error<LSPError>("the server is initialized already",
+                                     ErrorCode::InvalidRequest));
+    return;
+  }
+
   Object ServerCaps{
       {{"textDocumentSync",
         llvm::json::Object{
-- 
2.43.0


From e9243ebc934fc2925bd4532cf7f1ab5a25c33f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 55/85] fix: the name of a config section is completed as is

---
 nixd/lib/Controller/AST.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index cde40df..6da19ae 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -327,7 +327,9 @@ nixd::findAttrPathForOptions(const nixf::Node &N,
   if (R == FindAttrPathResult::OK) {
     // FIXME: Only do this in NixOS module files and in flakes only in module
     // functions passed to nixpkgs.lib.nixosSystem.
-    if (!Path.empty() && Path[0] == "config") {
+    //
+    // "config" itself is not below any config section.
+    if (Path.size() > 1 && Path[0] == "config") {
       Path.erase(Path.begin());
     }
   }
-- 
2.43.0


From 5700418601e873be11a2585acd5ec39a06fbf02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 56/85] fix: attribute paths are found through parentheses,
 with, let, assert and if

---
 nixd/lib/Controller/AST.cpp | 39 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index 6da19ae..fa6d97a 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -43,9 +43,46 @@ void getSelectAttrPath(const nixf::AttrName &N,
   }
 }
 
+/// \brief Find the outermost expression that has the value of \p N.
+/// e.g.   (with lib; { })
+///        ^~~~~~~~~~~~~~~<- { }
+const nixf::Node &upSameValue(const nixf::Node &N,
+                              const nixf::ParentMapAnalysis &PM) {
+  const nixf::Node *Up = PM.query(N);
+  if (!Up || PM.isRoot(N))
+    return N;
+  auto HasValueOf = [&N](const auto &E, auto... Values) {
+    return ((static_cast<const nixf::Node *>((E.*Values)()) == &N) || ...);
+  };
+  bool Same = false;
+  switch (Up->kind()) {
+  case Node::NK_ExprParen:
+    Same = HasValueOf(static_cast<const ExprParen &>(*Up), &ExprParen::expr);
+    break;
+  case Node::NK_ExprWith:
+    Same = HasValueOf(static_cast<const ExprWith &>(*Up), &ExprWith::expr);
+    break;
+  case Node::NK_ExprLet:
+    Same = HasValueOf(static_cast<const ExprLet &>(*Up), &ExprLet::expr);
+    break;
+  case Node::NK_ExprAssert:
+    Same = HasValueOf(static_cast<const ExprAssert &>(*Up), &ExprAssert::value);
+    break;
+  case Node::NK_ExprIf:
+    Same = HasValueOf(static_cast<const ExprIf &>(*Up), &ExprIf::then,
+                      &ExprIf::elseExpr);
+    break;
+  default:
+    break;
+  }
+  return Same ? upSameValue(*Up, PM) : N;
+}
+
 /// \copydoc getSelectAttrPath
-void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
+void getValueAttrPath(const nixf::Node &Value,
+                      const nixf::ParentMapAnalysis &PM,
                       std::vector<std::string> &Path) {
+  const nixf::Node &N = upSameValue(Value, PM);
   if (PM.isRoot(N))
     return;
 
-- 
2.43.0


From b26aa622db3ff8144ed5156e76a1d4e0c526ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 57/85] fix: options are looked up at names only

---
 nixd/lib/Controller/AST.cpp        | 4 ++++
 nixd/lib/Controller/Definition.cpp | 2 +-
 nixd/lib/Controller/Hover.cpp      | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index fa6d97a..1c9665b 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -340,6 +340,10 @@ nixd::FindAttrPathResult nixd::findAttrPath(const nixf::Node &N,
     }
   }
 
+  // Only a place between the bindings starts a new path.
+  if (N.kind() != Node::NK_Binds && N.kind() != Node::NK_ExprAttrs)
+    return R::NotAttrPath;
+
   if (const Node *Expr = PM.upExpr(N)) {
     if (Expr->kind() == Node::NK_ExprAttrs) {
       try {
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index d47e357..49edd89 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -291,7 +291,7 @@ Locations defineAttrPath(const Node &N, const ParentMapAnalysis &PM,
   std::vector<std::string> Scope;
   auto R = findAttrPathForOptions(N, PM, Scope);
   Locations Locs;
-  if (R == PathResult::OK) {
+  if (R == PathResult::OK && !Scope.back().empty()) {
     // For each option worker, try to get it's decl position.
     for (const auto &[_, Client] : Options) {
       OptionsDefinitionProvider ODP(*Client);
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 324c45a..42ac6f6 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -240,7 +240,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
           // Try to get hover info from options.
           auto Scope = std::vector<std::string>();
           const auto R = findAttrPathForOptions(N, PM, Scope);
-          if (R == FindAttrPathResult::OK) {
+          if (R == FindAttrPathResult::OK && !Scope.back().empty()) {
             for (const auto &[_, C] : optionClients()) {
               OptionsHoverProvider OHP(*C);
               std::optional<OptionDescription> Desc = OHP.resolveHover(Scope);
-- 
2.43.0


From c89a5103138b38fcff7b57835fc21edbab76417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 58/85] fix: hovering over options does not need nixpkgs

---
 nixd/lib/Controller/Hover.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 42ac6f6..f8ccb5d 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -221,8 +221,9 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
 
       const auto &UpExpr = *CheckDefault(PM.upExpr(N));
 
-      // Try to get hover info from nixpkgs.
-      if (auto *Client = nixpkgsClient(); Client) {
+      // Try to get hover info from nixpkgs. Options do not need it.
+      if (auto *Client = nixpkgsClient();
+          Client || UpExpr.kind() == Node::NK_ExprAttrs) {
         switch (UpExpr.kind()) {
         case Node::NK_ExprVar: {
           const auto &Var = static_cast<const ExprVar &>(UpExpr);
-- 
2.43.0


From 3a0dc4089c8558668dc9c58215de11654f35a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 59/85] fix: selections are completed up to the cursor only

---
 nixd/lib/Controller/Completion.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index e79d9ed..a00a189 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -413,15 +413,15 @@ void completeVarName(const lspserver::Range EditRange,
 }
 
 /// \brief Complete a "select" expression.
-/// \param IsComplete Whether or not the last element of the selector is
-/// effectively incomplete.
+/// \param N The name, or the dot, to complete at. Names after it do not matter.
 /// e.g.
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
 void completeSelect(const lspserver::Range EditRange,
-                    const nixf::ExprSelect &Select, AttrSetClient *Client,
+                    const nixf::ExprSelect &Select, const nixf::Node &N,
+                    AttrSetClient *Client,
                     const nixf::VariableLookupAnalysis &VLA,
-                    const nixf::ParentMapAnalysis &PM, bool IsComplete,
+                    const nixf::ParentMapAnalysis &PM,
                     std::vector<CompletionItem> &List) {
 #define DBGPREFIX "completion/select"
   // The base expr for selecting.
@@ -441,8 +441,17 @@ void completeSelect(const lspserver::Range EditRange,
   NixpkgsCompletionProvider NCP(*Client);
 
   try {
-    Selector Sel =
-        idioms::mkSelector(Select, idioms::mkVarSelector(Var, VLA, PM));
+    Selector Sel = idioms::mkVarSelector(Var, VLA, PM);
+    const bool IsComplete = N.kind() == Node::NK_Dot;
+    if (Select.path()) {
+      for (const auto &Name : Select.path()->names()) {
+        if (Name->rCur().offset() > N.rCur().offset())
+          break;
+        if (!Name->isStatic())
+          throw idioms::DynamicNameException();
+        Sel.emplace_back(Name->staticName());
+      }
+    }
     NCP.completePackages(EditRange, mkParams(Sel, IsComplete), List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
@@ -498,8 +507,8 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, nixpkgsClient(), VLA, PM,
-                           N.kind() == Node::NK_Dot, List.items);
+            completeSelect(EditRange, Select, N, nixpkgsClient(), VLA, PM,
+                           List.items);
             return List;
           }
           case Node::NK_ExprAttrs: {
-- 
2.43.0


From 47be95af4f71f10a0d49d65a48b0461e01485913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 60/85] fix: names that are no attributes of a with are not
 completed from nixpkgs

---
 nixd/lib/Controller/Completion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index a00a189..db6966f 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -392,12 +392,13 @@ void completeVarName(const lspserver::Range EditRange,
 
   // Try to complete the name by known idioms.
   try {
-    Selector Sel = idioms::mkVarSelector(N, VLA, PM);
-
-    // Clickling "pkgs" does not make sense for variable completion
-    if (Sel.empty() || !Client)
+    // Only names taken from "with" are known by nixpkgs.
+    using ResultKind = VariableLookupAnalysis::LookupResultKind;
+    if (!Client || VLA.query(N).Kind != ResultKind::FromWith)
       return;
 
+    Selector Sel = idioms::mkVarSelector(N, VLA, PM);
+
     // Invoke nixpkgs provider to get the completion list.
     NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
-- 
2.43.0


From 4a45c0868dce125967bd4b1e69ca469402bf8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 61/85] fix: inlay hints ask for the packages that variables
 are taken from

---
 nixd/lib/Controller/InlayHints.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index f67c181..2603fa2 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -25,6 +25,8 @@
 #include <llvm/ADT/StringRef.h>
 #include <llvm/Support/CommandLine.h>
 
+#include <exception>
+#include <optional>
 #include <semaphore>
 
 using namespace nixd;
@@ -56,6 +58,19 @@ class NixpkgsInlayHintsProvider {
 
   llvm::StringRef Src;
 
+  /// The path of the package that \p Var is, if it is taken from "with".
+  std::optional<Selector> packageSelector(const ExprVar &Var) {
+    using ResultKind = VariableLookupAnalysis::LookupResultKind;
+    if (VLA.query(Var).Kind != ResultKind::FromWith ||
+        !havePackageScope(Var, VLA, PMA))
+      return std::nullopt;
+    try {
+      return idioms::mkVarSelector(Var, VLA, PMA);
+    } catch (std::exception &) {
+      return std::nullopt; // Taken from something else.
+    }
+  }
+
 public:
   NixpkgsInlayHintsProvider(AttrSetClient &NixpkgsProvider,
                             const VariableLookupAnalysis &VLA,
@@ -72,14 +87,14 @@ public:
     if (!N)
       return;
     if (N->kind() == Node::NK_ExprVar) {
-      if (havePackageScope(*N, VLA, PMA)) {
+      const auto &Var = static_cast<const ExprVar &>(*N);
+      if (std::optional<Selector> Sel = packageSelector(Var)) {
         if (!rangeOK(N->positionRange()))
           return;
         // Ask nixpkgs eval to provide it's information.
         // This is relatively slow. Maybe better query a set of packages in the
         // future?
         std::binary_semaphore Ready(0);
-        const std::string &Name = static_cast<const ExprVar &>(*N).id().name();
         AttrPathInfoResponse R;
         auto OnReply = [&Ready, &R](llvm::Expected<AttrPathInfoResponse> Resp) {
           if (!Resp) {
@@ -89,7 +104,7 @@ public:
           R = *Resp;
           Ready.release();
         };
-        NixpkgsProvider.attrpathInfo({Name}, std::move(OnReply));
+        NixpkgsProvider.attrpathInfo(*Sel, std::move(OnReply));
         Ready.acquire();
 
         if (const std::optional<std::string> &Version = R.PackageDesc.Version) {
-- 
2.43.0


From de11bdf300fe4e0ef0b6ebcb47e9fc11ee03e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 62/85] fix: attributes with an empty name are not offered by
 completion

---
 nixd/lib/Controller/Completion.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index db6966f..a5f068e 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -42,6 +42,9 @@ struct ExceedSizeError : std::exception {
 };
 
 void addItem(std::vector<CompletionItem> &Items, CompletionItem Item) {
+  // Labels are required. Attributes may be named "", though.
+  if (Item.label.empty())
+    return;
   if (Items.size() >= MaxCompletionSize) {
     throw ExceedSizeError();
   }
-- 
2.43.0


From 9ceda99ae0d79f3c701e17081329e9377f9108e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 63/85] fix: sets within dynamic names and inherits have paths
 of their own

---
 nixd/lib/Controller/AST.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index 1c9665b..88174ff 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -120,6 +120,17 @@ void getNestedAttrPath(const nixf::AttrName &N,
   getSelectAttrPath(N, PM, Path);
 }
 
+/// \brief Search up for \p Kind, but stay in the innermost expression.
+const Node *upWithinExpr(const Node &N, Node::NodeKind Kind,
+                         const ParentMapAnalysis &PM) {
+  if (N.kind() == Kind)
+    return &N;
+  const Node *Up = PM.query(N);
+  if (Expr::isExpr(N.kind()) || !Up || PM.isRoot(N))
+    return nullptr;
+  return upWithinExpr(*Up, Kind, PM);
+}
+
 } // namespace
 
 [[nodiscard]] const EnvNode *nixd::upEnv(const nixf::Node &Desc,
@@ -312,10 +323,10 @@ nixd::FindAttrPathResult nixd::findAttrPath(const nixf::Node &N,
                                             std::vector<std::string> &Path) {
   using R = nixd::FindAttrPathResult;
   // If this is in "inherit", don't consider it is an attrpath.
-  if (PM.upTo(N, Node::NK_Inherit))
+  if (upWithinExpr(N, Node::NK_Inherit, PM))
     return R::Inherit;
 
-  if (const Node *Name = PM.upTo(N, Node::NK_AttrName)) {
+  if (const Node *Name = upWithinExpr(N, Node::NK_AttrName, PM)) {
     try {
       getNestedAttrPath(static_cast<const AttrName &>(*Name), PM, Path);
     } catch (AttrPathHasDynamicError &E) {
@@ -325,7 +336,7 @@ nixd::FindAttrPathResult nixd::findAttrPath(const nixf::Node &N,
   }
 
   // Consider this is an "extra" dot.
-  if (const Node *DotNode = PM.upTo(N, Node::NK_Dot)) {
+  if (const Node *DotNode = upWithinExpr(N, Node::NK_Dot, PM)) {
     const auto &D = static_cast<const Dot &>(*DotNode);
 
     if (D.prev().kind() != Node::NK_AttrName)
-- 
2.43.0


From 2643b0769cc1ac57cf6108f636e4c0803f6ba9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 64/85] fix: the dot of a selection is found by its position

---
 libnixf/include/nixf/Basic/Nodes/Expr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Expr.h b/libnixf/include/nixf/Basic/Nodes/Expr.h
index 2616565..5154640 100644
--- a/libnixf/include/nixf/Basic/Nodes/Expr.h
+++ b/libnixf/include/nixf/Basic/Nodes/Expr.h
@@ -35,7 +35,9 @@ public:
   [[nodiscard]] AttrPath *path() const { return Path.get(); }
 
   [[nodiscard]] ChildVector children() const override {
-    return {E.get(), Path.get(), Default.get()};
+    // The dot is a child where nothing follows that it belongs to.
+    Node *Selected = Path ? static_cast<Node *>(Path.get()) : Do.get();
+    return {E.get(), Selected, Default.get()};
   }
 };
 
-- 
2.43.0


From 2b58467ed001a574753d89f97af050c3e42aa238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 65/85] fix: completion offers each name that a variable may
 have once

---
 nixd/lib/Controller/Completion.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index a5f068e..7ca8722 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -5,6 +5,7 @@
 
 #include "AST.h"
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 
 #include "lspserver/Protocol.h"
@@ -75,17 +76,31 @@ class VLACompletionProvider {
     return CompletionItemKind::Variable;
   }
 
+  /// Whether \p Name is bound by some env enclosed in \p Env, up to \p Inner.
+  static bool isShadowed(const std::string &Name, const EnvNode *Env,
+                         const EnvNode *Inner) {
+    for (; Inner && Inner != Env; Inner = Inner->parent()) {
+      if (Inner->defs().contains(Name))
+        return true;
+    }
+    return false;
+  }
+
   /// Collect definition on some env, and also it's ancestors.
   void collectDef(std::vector<CompletionItem> &Items, const EnvNode *Env,
-                  const std::string &Prefix) {
+                  const std::string &Prefix, const EnvNode *Inner) {
     if (!Env)
       return;
-    collectDef(Items, Env->parent(), Prefix);
+    collectDef(Items, Env->parent(), Prefix, Inner);
     for (const auto &[Name, Def] : Env->defs()) {
-      if (Name.starts_with(
+      assert(Def);
+      if (Def->isBuiltin() &&
+          Name.starts_with(
               "__")) // These names are nix internal implementation, skip.
         continue;
-      assert(Def);
+      // Variables are identifiers, and the innermost binding is referred to.
+      if (!isValidNixIdentifier(Name) || isShadowed(Name, Env, Inner))
+        continue;
       if (Name.starts_with(Prefix)) {
         addItem(Items, CompletionItem{
                            .label = Name,
@@ -102,7 +117,8 @@ public:
   void complete(const nixf::ExprVar &Desc, std::vector<CompletionItem> &Items,
                 const ParentMapAnalysis &PM) {
     std::string Prefix = Desc.id().name();
-    collectDef(Items, upEnv(Desc, VLA, PM), Prefix);
+    const EnvNode *Env = upEnv(Desc, VLA, PM);
+    collectDef(Items, Env, Prefix, Env);
   }
 };
 
-- 
2.43.0


From a9e9b5b33fc9e459f30555bcd1e53ef6b0cb2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 66/85] fix: completion inserts names that need quotes quoted

---
 nixd/lib/Controller/Completion.cpp | 36 +++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 7ca8722..7501c8a 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -52,6 +52,12 @@ void addItem(std::vector<CompletionItem> &Items, CompletionItem Item) {
   Items.emplace_back(std::move(Item));
 }
 
+/// Whether \p Name can be written as a variable.
+bool isVariableName(const std::string &Name) {
+  return isValidNixIdentifier(Name) || Name == "true" || Name == "false" ||
+         Name == "null";
+}
+
 bool hasConcreteChild(const Node &N) {
   for (const Node *Child : N.children()) {
     if (Child)
@@ -99,7 +105,7 @@ class VLACompletionProvider {
               "__")) // These names are nix internal implementation, skip.
         continue;
       // Variables are identifiers, and the innermost binding is referred to.
-      if (!isValidNixIdentifier(Name) || isShadowed(Name, Env, Inner))
+      if (!isVariableName(Name) || isShadowed(Name, Env, Inner))
         continue;
       if (Name.starts_with(Prefix)) {
         addItem(Items, CompletionItem{
@@ -161,7 +167,7 @@ public:
 
   /// \brief Ask nixpkgs provider, give us a list of names. (thunks)
   void completePackages(const lspserver::Range EditRange,
-                        const AttrPathCompleteParams &Params,
+                        const AttrPathCompleteParams &Params, bool AsVariable,
                         std::vector<CompletionItem> &Items) {
     std::binary_semaphore Ready(0);
     std::vector<std::string> Names;
@@ -180,12 +186,17 @@ public:
     Ready.acquire();
     // Now we have "Names", use these to fill "Items".
     for (const auto &Name : Names) {
+      // Variables are identifiers.
+      if (AsVariable && !isVariableName(Name))
+        continue;
       if (Name.starts_with(Params.Prefix)) {
         addItem(Items, CompletionItem{
                            .label = Name,
                            .kind = CompletionItemKind::Field,
                            .textEdit = lspserver::TextEdit{.range = EditRange,
-                                                           .newText = Name},
+                                                           .newText =
+                                                               quoteNixAttrKey(
+                                                                   Name)},
                            .data = llvm::formatv("{0}", toJSON(Params)),
                        });
       }
@@ -227,8 +238,9 @@ class OptionCompletionProvider {
       return;
     }
     Item.insertTextFormat = InsertTextFormat::Snippet;
-    Item.insertText = Name + " = " +
-                      "${1:" + escapeCharacters({'\\', '$', '}'}, Value) + "}" +
+    const std::set<char> Special{'\\', '$', '}'};
+    Item.insertText = escapeCharacters(Special, Name) + " = " +
+                      "${1:" + escapeCharacters(Special, Value) + "}" +
                       ";";
   }
 
@@ -270,12 +282,14 @@ public:
       return lspserver::TextEdit{.range = EditRange, .newText = NewText.str()};
     };
     for (const nixd::OptionField &Field : Names) {
+      const std::string Key = quoteNixAttrKey(Field.Name);
       if (!Field.Description) {
         addItem(Items, CompletionItem{
                            .label = Field.Name,
                            .kind = OptionAttrKind,
                            .detail = ModuleOrigin,
-                           .textEdit = MkTextEdit(Field.Name),
+                           .insertText = Key != Field.Name ? Key : "",
+                           .textEdit = MkTextEdit(Key),
                        });
         continue;
       }
@@ -325,7 +339,7 @@ public:
             .sortText = (SortPrefix + Field.Name).str(),
             .filterText = Field.Name,
         };
-        fillInsertText(Item, Field.Name, Value);
+        fillInsertText(Item, Key, Value);
         Item.textEdit = MkTextEdit(Item.insertText);
         addItem(Items, std::move(Item));
       };
@@ -348,7 +362,7 @@ public:
             .detail = TypeDetail,
             .documentation = Doc,
         };
-        fillInsertText(Item, Field.Name, "");
+        fillInsertText(Item, Key, "");
         Item.textEdit = MkTextEdit(Item.insertText);
         addItem(Items, std::move(Item));
       }
@@ -421,7 +435,8 @@ void completeVarName(const lspserver::Range EditRange,
     // Invoke nixpkgs provider to get the completion list.
     NixpkgsCompletionProvider NCP(*Client);
     // Variable names are always incomplete.
-    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
+    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false),
+                         /*AsVariable=*/true, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
@@ -472,7 +487,8 @@ void completeSelect(const lspserver::Range EditRange,
         Sel.emplace_back(Name->staticName());
       }
     }
-    NCP.completePackages(EditRange, mkParams(Sel, IsComplete), List);
+    NCP.completePackages(EditRange, mkParams(Sel, IsComplete),
+                         /*AsVariable=*/false, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
-- 
2.43.0


From 6028d9130662a6190a15ba561ba6edca982aa6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 67/85] fix: names that a scope binds are not offered as those
 of a with, too

---
 nixd/lib/Controller/Completion.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 7501c8a..f2c5fda 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -17,6 +17,7 @@
 
 #include <boost/asio/post.hpp>
 
+#include <algorithm>
 #include <exception>
 #include <semaphore>
 #include <set>
@@ -186,8 +187,12 @@ public:
     Ready.acquire();
     // Now we have "Names", use these to fill "Items".
     for (const auto &Name : Names) {
-      // Variables are identifiers.
-      if (AsVariable && !isVariableName(Name))
+      // Variables are identifiers, and those bound by a scope shadow these.
+      if (AsVariable &&
+          (!isVariableName(Name) ||
+           std::ranges::any_of(Items, [&](const CompletionItem &Item) {
+             return Item.label == Name;
+           })))
         continue;
       if (Name.starts_with(Params.Prefix)) {
         addItem(Items, CompletionItem{
-- 
2.43.0


From c55b8a29e043f1c410fb8f67d4866d78d88de7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 68/85] fix: unquoting an attribute name keeps it apart from
 what follows

---
 nixd/lib/Controller/CodeActions/AttrName.cpp | 35 +++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/AttrName.cpp b/nixd/lib/Controller/CodeActions/AttrName.cpp
index fa76862..c5b4d91 100644
--- a/nixd/lib/Controller/CodeActions/AttrName.cpp
+++ b/nixd/lib/Controller/CodeActions/AttrName.cpp
@@ -8,8 +8,33 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <llvm/ADT/StringExtras.h>
+
 namespace nixd {
 
+namespace {
+
+bool isIdentifierChar(char C) {
+  return llvm::isAlnum(C) || C == '_' || C == '-' || C == '\'';
+}
+
+/// \brief Would an identifier ending right before \p Rest be read as a part of
+/// a longer token, i.e. a longer identifier or a path?
+bool mergesWith(llvm::StringRef Rest) {
+  if (Rest.empty())
+    return false;
+  if (isIdentifierChar(Rest[0]))
+    return true;
+  auto IsPathChar = [](char C) {
+    return llvm::isAlnum(C) || C == '_' || C == '-' || C == '.' || C == '+';
+  };
+  Rest = Rest.drop_while(IsPathChar);
+  return Rest.size() > 1 && Rest[0] == '/' &&
+         (IsPathChar(Rest[1]) || Rest[1] == '$');
+}
+
+} // namespace
+
 void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
                         const std::string &FileURI, llvm::StringRef Src,
                         std::vector<lspserver::CodeAction> &Actions) {
@@ -30,10 +55,18 @@ void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     // Offer to unquote if valid identifier: "foo" -> foo
     const std::string &Name = AN.staticName();
     if (isValidNixIdentifier(Name)) {
+      // The name must not become a part of what stands next to it.
+      std::string NewText = Name;
+      size_t Begin = AN.lCur().offset();
+      if (Begin > 0 && isIdentifierChar(Src[Begin - 1]))
+        NewText = " " + NewText;
+      if (mergesWith(Src.substr(AN.rCur().offset())))
+        NewText += " ";
       Actions.emplace_back(
           createSingleEditAction("Unquote attribute name",
                                  lspserver::CodeAction::REFACTOR_REWRITE_KIND,
-                                 FileURI, toLSPRange(Src, AN.range()), Name));
+                                 FileURI, toLSPRange(Src, AN.range()),
+                                 std::move(NewText)));
     }
   }
 }
-- 
2.43.0


From 3d8262ba067d6746098c3b8190d4f5addcd8dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 69/85] fix: an inherited name becomes a binding of the same
 value, or none

---
 .../CodeActions/InheritToBinding.cpp          | 42 ++++++++++++++++++-
 nixd/lib/Controller/CodeActions/Utils.cpp     | 30 +++++++++++++
 nixd/lib/Controller/CodeActions/Utils.h       |  8 ++++
 3 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
index faa5fbe..336a0c3 100644
--- a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
+++ b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
@@ -7,11 +7,34 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Expr.h>
 
 #include <sstream>
 
 namespace nixd {
 
+namespace {
+
+/// \brief Can ".name" be appended to the expression as it is written?
+bool canBeSelectedFrom(const nixf::Expr &E, llvm::StringRef Src) {
+  switch (E.kind()) {
+  case nixf::Node::NK_ExprVar:
+  case nixf::Node::NK_ExprParen:
+  case nixf::Node::NK_ExprAttrs:
+    return true;
+  case nixf::Node::NK_ExprSelect:
+    return !static_cast<const nixf::ExprSelect &>(E).defaultExpr();
+  case nixf::Node::NK_ExprString: {
+    llvm::StringRef Text = E.src(Src); // not an URI
+    return Text.starts_with("\"") || Text.starts_with("''");
+  }
+  default:
+    return false;
+  }
+}
+
+} // namespace
+
 void addInheritToBindingAction(const nixf::Node &N,
                                const nixf::ParentMapAnalysis &PM,
                                const std::string &FileURI, llvm::StringRef Src,
@@ -45,13 +68,28 @@ void addInheritToBindingAction(const nixf::Node &N,
 
   // Build the replacement text
   std::ostringstream NewText;
-  NewText << AttrName << " = ";
+  NewText << quoteNixAttrKey(AttrName) << " = ";
 
   if (Inherit.expr()) {
     // inherit (expr) name; -> name = expr.name;
-    NewText << Inherit.expr()->src(Src) << "." << AttrName;
+    if (canBeSelectedFrom(*Inherit.expr(), Src))
+      NewText << Inherit.expr()->src(Src);
+    else
+      NewText << "(" << Inherit.expr()->src(Src) << ")";
+    NewText << "." << quoteNixAttrKey(AttrName);
   } else {
     // inherit name; -> name = name;
+    // In a recursive set, this would refer to itself.
+    const nixf::Node *Attrs = PM.upTo(Inherit, nixf::Node::NK_ExprAttrs);
+    if (!Attrs)
+      return;
+    const auto &Set = static_cast<const nixf::ExprAttrs &>(*Attrs);
+    if (Set.isRecursive() || mayMergeWithSiblings(Set, PM))
+      return;
+    // Names that need quotes are no variables.
+    if (!isValidNixIdentifier(AttrName) && AttrName != "true" &&
+        AttrName != "false" && AttrName != "null")
+      return;
     NewText << AttrName;
   }
   NewText << ";";
diff --git a/nixd/lib/Controller/CodeActions/Utils.cpp b/nixd/lib/Controller/CodeActions/Utils.cpp
index 4f9346f..d8a5196 100644
--- a/nixd/lib/Controller/CodeActions/Utils.cpp
+++ b/nixd/lib/Controller/CodeActions/Utils.cpp
@@ -86,6 +86,36 @@ std::string escapeNixString(llvm::StringRef S) {
   return Result;
 }
 
+bool mayMergeWithSiblings(const nixf::ExprAttrs &Attrs,
+                          const nixf::ParentMapAnalysis &PM) {
+  const nixf::Node *Parent = PM.query(Attrs);
+  if (!Parent || Parent->kind() != nixf::Node::NK_Binding)
+    return false;
+  const nixf::Node *Up = PM.query(*Parent);
+  if (!Up || Up->kind() != nixf::Node::NK_Binds)
+    return false;
+
+  // They do if the path of one begins with that of the other
+  const auto &Names = static_cast<const nixf::Binding &>(*Parent).path().names();
+  for (const auto &Sibling :
+       static_cast<const nixf::Binds &>(*Up).bindings()) {
+    if (!Sibling || Sibling.get() == Parent ||
+        Sibling->kind() != nixf::Node::NK_Binding)
+      continue;
+    const auto &Others =
+        static_cast<const nixf::Binding &>(*Sibling).path().names();
+    bool Same = true;
+    for (size_t I = 0; Same && I < Names.size() && I < Others.size(); ++I) {
+      Same = Names[I] && Others[I] && Names[I]->isStatic() &&
+             Others[I]->isStatic() &&
+             Names[I]->staticName() == Others[I]->staticName();
+    }
+    if (Same)
+      return true;
+  }
+  return false;
+}
+
 std::string quoteNixAttrKey(const std::string &Key) {
   if (isValidNixIdentifier(Key))
     return Key;
diff --git a/nixd/lib/Controller/CodeActions/Utils.h b/nixd/lib/Controller/CodeActions/Utils.h
index 18c1c61..992448d 100644
--- a/nixd/lib/Controller/CodeActions/Utils.h
+++ b/nixd/lib/Controller/CodeActions/Utils.h
@@ -7,6 +7,9 @@
 
 #pragma once
 
+#include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Sema/ParentMap.h>
+
 #include <lspserver/Protocol.h>
 
 #include <llvm/ADT/StringRef.h>
@@ -40,6 +43,11 @@ std::string escapeNixString(llvm::StringRef S);
 /// escapes special characters using escapeNixString().
 std::string quoteNixAttrKey(const std::string &Key);
 
+/// \brief Check if other bindings of the enclosing set may contribute to this
+/// attribute set, as in "{ a = rec { }; a = { }; }".
+bool mayMergeWithSiblings(const nixf::ExprAttrs &Attrs,
+                          const nixf::ParentMapAnalysis &PM);
+
 /// \brief Maximum recursion depth for JSON to Nix conversion.
 constexpr size_t MaxJsonDepth = 100;
 
-- 
2.43.0


From 37124c137ed7d7ebcb51e18521c35c7e2fa0d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 70/85] fix: converting to inherit keeps tokens apart and
 merged sets as they are

---
 .../CodeActions/ConvertToInherit.cpp          | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp b/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
index 80a21c2..62c27cc 100644
--- a/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
+++ b/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
@@ -10,6 +10,8 @@
 #include <nixf/Basic/Nodes/Expr.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <llvm/ADT/StringExtras.h>
+
 namespace nixd {
 
 void addConvertToInheritAction(const nixf::Node &N,
@@ -41,11 +43,21 @@ void addConvertToInheritAction(const nixf::Node &N,
 
   const nixf::Expr &Value = *Bind.value();
 
+  // "let" may be directly followed by a quoted name
+  size_t Begin = Bind.lCur().offset();
+  std::string Inherit =
+      Begin > 0 && llvm::isAlnum(Src[Begin - 1]) ? " inherit " : "inherit ";
+
   // Case 1: { x = x; } -> { inherit x; }
   if (Value.kind() == nixf::Node::NK_ExprVar) {
     const auto &Var = static_cast<const nixf::ExprVar &>(Value);
     if (Var.id().name() == AttrName) {
-      std::string NewText = "inherit " + quoteNixAttrKey(AttrName) + ";";
+      // A set that merges with a recursive one resolves the name there
+      if (const nixf::Node *Attrs = PM.upTo(Bind, nixf::Node::NK_ExprAttrs);
+          Attrs && mayMergeWithSiblings(
+                       static_cast<const nixf::ExprAttrs &>(*Attrs), PM))
+        return;
+      std::string NewText = Inherit + quoteNixAttrKey(AttrName) + ";";
       Actions.emplace_back(createSingleEditAction(
           "Convert to `inherit`", lspserver::CodeAction::REFACTOR_REWRITE_KIND,
           FileURI, toLSPRange(Src, Bind.range()), std::move(NewText)));
@@ -83,20 +95,20 @@ void addConvertToInheritAction(const nixf::Node &N,
     // - Start with the base expression (e.g., "lib" from lib.nested.x)
     // - Add any intermediate path segments (e.g., ".nested")
     const nixf::Expr &BaseExpr = Sel.expr();
-    std::string SourceText =
-        Src.slice(BaseExpr.lCur().offset(), BaseExpr.rCur().offset()).str();
+    size_t SourceEnd = BaseExpr.rCur().offset();
 
     // Add intermediate path segments (all except the last one)
     for (size_t I = 0; I + 1 < SelPath.size(); ++I) {
       const auto &Segment = SelPath[I];
       if (!Segment || !Segment->isStatic())
         return; // Bail out if any intermediate segment is dynamic
-      SourceText += ".";
-      SourceText += quoteNixAttrKey(Segment->staticName());
+      SourceEnd = Segment->rCur().offset();
     }
+    std::string SourceText =
+        Src.slice(BaseExpr.lCur().offset(), SourceEnd).str();
 
     std::string NewText =
-        "inherit (" + SourceText + ") " + quoteNixAttrKey(AttrName) + ";";
+        Inherit + "(" + SourceText + ") " + quoteNixAttrKey(AttrName) + ";";
     Actions.emplace_back(createSingleEditAction(
         "Convert to `inherit (" + SourceText + ")`",
         lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-- 
2.43.0


From ccafca244bf0ca824eb2cd3f11771d938f6fde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 71/85] fix: incomplete bindings are not flattened

---
 nixd/lib/Controller/CodeActions/FlattenAttrs.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp b/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp
index 2b295bd..5a8b59b 100644
--- a/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/FlattenAttrs.cpp
@@ -30,9 +30,11 @@ const nixf::Binds *getFlattenableBinds(const nixf::ExprAttrs &Attrs) {
       return nullptr; // Inherit node found
 
     const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+    if (!Bind.value())
+      return nullptr; // Incomplete binding
     for (const auto &Name : Bind.path().names()) {
-      if (!Name->isStatic())
-        return nullptr; // Dynamic attribute name
+      if (!Name || !Name->isStatic())
+        return nullptr; // Dynamic attribute name, or a missing one
     }
   }
 
@@ -65,7 +67,7 @@ void addFlattenAttrsAction(const nixf::Node &N,
 
   // Check outer path is static too
   for (const auto &Name : Bind.path().names()) {
-    if (!Name->isStatic())
+    if (!Name || !Name->isStatic())
       return;
   }
 
@@ -92,9 +94,7 @@ void addFlattenAttrsAction(const nixf::Node &N,
     NewText += InnerPath;
     NewText += " = ";
 
-    if (InnerBind.value()) {
-      NewText += InnerBind.value()->src(Src);
-    }
+    NewText += InnerBind.value()->src(Src);
     NewText += ";";
 
     if (I + 1 < NestedBindings.size())
-- 
2.43.0


From 758112535bf1feb6314c5d49ec3bafdbe5ddeb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 72/85] fix: packing bindings keeps their meaning and what
 stands between them

---
 nixd/lib/Controller/CodeActions/PackAttrs.cpp | 412 ++++++++++--------
 1 file changed, 220 insertions(+), 192 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/PackAttrs.cpp b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
index 2aec25f..543229b 100644
--- a/nixd/lib/Controller/CodeActions/PackAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
@@ -8,7 +8,9 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
-#include <optional>
+#include <llvm/ADT/ArrayRef.h>
+
+#include <algorithm>
 
 namespace nixd {
 
@@ -24,7 +26,7 @@ constexpr size_t MaxNestedDepth = 100;
 size_t getSiblingCount(const nixf::Binding &Bind,
                        const nixf::ExprAttrs &ParentAttrs) {
   const auto &Names = Bind.path().names();
-  if (Names.empty() || !Names[0]->isStatic())
+  if (Names.empty() || !Names[0] || !Names[0]->isStatic())
     return 0;
 
   const std::string &FirstSeg = Names[0]->staticName();
@@ -50,136 +52,208 @@ size_t getSiblingCount(const nixf::Binding &Bind,
   return NestedSA.staticAttrs().size();
 }
 
-/// \brief Recursively generate nested attribute set text from SemaAttrs.
-/// This produces the fully packed/nested form of attributes.
-/// \param Depth Current recursion depth (for safety limit)
-void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
-                        std::string &Out, size_t Depth = 0) {
-  // Safety check: prevent stack overflow from deeply nested structures
-  if (Depth > MaxNestedDepth) {
-    Out += "{ /* max depth exceeded */ }";
-    return;
+/// \brief The attributes of a nested set, collected from dotted paths.
+struct PackedAttrs {
+  std::string Key;
+  /// Value, if this is not a set to be written out.
+  const nixf::Expr *Value = nullptr;
+  std::vector<PackedAttrs> Children;
+
+  PackedAttrs *find(llvm::StringRef Key) {
+    for (PackedAttrs &Child : Children)
+      if (Child.Key == Key)
+        return &Child;
+    return nullptr;
   }
+};
+
+/// \brief Are all names of a path, beginning with \p First, static?
+bool isStaticPath(const nixf::AttrPath &Path, size_t First = 0) {
+  const auto &Names = Path.names();
+  return std::all_of(Names.begin() + First, Names.end(), [](const auto &Name) {
+    return Name && Name->isStatic();
+  });
+}
 
-  Out += "{ ";
-  bool First = true;
-  for (const auto &[Key, Attr] : SA.staticAttrs()) {
-    if (!First)
-      Out += " ";
-    First = false;
+/// \brief Get the bindings of a set that can be written out attribute by
+/// attribute: not recursive, no inherit, and static names.
+const nixf::Binds *getPlainBinds(const nixf::ExprAttrs &Attrs) {
+  static const nixf::Binds Empty(nixf::LexerCursorRange(), {});
+  if (Attrs.isRecursive())
+    return nullptr;
+  if (!Attrs.binds())
+    return &Empty;
+  for (const auto &Child : Attrs.binds()->bindings()) {
+    if (!Child || Child->kind() != nixf::Node::NK_Binding)
+      return nullptr;
+    const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+    if (!Bind.value() || !isStaticPath(Bind.path()))
+      return nullptr;
+  }
+  return Attrs.binds();
+}
 
-    // Output the key, quoting if necessary
-    Out += quoteNixAttrKey(Key);
-    Out += " = ";
+/// \brief Add what a binding assigns, omitting the first \p First names.
+/// \returns false if this cannot be written as one nested set.
+bool addPacked(PackedAttrs &Root, const nixf::Binding &Bind, size_t First,
+               size_t Depth) {
+  PackedAttrs *At = &Root;
+  const auto &Names = Bind.path().names();
+  if (!Bind.value() || !isStaticPath(Bind.path(), First))
+    return false;
+
+  bool Fresh = false;
+  for (size_t I = First; I < Names.size(); ++I) {
+    // Safety check: prevent stack overflow from deeply nested structures
+    if (At->Value || ++Depth > MaxNestedDepth)
+      return false;
+    const std::string &Key = Names[I]->staticName();
+    PackedAttrs *Child = At->find(Key);
+    Fresh = !Child;
+    if (Fresh) {
+      At->Children.push_back({.Key = Key, .Value = nullptr, .Children = {}});
+      Child = &At->Children.back();
+    }
+    At = Child;
+  }
 
-    // Check if value is a nested ExprAttrs that needs recursive generation
-    if (Attr.value() && Attr.value()->kind() == nixf::Node::NK_ExprAttrs) {
-      const auto &NestedAttrs =
-          static_cast<const nixf::ExprAttrs &>(*Attr.value());
-      const nixf::SemaAttrs &NestedSA = NestedAttrs.sema();
-
-      // If all nested attrs come from dotted paths (no inherit, no dynamic),
-      // we can generate recursively
-      if (NestedSA.dynamicAttrs().empty() && !Attr.fromInherit()) {
-        generateNestedText(NestedSA, Src, Out, Depth + 1);
-      } else {
-        // Use original source text
-        Out += Attr.value()->src(Src);
+  if (Bind.value()->kind() == nixf::Node::NK_ExprAttrs) {
+    const auto &Attrs = static_cast<const nixf::ExprAttrs &>(*Bind.value());
+    if (const nixf::Binds *Binds = getPlainBinds(Attrs)) {
+      if (At->Value)
+        return false;
+      for (const auto &Inner : Binds->bindings()) {
+        if (!addPacked(*At, static_cast<const nixf::Binding &>(*Inner), 0,
+                       Depth))
+          return false;
       }
-    } else if (Attr.value()) {
-      Out += Attr.value()->src(Src);
+      return true;
     }
-    Out += ";";
   }
-  Out += " }";
+
+  if (!Fresh)
+    return false; // Assigned twice
+  At->Value = Bind.value().get();
+  return true;
+}
+
+/// \brief Generate the fully nested form of attributes.
+void generateNestedText(const PackedAttrs &Attrs, llvm::StringRef Src,
+                        std::string &Out) {
+  Out += "{ ";
+  for (const PackedAttrs &Child : Attrs.Children) {
+    // Output the key, quoting if necessary
+    Out += quoteNixAttrKey(Child.Key);
+    Out += " = ";
+    if (Child.Value)
+      Out += Child.Value->src(Src);
+    else
+      generateNestedText(Child, Src, Out);
+    Out += "; ";
+  }
+  Out += "}";
 }
 
 /// \brief Generate shallow nested attribute set text from original bindings.
 /// Unlike generateNestedText, this only expands one level and preserves
 /// remaining dotted paths as-is by extracting from original source.
-/// \param Binds The original Binds node containing all bindings
-/// \param FirstSeg The first path segment to match (e.g., "foo" for "foo.bar")
-/// \param Src The source text
-/// \param Out Output string to append to
-void generateShallowNestedText(const nixf::Binds &Binds,
-                               const std::string &FirstSeg, llvm::StringRef Src,
-                               std::string &Out) {
-  Out += "{ ";
-  bool First = true;
+/// e.g., "foo.bar.x = 1" -> "bar.x = 1"
+std::string
+generateShallowNestedText(llvm::ArrayRef<const nixf::Binding *> Siblings,
+                          llvm::StringRef Src) {
+  std::string Out = "{ ";
+  for (const nixf::Binding *Bind : Siblings) {
+    const size_t RestStart = Bind->path().names()[1]->lCur().offset();
+    Out += Src.slice(RestStart, Bind->path().rCur().offset());
+    Out += " = ";
+    Out += Bind->value()->src(Src);
+    Out += "; ";
+  }
+  Out += "}";
+  return Out;
+}
 
+/// \brief Find all bindings that share the same first path segment.
+/// \returns nothing if one of them cannot be packed.
+std::vector<const nixf::Binding *>
+findSiblingBindings(const nixf::Binds &Binds, const std::string &FirstSeg) {
+  std::vector<const nixf::Binding *> Siblings;
   for (const auto &Child : Binds.bindings()) {
-    if (Child->kind() != nixf::Node::NK_Binding)
+    if (!Child || Child->kind() != nixf::Node::NK_Binding)
       continue;
 
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Child);
-    const auto &Names = SibBind.path().names();
-
-    // Only process bindings that match the first segment
-    if (Names.empty() || !Names[0]->isStatic() ||
+    const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+    const auto &Names = Bind.path().names();
+    if (Names.empty() || !Names[0] || !Names[0]->isStatic() ||
         Names[0]->staticName() != FirstSeg)
       continue;
-
-    if (!First)
-      Out += " ";
-    First = false;
-
-    if (Names.size() == 1) {
-      // Single segment path (e.g., just "foo") - shouldn't happen in bulk pack
-      // but handle it gracefully by using value directly
-      Out += quoteNixAttrKey(Names[0]->staticName());
-      Out += " = ";
-      if (SibBind.value()) {
-        Out += SibBind.value()->src(Src);
-      }
-    } else {
-      // Multi-segment path - extract rest of path from source
-      // e.g., "foo.bar.x = 1" -> "bar.x = 1"
-      const nixf::LexerCursor RestStart = Names[1]->range().lCur();
-      const nixf::LexerCursor PathEnd = SibBind.path().range().rCur();
-
-      if (PathEnd.offset() >= RestStart.offset()) {
-        std::string_view RestPath = Src.substr(
-            RestStart.offset(), PathEnd.offset() - RestStart.offset());
-        Out += RestPath;
-        Out += " = ";
-        if (SibBind.value()) {
-          Out += SibBind.value()->src(Src);
-        }
-      }
-    }
-    Out += ";";
+    if (Names.size() < 2 || !Names[1] || !Names.back() || !Bind.value())
+      return {};
+    Siblings.push_back(&Bind);
   }
-  Out += " }";
+  return Siblings;
 }
 
-/// \brief Find all sibling bindings that share the same first path segment.
-/// Returns the range covering all such bindings, or nullopt if not applicable.
-std::optional<nixf::LexerCursorRange>
-findSiblingBindingsRange(const nixf::Binding &Bind, const nixf::Binds &Binds,
-                         const std::string &FirstSeg) {
-  nixf::LexerCursor Start = Bind.range().lCur();
-  nixf::LexerCursor End = Bind.range().rCur();
-
-  for (const auto &Sibling : Binds.bindings()) {
-    if (Sibling->kind() != nixf::Node::NK_Binding)
+/// \brief Is the second name of \p Bind bound by a sibling before it?
+/// Nix merges dotted paths with sets, but not a set with one that already has
+/// one of its attributes.
+bool isBoundBefore(const nixf::Binding &Bind, const nixf::Binds &Binds) {
+  const auto &Path = Bind.path().names();
+  auto Is = [](const auto &Name, const std::string &S) {
+    return Name && Name->isStatic() && Name->staticName() == S;
+  };
+  for (const auto &Child : Binds.bindings()) {
+    if (Child.get() == &Bind)
+      return false;
+    if (!Child || Child->kind() != nixf::Node::NK_Binding)
       continue;
-
-    const auto &SibBind = static_cast<const nixf::Binding &>(*Sibling);
-    const auto &SibNames = SibBind.path().names();
-
-    if (SibNames.empty() || !SibNames[0]->isStatic())
+    const auto &Sibling = static_cast<const nixf::Binding &>(*Child);
+    const auto &Names = Sibling.path().names();
+    if (Names.empty() || !Is(Names[0], Path[0]->staticName()))
       continue;
-
-    if (SibNames[0]->staticName() == FirstSeg) {
-      // Expand range to include this sibling
-      if (SibBind.range().lCur().offset() < Start.offset())
-        Start = SibBind.range().lCur();
-      if (SibBind.range().rCur().offset() > End.offset())
-        End = SibBind.range().rCur();
+    if (Names.size() > 1) {
+      if (Is(Names[1], Path[1]->staticName()))
+        return true;
+    } else if (Sibling.value() &&
+               Sibling.value()->kind() == nixf::Node::NK_ExprAttrs) {
+      const auto &Attrs =
+          static_cast<const nixf::ExprAttrs &>(*Sibling.value());
+      if (Attrs.sema().staticAttrs().contains(Path[1]->staticName()))
+        return true;
     }
   }
+  return false;
+}
 
-  return nixf::LexerCursorRange{Start, End};
+/// \brief Replace the bindings by one, leaving what stands between them.
+std::vector<lspserver::TextEdit>
+replaceBindings(llvm::ArrayRef<const nixf::Binding *> Siblings,
+                llvm::StringRef Src, std::string NewText) {
+  bool Contiguous = true;
+  for (size_t I = 0; I + 1 < Siblings.size(); ++I) {
+    Contiguous &= Src.slice(Siblings[I]->rCur().offset(),
+                            Siblings[I + 1]->lCur().offset())
+                      .trim()
+                      .empty();
+  }
+  const nixf::Binding &First = *Siblings.front();
+  if (Contiguous) {
+    nixf::LexerCursorRange Range(First.lCur(), Siblings.back()->rCur());
+    return {{.range = toLSPRange(Src, Range), .newText = std::move(NewText)}};
+  }
+
+  std::vector<lspserver::TextEdit> Edits;
+  Edits.push_back({.range = toLSPRange(Src, First.range()),
+                   .newText = std::move(NewText)});
+  for (const nixf::Binding *Bind : Siblings.drop_front()) {
+    lspserver::Range Range = toLSPRange(Src, Bind->range());
+    // Remove the blanks before what follows on the same line
+    for (size_t I = Bind->rCur().offset();
+         I < Src.size() && (Src[I] == ' ' || Src[I] == '\t'); ++I)
+      ++Range.end.character;
+    Edits.push_back({.range = Range, .newText = ""});
+  }
+  return Edits;
 }
 
 } // namespace
@@ -200,10 +274,8 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     return;
 
   // All path segments must be static
-  for (const auto &Name : Names) {
-    if (!Name->isStatic())
-      return;
-  }
+  if (!isStaticPath(Bind.path()) || !Bind.value())
+    return;
 
   // Check parent ExprAttrs is not recursive
   const nixf::Node *BindsNode = PM.query(Bind);
@@ -224,100 +296,56 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (SiblingCount == 0)
     return; // Can't pack (dynamic attrs or other conflicts)
 
-  // Helper lambda to generate Pack One action text
-  auto GeneratePackOneText = [&]() -> std::string {
-    std::string NewText;
-    const std::string_view FirstName = Names[0]->src(Src);
-
-    size_t ValueSize = Bind.value() ? Bind.value()->src(Src).size() : 0;
-    NewText.reserve(FirstName.size() + Bind.path().src(Src).size() + ValueSize +
-                    15);
-    NewText += FirstName;
-    NewText += " = { ";
-
-    const nixf::LexerCursor RestStart = Names[1]->range().lCur();
-    const nixf::LexerCursor RestEnd = Bind.path().range().rCur();
+  const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
 
-    // Safety check: ensure valid range to prevent integer underflow
-    if (RestEnd.offset() < RestStart.offset())
-      return "";
-
-    std::string_view RestPath =
-        Src.substr(RestStart.offset(), RestEnd.offset() - RestStart.offset());
-
-    NewText += RestPath;
+  // Pack One - pack only the current binding
+  if (!isBoundBefore(Bind, ParentBinds)) {
+    std::string NewText(Names[0]->src(Src));
     NewText += " = ";
-
-    if (Bind.value()) {
-      NewText += Bind.value()->src(Src);
-    }
-    NewText += "; };";
-    return NewText;
-  };
-
-  if (SiblingCount == 1) {
-    // Single binding - offer simple pack action
-    std::string NewText = GeneratePackOneText();
-    if (NewText.empty())
-      return;
-
+    NewText += generateShallowNestedText({&Bind}, Src);
+    NewText += ";";
     Actions.emplace_back(createSingleEditAction(
         "Pack dotted path to nested set",
         lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
         toLSPRange(Src, Bind.range()), std::move(NewText)));
-  } else {
-    // Multiple siblings share the prefix - offer Pack One and bulk pack actions
-    const nixf::SemaAttrs &SA = ParentAttrs.sema();
-    auto It = SA.staticAttrs().find(FirstSeg);
-    if (It == SA.staticAttrs().end())
-      return;
-
-    const nixf::Attribute &Attr = It->second;
-    if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
-      return;
-
-    const auto &NestedAttrs =
-        static_cast<const nixf::ExprAttrs &>(*Attr.value());
-
-    // Find the range covering all sibling bindings (needed for bulk actions)
-    const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
-    auto BulkRange = findSiblingBindingsRange(Bind, ParentBinds, FirstSeg);
-    if (!BulkRange)
-      return;
+  }
 
-    // Action 1: Pack One - pack only the current binding
-    std::string PackOneText = GeneratePackOneText();
-    if (!PackOneText.empty()) {
-      Actions.emplace_back(createSingleEditAction(
-          "Pack dotted path to nested set",
-          lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-          toLSPRange(Src, Bind.range()), std::move(PackOneText)));
-    }
+  if (SiblingCount == 1)
+    return;
 
-    // Action 2: Shallow Pack All - pack all siblings but only one level deep
-    std::string ShallowText;
-    ShallowText += quoteNixAttrKey(FirstSeg);
-    ShallowText += " = ";
-    generateShallowNestedText(ParentBinds, FirstSeg, Src, ShallowText);
-    ShallowText += ";";
+  // Multiple siblings share the prefix - offer bulk pack actions
+  const auto Siblings = findSiblingBindings(ParentBinds, FirstSeg);
+  if (Siblings.empty())
+    return;
 
-    Actions.emplace_back(createSingleEditAction(
-        "Pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(ShallowText)));
+  auto AddBulkAction = [&](std::string Title, const std::string &Set) {
+    std::string NewText = quoteNixAttrKey(FirstSeg) + " = " + Set + ";";
+    using Changes = std::map<std::string, std::vector<lspserver::TextEdit>>;
+    lspserver::WorkspaceEdit WE{
+        .changes = Changes{
+            {FileURI, replaceBindings(Siblings, Src, std::move(NewText))}}};
+    Actions.emplace_back(lspserver::CodeAction{
+        .title = std::move(Title),
+        .kind = std::string(lspserver::CodeAction::REFACTOR_REWRITE_KIND),
+        .edit = std::move(WE),
+    });
+  };
 
-    // Action 3: Recursive Pack All - fully nest all sibling bindings
-    std::string RecursiveText;
-    RecursiveText += quoteNixAttrKey(FirstSeg);
-    RecursiveText += " = ";
-    generateNestedText(NestedAttrs.sema(), Src, RecursiveText);
-    RecursiveText += ";";
+  // Shallow Pack All - pack all siblings but only one level deep
+  AddBulkAction("Pack all '" + FirstSeg + "' bindings to nested set",
+                generateShallowNestedText(Siblings, Src));
 
-    Actions.emplace_back(createSingleEditAction(
-        "Recursively pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(RecursiveText)));
+  // Recursive Pack All - fully nest all sibling bindings
+  PackedAttrs Root;
+  for (const nixf::Binding *Sibling : Siblings) {
+    if (!addPacked(Root, *Sibling, 1, 0))
+      return;
   }
+  std::string Nested;
+  generateNestedText(Root, Src, Nested);
+  AddBulkAction("Recursively pack all '" + FirstSeg +
+                    "' bindings to nested set",
+                Nested);
 }
 
 } // namespace nixd
-- 
2.43.0


From 50dde2a95b7e6da555eafdc1b9485b01779c7b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 73/85] fix: a with is not converted where its source would be
 captured

---
 nixd/lib/Controller/CodeActions/Utils.cpp     | 28 +++++++++++++++++++
 nixd/lib/Controller/CodeActions/Utils.h       |  8 ++++++
 nixd/lib/Controller/CodeActions/WithToLet.cpp | 10 +++++++
 3 files changed, 46 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/Utils.cpp b/nixd/lib/Controller/CodeActions/Utils.cpp
index d8a5196..005a8de 100644
--- a/nixd/lib/Controller/CodeActions/Utils.cpp
+++ b/nixd/lib/Controller/CodeActions/Utils.cpp
@@ -86,6 +86,34 @@ std::string escapeNixString(llvm::StringRef S) {
   return Result;
 }
 
+void forEachVariable(
+    const nixf::Node &Root,
+    llvm::function_ref<void(const nixf::ExprVar &Var)> Callback) {
+  std::set<const nixf::Node *> Seen;
+  std::vector<const nixf::Node *> Todo{&Root};
+  auto Visit = [&](const nixf::Node *N) {
+    if (N && Seen.insert(N).second)
+      Todo.push_back(N);
+  };
+  while (!Todo.empty()) {
+    const nixf::Node &N = *Todo.back();
+    Todo.pop_back();
+    if (N.kind() == nixf::Node::NK_ExprVar)
+      Callback(static_cast<const nixf::ExprVar &>(N));
+    if (N.kind() == nixf::Node::NK_ExprAttrs) {
+      const auto &SA = static_cast<const nixf::ExprAttrs &>(N).sema();
+      for (const auto &[_, Attr] : SA.staticAttrs())
+        Visit(Attr.value());
+      for (const auto &Attr : SA.dynamicAttrs()) {
+        Visit(&Attr.key());
+        Visit(Attr.value());
+      }
+    }
+    for (const nixf::Node *Child : N.children())
+      Visit(Child);
+  }
+}
+
 bool mayMergeWithSiblings(const nixf::ExprAttrs &Attrs,
                           const nixf::ParentMapAnalysis &PM) {
   const nixf::Node *Parent = PM.query(Attrs);
diff --git a/nixd/lib/Controller/CodeActions/Utils.h b/nixd/lib/Controller/CodeActions/Utils.h
index 992448d..b1b6ac3 100644
--- a/nixd/lib/Controller/CodeActions/Utils.h
+++ b/nixd/lib/Controller/CodeActions/Utils.h
@@ -8,10 +8,12 @@
 #pragma once
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Simple.h>
 #include <nixf/Sema/ParentMap.h>
 
 #include <lspserver/Protocol.h>
 
+#include <llvm/ADT/STLFunctionalExtras.h>
 #include <llvm/ADT/StringRef.h>
 
 #include <string>
@@ -43,6 +45,12 @@ std::string escapeNixString(llvm::StringRef S);
 /// escapes special characters using escapeNixString().
 std::string quoteNixAttrKey(const std::string &Key);
 
+/// \brief Call \p Callback for each variable within an expression, including
+/// those that "inherit foo;" stands for.
+void forEachVariable(
+    const nixf::Node &Root,
+    llvm::function_ref<void(const nixf::ExprVar &Var)> Callback);
+
 /// \brief Check if other bindings of the enclosing set may contribute to this
 /// attribute set, as in "{ a = rec { }; a = { }; }".
 bool mayMergeWithSiblings(const nixf::ExprAttrs &Attrs,
diff --git a/nixd/lib/Controller/CodeActions/WithToLet.cpp b/nixd/lib/Controller/CodeActions/WithToLet.cpp
index 6487101..3646307 100644
--- a/nixd/lib/Controller/CodeActions/WithToLet.cpp
+++ b/nixd/lib/Controller/CodeActions/WithToLet.cpp
@@ -162,6 +162,16 @@ void addWithToLetAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (VarNames.empty())
     return;
 
+  // In "let inherit (source) foo;", the source is in the scope of foo, too.
+  bool Captures = false;
+  if (With.with()) {
+    forEachVariable(*With.with(), [&](const nixf::ExprVar &Var) {
+      Captures |= VarNames.contains(Var.id().name());
+    });
+  }
+  if (Captures)
+    return;
+
   // Generate the replacement text
   std::string NewText = generateLetInherit(With, VarNames, Src);
   if (NewText.empty())
-- 
2.43.0


From 06ab4ec4234b5466a02eb3c2cf2d8471cd3f8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 74/85] fix: new formals capture nothing and stay apart from
 what precedes them

---
 .../Controller/CodeActions/AddToFormals.cpp   | 73 ++++++++++---------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AddToFormals.cpp b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
index 62eb297..dc59a66 100644
--- a/nixd/lib/Controller/CodeActions/AddToFormals.cpp
+++ b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
@@ -50,6 +50,17 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (Formals.dedup().contains(VarName))
     return;
 
+  // The new formal must not take variables from a `with`
+  bool Captures = false;
+  forEachVariable(Lambda, [&](const nixf::ExprVar &Other) {
+    Captures |=
+        Other.id().name() == VarName &&
+        VLA.query(Other).Kind ==
+            nixf::VariableLookupAnalysis::LookupResultKind::FromWith;
+  });
+  if (Captures)
+    return;
+
   // Determine insertion point
   // There are 4 cases to handle:
   // 1. Empty formals `{ }:` -> insert varName after `{`
@@ -74,42 +85,36 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     InsertRange = lspserver::Range{InsertPos, InsertPos};
     NewText = " " + quoteNixAttrKey(VarName) + " ";
   } else {
-    // Check if the last member is an ellipsis
-    const nixf::Formal *LastMember = Members.back().get();
-    bool HasEllipsis = LastMember && LastMember->isEllipsis();
-
-    if (HasEllipsis) {
-      if (Members.size() == 1) {
-        // Case 3: Ellipsis only `{ ... }:`
-        // Insert `varName, ` before the ellipsis
-        auto InsertPos = toLSPPosition(Src, LastMember->lCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = quoteNixAttrKey(VarName) + ", ";
-      } else {
-        // Case 4: With ellipsis `{ a, ... }:`
-        // Insert `, varName` after the last non-ellipsis formal
-        // Find the last non-ellipsis formal
-        const nixf::Formal *LastNonEllipsis = nullptr;
-        for (auto It = Members.rbegin(); It != Members.rend(); ++It) {
-          if ((*It) && !(*It)->isEllipsis()) {
-            LastNonEllipsis = (*It).get();
-            break;
-          }
-        }
-
-        if (!LastNonEllipsis)
-          return;
-
-        auto InsertPos = toLSPPosition(Src, LastNonEllipsis->rCur());
-        InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = ", " + quoteNixAttrKey(VarName);
-      }
-    } else {
-      // Case 2: Normal `{ a }:` without ellipsis
-      // Insert `, varName` after the last formal
-      auto InsertPos = toLSPPosition(Src, LastMember->rCur());
+    // A formal without a name is the last comma in `{ a, }:`
+    const nixf::Formal *Last = nullptr;
+    const nixf::Formal *Ellipsis = nullptr;
+    for (const auto &Member : Members) {
+      if (Member && Member->isEllipsis())
+        Ellipsis = Member.get();
+      else if (Member && Member->id())
+        Last = Member.get();
+    }
+
+    if (Last) {
+      // Case 2: Normal `{ a }:` and case 4: With ellipsis `{ a, ... }:`
+      // Insert `, varName` after the last non-ellipsis formal
+      auto InsertPos = toLSPPosition(Src, Last->rCur());
       InsertRange = lspserver::Range{InsertPos, InsertPos};
       NewText = ", " + quoteNixAttrKey(VarName);
+      // A comma may be a part of an URI.
+      if (const nixf::Expr *Default = Last->defaultExpr();
+          Default && Default->kind() == nixf::Node::NK_ExprString)
+        if (llvm::StringRef Text = Default->src(Src);
+            !Text.ends_with("\"") && !Text.ends_with("''"))
+          NewText = " " + NewText;
+    } else if (Ellipsis) {
+      // Case 3: Ellipsis only `{ ... }:`
+      // Insert `varName, ` before the ellipsis
+      auto InsertPos = toLSPPosition(Src, Ellipsis->lCur());
+      InsertRange = lspserver::Range{InsertPos, InsertPos};
+      NewText = quoteNixAttrKey(VarName) + ", ";
+    } else {
+      return;
     }
   }
 
-- 
2.43.0


From 3e626b480a0bbdcf10a48385268d5e877988cb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:07 +0000
Subject: [PATCH 75/85] fix: extracted expressions keep the meaning of their
 variables

---
 .../Controller/CodeActions/ExtractToFile.cpp  | 141 ++++++++++++++----
 1 file changed, 108 insertions(+), 33 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 7b47a05..75b4d2b 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -12,6 +12,7 @@
 #include <nixf/Basic/Nodes/Lambda.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/Path.h>
 
@@ -26,6 +27,7 @@ namespace {
 struct FreeVariableResult {
   std::set<std::string> FreeVars;
   bool HasWithVars; ///< True if any variables come from 'with' scope
+  bool Resolvable;  ///< False if a variable may come from inside and outside
 };
 
 /// \brief Collect all free variables used within an expression subtree.
@@ -39,39 +41,39 @@ class FreeVariableCollector {
   std::set<std::string> FreeVars;
   bool HasWithVars = false;
 
-  void collect(const nixf::Node &N) {
-    // If this is a variable reference, check if it's free
-    if (N.kind() == nixf::Node::NK_ExprVar) {
-      const auto &Var = static_cast<const nixf::ExprVar &>(N);
-      auto Result = VLA.query(Var);
-
-      // Variable is free if:
-      // - It's defined (not undefined/error)
-      // - Its definition is outside our extraction root
-      // - It's not a builtin
-      if (Result.Kind ==
-              nixf::VariableLookupAnalysis::LookupResultKind::Defined &&
-          Result.Def && !Result.Def->isBuiltin()) {
-        const nixf::Node *DefSyntax = Result.Def->syntax();
-        if (DefSyntax && !isInsideNode(DefSyntax, Root)) {
-          // This variable is defined outside our subtree - it's free
-          FreeVars.insert(std::string(Var.id().name()));
-        }
-      }
-      // Variables from 'with' are implicitly free since they depend on scope
-      // Note: These may not work correctly after extraction since the 'with'
-      // context is lost. We track this to warn the user.
-      else if (Result.Kind ==
-               nixf::VariableLookupAnalysis::LookupResultKind::FromWith) {
+  bool Resolvable = true;
+
+  void collect(const nixf::ExprVar &Var) {
+    auto Result = VLA.query(Var);
+
+    // Variable is free if:
+    // - It's defined (not undefined/error)
+    // - Its definition is outside our extraction root
+    // - It's not a builtin
+    if (Result.Kind == nixf::VariableLookupAnalysis::LookupResultKind::Defined &&
+        Result.Def && !Result.Def->isBuiltin()) {
+      const nixf::Node *DefSyntax = Result.Def->syntax();
+      if (DefSyntax && !isInsideNode(DefSyntax, Root)) {
+        // This variable is defined outside our subtree - it's free
         FreeVars.insert(std::string(Var.id().name()));
-        HasWithVars = true;
       }
     }
-
-    // Recursively collect from children
-    for (const auto &Child : N.children()) {
-      if (Child)
-        collect(*Child);
+    // Variables from 'with' are implicitly free since they depend on scope
+    // Note: These may not work correctly after extraction since the 'with'
+    // context is lost. We track this to warn the user.
+    else if (Result.Kind ==
+             nixf::VariableLookupAnalysis::LookupResultKind::FromWith) {
+      bool Inside = false;
+      bool Outside = false;
+      for (const nixf::ExprWith *With : VLA.getWithScopes(Var))
+        (isInsideNode(With, Root) ? Inside : Outside) = true;
+      if (!Outside)
+        return;
+      FreeVars.insert(std::string(Var.id().name()));
+      HasWithVars = true;
+      // As a parameter, it would no longer come from the inner 'with'
+      if (Inside)
+        Resolvable = false;
     }
   }
 
@@ -94,8 +96,9 @@ public:
   FreeVariableResult collect() {
     FreeVars.clear();
     HasWithVars = false;
-    collect(Root);
-    return {FreeVars, HasWithVars};
+    Resolvable = true;
+    forEachVariable(Root, [this](const nixf::ExprVar &Var) { collect(Var); });
+    return {FreeVars, HasWithVars, Resolvable};
   }
 };
 
@@ -111,7 +114,7 @@ std::string generateFilename(const nixf::Node &N,
   if (BindingNode) {
     const auto &Binding = static_cast<const nixf::Binding &>(*BindingNode);
     const auto &Names = Binding.path().names();
-    if (!Names.empty() && Names.back()->isStatic()) {
+    if (!Names.empty() && Names.back() && Names.back()->isStatic()) {
       std::string Name = Names.back()->staticName();
       // Sanitize: replace invalid chars with underscore
       for (char &C : Name) {
@@ -190,6 +193,57 @@ std::string generateImportStatement(const std::string &Filename,
   return Import;
 }
 
+/// \brief Is `import` the builtin function where the expression is evaluated?
+bool isImportGlobal(const nixf::Node &N,
+                    const nixf::VariableLookupAnalysis &VLA) {
+  const nixf::EnvNode *Env = VLA.env(&N);
+  if (!Env)
+    return false;
+  for (; Env; Env = Env->parent()) {
+    auto It = Env->defs().find("import");
+    if (It != Env->defs().end())
+      return It->second->isBuiltin();
+  }
+  return true;
+}
+
+/// \brief Can a function application stand for the expression as it is?
+bool admitsCall(const nixf::Node &N, const nixf::ParentMapAnalysis &PM) {
+  const nixf::Node *Parent = PM.query(N);
+  if (!Parent || Parent == &N)
+    return true;
+  switch (Parent->kind()) {
+  case nixf::Node::NK_Binding:
+  case nixf::Node::NK_Formal:
+  case nixf::Node::NK_Inherit:
+  case nixf::Node::NK_Interpolation:
+  case nixf::Node::NK_ExprLambda:
+  case nixf::Node::NK_ExprLet:
+  case nixf::Node::NK_ExprIf:
+  case nixf::Node::NK_ExprAssert:
+  case nixf::Node::NK_ExprWith:
+  case nixf::Node::NK_ExprParen:
+    return true;
+  default:
+    return false;
+  }
+}
+
+/// \brief Keep the import statement apart from what stands next to it.
+std::string separate(std::string Import, const nixf::Node &N,
+                     llvm::StringRef Src) {
+  auto IsWordChar = [](char C) {
+    return llvm::isAlnum(C) || llvm::StringRef("_-'+.:/").contains(C);
+  };
+  size_t Begin = N.lCur().offset();
+  size_t End = N.rCur().offset();
+  if (Begin > 0 && IsWordChar(Src[Begin - 1]))
+    Import = " " + Import;
+  if (End < Src.size() && IsWordChar(Src[End]))
+    Import += " ";
+  return Import;
+}
+
 /// \brief The filesystem path denoted by a file URI.
 ///
 /// LSP URIs typically have the form "file:///path/to/file" with special
@@ -333,6 +387,22 @@ void addExtractToFileAction(const nixf::Node &N,
   if (!ExprNode)
     return;
 
+  // The bindings of a let, and sets that others merge with, are no expressions
+  if (ExprNode->kind() == nixf::Node::NK_ExprAttrs) {
+    const nixf::Node *Parent = PM.query(*ExprNode);
+    const auto &Attrs = static_cast<const nixf::ExprAttrs &>(*ExprNode);
+    if (Parent && (Parent->kind() == nixf::Node::NK_ExprLegacyLet ||
+                   (Parent->kind() == nixf::Node::NK_ExprLet &&
+                    static_cast<const nixf::ExprLet *>(Parent)->attrs() ==
+                        &Attrs)))
+      return;
+    if (mayMergeWithSiblings(Attrs, PM))
+      return;
+  }
+
+  if (!isImportGlobal(*ExprNode, VLA))
+    return;
+
   // Get the expression source text
   std::string_view ExprSrc = ExprNode->src(Src);
   if (ExprSrc.empty())
@@ -342,6 +412,8 @@ void addExtractToFileAction(const nixf::Node &N,
   FreeVariableCollector Collector(VLA, *ExprNode);
   FreeVariableResult FreeVarResult = Collector.collect();
   const std::set<std::string> &FreeVars = FreeVarResult.FreeVars;
+  if (!FreeVarResult.Resolvable)
+    return;
 
   // Generate filename from context
   std::string BaseFilename = generateFilename(*ExprNode, PM);
@@ -359,6 +431,9 @@ void addExtractToFileAction(const nixf::Node &N,
 
   // Generate the import statement
   std::string ImportStmt = generateImportStatement(Filename, FreeVars);
+  if (!admitsCall(*ExprNode, PM))
+    ImportStmt = "(" + ImportStmt + ")";
+  ImportStmt = separate(std::move(ImportStmt), *ExprNode, Src);
 
   // Build the full file path
   llvm::SmallString<256> NewFilePath(Directory);
-- 
2.43.0


From 8821f6f6919e6fe382f02abb042799e0d3a8a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 76/85] fix: symbols of attributes enclose those of their
 values

---
 nixd/lib/Controller/DocumentSymbol.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/DocumentSymbol.cpp b/nixd/lib/Controller/DocumentSymbol.cpp
index da23f25..98c298e 100644
--- a/nixd/lib/Controller/DocumentSymbol.cpp
+++ b/nixd/lib/Controller/DocumentSymbol.cpp
@@ -15,6 +15,7 @@
 #include <nixf/Basic/Nodes/Lambda.h>
 #include <nixf/Sema/VariableLookup.h>
 
+#include <algorithm>
 #include <string>
 
 using namespace nixd;
@@ -49,6 +50,17 @@ lspserver::Range getAttrRange(llvm::StringRef Src, const Attribute &Attr) {
   return {LCur, toLSPPosition(Src, Attr.key().rCur())};
 }
 
+/// The range of an attribute encloses its children, wherever they are written,
+/// as in "{ a.b = 1; c = 2; a.d = 3; }" and "{ inherit (a) b; }".
+lspserver::Range encloseChildren(lspserver::Range Range,
+                                 const std::vector<DocumentSymbol> &Children) {
+  for (const DocumentSymbol &Child : Children) {
+    Range.start = std::min(Range.start, Child.range.start);
+    Range.end = std::max(Range.end, Child.range.end);
+  }
+  return Range;
+}
+
 /// Make variable's entry rich.
 void richVar(const ExprVar &Var, DocumentSymbol &Sym,
              const VariableLookupAnalysis &VLA) {
@@ -203,7 +215,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
           .detail = "attribute",
           .kind = SymbolKind::Field,
           .deprecated = false,
-          .range = getAttrRange(Src, Attr),
+          .range = encloseChildren(getAttrRange(Src, Attr), Children),
           .selectionRange = toLSPRange(Src, Attr.key().range()),
           .children = std::move(Children),
       };
@@ -217,7 +229,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
           .detail = "attribute",
           .kind = SymbolKind::Field,
           .deprecated = false,
-          .range = getAttrRange(Src, Attr),
+          .range = encloseChildren(getAttrRange(Src, Attr), Children),
           .selectionRange = toLSPRange(Src, Attr.key().range()),
           .children = std::move(Children),
       };
-- 
2.43.0


From 4aab731e0fdc7c89f975ada260692b6896f692a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:34 +0000
Subject: [PATCH 77/85] fix: variables in defaults and dynamic names are
 highlighted

---
 nixd/lib/Controller/SemanticTokens.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nixd/lib/Controller/SemanticTokens.cpp b/nixd/lib/Controller/SemanticTokens.cpp
index ab6adb0..141adba 100644
--- a/nixd/lib/Controller/SemanticTokens.cpp
+++ b/nixd/lib/Controller/SemanticTokens.cpp
@@ -141,6 +141,8 @@ public:
         if (AN.kind() == AttrName::ANK_ID) {
           add(AN, ST_Select, 0);
         }
+      } else {
+        dfs(Name.get());
       }
     }
   }
@@ -158,6 +160,7 @@ public:
       dfs(Attr.value());
     }
     for (const auto &Attr : SA.dynamicAttrs()) {
+      dfs(&Attr.key());
       dfs(Attr.value());
     }
   }
@@ -171,6 +174,7 @@ public:
         if (Formal->id()) {
           add(*Formal->id(), ST_LambdaFormal, 0);
         }
+        dfs(Formal->defaultExpr());
       }
   }
 
-- 
2.43.0


From b4762f0914b83a7111fcc978f652b18a49681c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 78/85] fix: error messages with names that are not UTF-8 do
 not abort

---
 nixd/lspserver/src/Connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index a7ad69a..7e6f34b 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -62,7 +62,8 @@ static llvm::json::Object encodeError(llvm::Error Error) {
     Message = llvm::toString(std::move(Unhandled));
 
   return llvm::json::Object{
-      {"message", std::move(Message)},
+      // File names are not necessarily UTF-8.
+      {"message", llvm::json::fixUTF8(Message)},
       {"code", int64_t(Code)},
   };
 }
-- 
2.43.0


From 8a248a32d76fdbcba48c6cc2537a4030d7b2e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:59 +0000
Subject: [PATCH 79/85] fix: formatting commands may print anything

---
 nixd/lib/Controller/Format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 2bd3475..4233755 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -137,6 +137,13 @@ void Controller::onFormat(const DocumentFormattingParams &Params,
       return;
     }
 
+    // Texts in the protocol are UTF-8.
+    if (!llvm::json::isUTF8(Response)) {
+      Reply(error("formatting {0} command printed invalid UTF-8",
+                  FormatCommand[0]));
+      return;
+    }
+
     if (Response == Code) {
       Reply(std::vector<TextEdit>{});
       return;
-- 
2.43.0


From e4d76c34ccb6dc90b5b2a3215282c46bdde6599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 80/85] fix: processes forked at the same time do not inherit
 each other's pipes

---
 nixd/lib/Support/ForkPiped.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 9f225d3..a4f9864 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -3,6 +3,7 @@
 #include <cerrno>
 
 #include <fcntl.h>
+#include <mutex>
 #include <signal.h> // NOLINT(modernize-deprecated-headers)
 #include <system_error>
 #include <unistd.h>
@@ -13,6 +14,11 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
   int PipeIn[2];
   int PipeOut[2];
   int PipeErr[2];
+
+  // Nobody may fork before the new pipes are marked.
+  static std::mutex ForkLock;
+  std::lock_guard Guard(ForkLock);
+
   if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
     throw std::system_error(errno, std::generic_category());
 
-- 
2.43.0


From 7aaac14313770ece563749918a5426801d5d4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 81/85] fix: hover shows long descriptions of packages without
 a short one

---
 nixd/lib/Controller/Hover.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index f8ccb5d..3fc9014 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -71,16 +71,18 @@ class NixpkgsHoverProvider {
       OS << "\n";
     }
 
-    if (Package.Description) {
+    if (Package.Description || Package.LongDescription)
       OS << "## Description" << "\n\n";
+
+    if (Package.Description) {
       OS << *Package.Description;
       OS << "\n\n";
+    }
 
-      if (Package.LongDescription) {
-        OS << "\n\n";
-        OS << *Package.LongDescription;
-        OS << "\n\n";
-      }
+    if (Package.LongDescription) {
+      OS << "\n\n";
+      OS << *Package.LongDescription;
+      OS << "\n\n";
     }
 
     return OS.str();
-- 
2.43.0


From 3c8286269925b7129cc1ddc5fcc32c3623c4c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:33 +0000
Subject: [PATCH 82/85] fix: definition falls back to the value if the
 package's position is no location

---
 nixd/lib/Controller/Definition.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 49edd89..74997a9 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -182,8 +182,8 @@ class NixpkgsDefinitionProvider {
 
   /// \brief Parse nix-rolled location: file:line -> lsp Location
   ///
-  /// "meta.position" may be anything, throws if it isn't such a location.
-  static Location parseLocation(llvm::StringRef Position) {
+  /// "meta.position" may be anything, it isn't necessarily such a location.
+  static std::optional<Location> parseLocation(llvm::StringRef Position) {
     llvm::StringRef File = Position;
     lspserver::Position P{0, 0};
     // Firstly, find ":". There might be some in the name of the file.
@@ -194,7 +194,7 @@ class NixpkgsDefinitionProvider {
       P.line = std::max(Line, 0);
     }
     if (!llvm::sys::path::is_absolute(File))
-      throw NoLocationsFoundInNixpkgsException();
+      return std::nullopt;
     return Location{
         .uri = URIForFile::canonicalize(File, File),
         .range = {P, P},
@@ -223,7 +223,8 @@ public:
 
     // Prioritize package location if it exists.
     if (const std::optional<std::string> &Position = Desc->PackageDesc.Position)
-      return Locations{parseLocation(*Position)};
+      if (std::optional<Location> Loc = parseLocation(*Position))
+        return Locations{*Loc};
 
     // Use the location in "ValueMeta".
     if (const auto &Loc = Desc->Meta.Location)
-- 
2.43.0


From cdd10d5553e38aac69669f47723f0e34f8b96f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:05 +0000
Subject: [PATCH 83/85] fix: names in documentation links are percent-encoded

---
 nixd/lib/Controller/CodeActions/NoogleDoc.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/NoogleDoc.cpp b/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
index 2669d42..9211fc5 100644
--- a/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
+++ b/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
@@ -5,6 +5,7 @@
 
 #include <nixf/Basic/Nodes/Expr.h>
 
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/JSON.h>
 
 namespace nixd {
@@ -20,7 +21,16 @@ std::string buildNoogleUrl(const std::vector<std::string> &Path) {
   std::string Url = "https://noogle.dev/f";
   for (const auto &Segment : Path) {
     Url += "/";
-    Url += Segment;
+    // Names may be quoted, and contain any characters.
+    for (unsigned char C : Segment) {
+      if (llvm::isAlnum(C) || llvm::StringRef("-._~'").contains(C)) {
+        Url += static_cast<char>(C);
+      } else {
+        Url += '%';
+        Url += llvm::hexdigit(C >> 4);
+        Url += llvm::hexdigit(C & 15);
+      }
+    }
   }
   return Url;
 }
-- 
2.43.0


From e6a9ffdff42674a26078820a6cc05c545ccb2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 84/85] fix: nixf-tidy reports on text that is not UTF-8

Names from the text are arguments of diagnostics.  Where they are not UTF-8,
serializing the report threw, and nothing was printed at all.
---
 libnixf/tools/nixf-tidy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnixf/tools/nixf-tidy.cpp b/libnixf/tools/nixf-tidy.cpp
index b4c575b..f5786d9 100644
--- a/libnixf/tools/nixf-tidy.cpp
+++ b/libnixf/tools/nixf-tidy.cpp
@@ -48,8 +48,9 @@ int main(int Argc, const char *Argv[]) {
   nlohmann::json V;
   to_json(V, Diags);
 
-  if (PrettyPrint)
-    std::cout << std::setw(4);
-  std::cout << V << "\n";
+  // The input may be anything, but JSON has to be UTF-8.
+  std::cout << V.dump(PrettyPrint ? 4 : -1, ' ', /*ensure_ascii=*/false,
+                      nlohmann::json::error_handler_t::replace)
+            << "\n";
   return 0;
 }
-- 
2.43.0


From f8a4964cd9c7dc32962a67526d5864fc3d9f3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 85/85] fix: escaped braces in diagnostic messages are
 unescaped

"{{" and "}}" are written in messages for braces that are no placeholders,
but were shown doubled.
---
 libnixf/src/Basic/Diagnostic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Basic/Diagnostic.cpp b/libnixf/src/Basic/Diagnostic.cpp
index a0a3626..e47c782 100644
--- a/libnixf/src/Basic/Diagnostic.cpp
+++ b/libnixf/src/Basic/Diagnostic.cpp
@@ -16,7 +16,8 @@ std::string simpleFormat(const char *Fmt,
       Cur += 2;
     } else {
       SS << *Cur;
-      ++Cur;
+      // "{{" and "}}" are escaped braces.
+      Cur += (*Cur == '{' || *Cur == '}') && *(Cur + 1) == *Cur ? 2 : 1;
     }
   }
   return SS.str();
-- 
2.43.0

