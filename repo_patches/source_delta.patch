From f82ef1580a54abfc7ba5f01329a479e188e1c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 01/23] fix: do not read past the end when a string ends in a
 backslash

---
 libnixf/src/Parse/Lexer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..e160b58 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,10 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    consume();
+    // There is nothing to escape if '\\' is the last character.
+    if (!eof())
+      consume();
     Tok = tok_string_escape;
     break;
   case '$':
@@ -440,7 +443,8 @@ Token Lexer::lexIndString() {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
       // ''\ escapes any character
-      consume();
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From 1b7a09eb310e165eb1c1a121b3ca4d556618f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 02/23] fix: parse paths with adjacent interpolations

---
 libnixf/src/Parse/ParseStrings.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..167b239 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,23 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
+    // Fragments and interpolations may come in any order, e.g. ./a${b}${c}/d
+    while (true) {
       Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
-        break;
-      if (Next.kind() == tok_dollar_curly) {
+      if (Current.kind() == tok_path_fragment) {
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+        End = Current.rCur();
+        continue;
+      }
+      if (Current.kind() == tok_dollar_curly) {
         if (auto Expr = parseInterpolation())
           Fragments.emplace_back(std::move(Expr));
+        End = LastToken->rCur();
         continue;
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+      break; // path_end
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From 88af22779a3488c9754a23e986612ead6170b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 03/23] fix: give division the precedence of multiplication

'/' fell through to '++', so 'a / b / c' was read as 'a / (b / c)' and
'a * b / c' as 'a * (b / c)'.
---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..cab54d1 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,8 +57,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
   // % op_negate
-- 
2.43.0


From 83b83e72850f1b5bc2210d46c83fd5187eb54097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 04/23] fix: bind logical negation tighter than attribute set
 update

'!a // b' was read as '!(a // b)'; Nix reads '(!a) // b'.
---
 libnixf/src/Parse/ParseOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index cab54d1..49c9bd6 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -69,8 +69,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
-  case tok_op_not:
-    return 11;
+  case tok_op_not: // %left NOT
+    return 13;
   case tok_op_negate:
     return 100;
   default:
-- 
2.43.0


From d74f1c32becc9e4b571ab990a880ccd748b1af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:31 +0000
Subject: [PATCH 05/23] fix: bind unary minus tighter than the has-attribute
 operator

'-a ? b' was read as '-(a ? b)'; Nix reads '(-a) ? b'.
---
 libnixf/src/Parse/ParseOp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 49c9bd6..b6e1884 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -67,6 +67,9 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   }
 }
 
+/// %nonassoc '?', binds weaker than the unary minus only.
+constexpr unsigned HasAttrBP = 20;
+
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not: // %left NOT
@@ -140,6 +143,8 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > HasAttrBP)
+        return Prefix;
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 8e1630f594a0bdf044dafb99fb15bb9f9171f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 06/23] fix: names of inherit that are quoted or dynamic no
 longer abort the analysis

'{ inherit "a"; }' and '{ inherit ${a}; }' read the name as a plain identifier.
---
 libnixf/src/Sema/SemaActions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..e4402e0 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -308,6 +308,11 @@ void Sema::lowerInheritName(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
 void Sema::lowerInherit(SemaAttrs &Attr, const Inherit &Inherit) {
   for (const std::shared_ptr<AttrName> &Name : Inherit.names()) {
     assert(Name);
+    if (!Name->isStatic()) {
+      // Not allowed here, there is nothing to desugar. Only report it.
+      lowerInheritName(Attr, Name, nullptr, Attribute::AttributeKind::Inherit);
+      continue;
+    }
     auto [Desugar, Kind] = desugarInheritExpr(Name, Inherit.expr());
     lowerInheritName(Attr, Name, std::move(Desugar), Kind);
   }
@@ -337,9 +342,14 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // The name may be quoted: inherit "a";
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(Range, Name->staticName());
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From 8e582ad1cd789fd40e5fbac2d12bab438f4506e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 07/23] fix: list the operator of has-attribute and formals'
 commas as children

---
 libnixf/include/nixf/Basic/Nodes/Lambda.h | 4 ++--
 libnixf/include/nixf/Basic/Nodes/Op.h     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Lambda.h b/libnixf/include/nixf/Basic/Nodes/Lambda.h
index d7af996..48798ec 100644
--- a/libnixf/include/nixf/Basic/Nodes/Lambda.h
+++ b/libnixf/include/nixf/Basic/Nodes/Lambda.h
@@ -42,9 +42,9 @@ public:
 
   [[nodiscard]] ChildVector children() const override {
     if (isEllipsis()) {
-      return {Ellipsis.get()};
+      return {Ellipsis.get(), Comma.get()};
     }
-    return {ID.get(), Default.get()};
+    return {ID.get(), Default.get(), Comma.get()};
   }
 };
 
diff --git a/libnixf/include/nixf/Basic/Nodes/Op.h b/libnixf/include/nixf/Basic/Nodes/Op.h
index a159784..43fdb81 100644
--- a/libnixf/include/nixf/Basic/Nodes/Op.h
+++ b/libnixf/include/nixf/Basic/Nodes/Op.h
@@ -68,7 +68,7 @@ public:
   [[nodiscard]] AttrPath *attrpath() const { return Path.get(); }
 
   [[nodiscard]] ChildVector children() const override {
-    return {E.get(), Path.get()};
+    return {E.get(), Path.get(), &op()};
   }
 };
 
-- 
2.43.0


From 01aef8acdb29171619be4d5d848740bdca1a5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 08/23] fix: answer requests for unknown methods instead of
 stopping the server

---
 nixd/lspserver/src/LSPServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..ee3a57e 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -46,7 +46,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID),
+               llvm::make_error<LSPError>("method not found: " + Method.str(),
+                                          ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From 42d7fa6e8a92c4313877fbfd57b390bf03fed552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:51 +0000
Subject: [PATCH 09/23] fix: ignore replies with foreign IDs instead of
 throwing

---
 nixd/lspserver/src/LSPServer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index ee3a57e..e9118ee 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -7,8 +7,8 @@
 #include <llvm/Support/Error.h>
 #include <llvm/Support/JSON.h>
 
+#include <climits>
 #include <mutex>
-#include <stdexcept>
 
 namespace lspserver {
 
@@ -57,21 +57,21 @@ bool LSPServer::onReply(llvm::json::Value ID,
   log("<-- reply({0})", ID);
   std::optional<Callback<llvm::json::Value>> CB;
 
-  if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
+  // IDs of our calls are integers, anything else does not belong to a call.
+  if (auto OptI = ID.getAsInteger();
+      OptI && *OptI >= INT_MIN && *OptI <= INT_MAX) {
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
     auto I = static_cast<int>(*OptI);
     if (PendingCalls.contains(I)) {
       CB = std::move(PendingCalls[I]);
       PendingCalls.erase(I);
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
     // Ignore this error
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     return true;
   }
   // Invoke the callback outside of the critical zone, because we just do not
-- 
2.43.0


From a68318de7ebb14275ae1ea864e4cf03eb465a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 10/23] fix: do not invoke a pending callback while holding the
 lock of pending calls

---
 nixd/lspserver/src/LSPServer.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index e9118ee..467ccf5 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -81,20 +81,28 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  int Ret;
+  int OldestID = 0;
+  std::optional<Callback<llvm::json::Value>> OldestCallback;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      OldestID = Begin->first;
+      OldestCallback = std::move(Begin->second);
+      PendingCalls.erase(Begin);
+    }
+  }
+  // Invoke the callback outside of the critical zone, it may issue new calls.
+  if (OldestCallback) {
+    (*OldestCallback)(
+        error("failed to receive a client reply for request ({0})", OldestID));
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+         MaxPendingCalls, OldestID);
   }
   return Ret;
 }
-- 
2.43.0


From fcbd8a8a406ee3c8ac2ef79f02193dbd68102946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 11/23] fix: do not take a failed read for bytes of the message

---
 nixd/lspserver/src/Connection.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..ab4d574 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -229,15 +229,19 @@ InboundPort::readStandardMessage(std::string &Buffer) {
   }
 
   Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
+  for (size_t Pos = 0; Pos < ContentLength;) {
 
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    ssize_t Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
 
-    if (Read == 0) {
+    if (Read == -1 && errno == EINTR)
+      continue;
+
+    if (Read <= 0) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
     }
+    Pos += Read;
   }
   return llvm::json::parse(Buffer);
 }
-- 
2.43.0


From 3c4e07c6dd63734a61b097ec33511b4c01da939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 12/23] fix: read what was written before the writer hung up

---
 nixd/lspserver/src/Connection.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index ab4d574..4c2eb33 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -179,12 +179,6 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     if (Close)
       return false;
 
-    // POLLHUB: hang up from the writer side
-    // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
-      return false;
-    }
-
     if (FDs[0].revents & POLLIN) {
       ssize_t BytesRead = read(fd, &Ch, 1);
       if (BytesRead == -1) {
@@ -197,6 +191,10 @@ bool readLine(int fd, const std::atomic<bool> &Close,
           return true;
         Line += Ch;
       }
+    } else if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+      // POLLHUB: hang up from the writer side, and everything it wrote was read
+      // POLLNVAL: invalid request (fd not open)
+      return false;
     }
 
     if (kill(ClientProcessID, 0) < 0) {
-- 
2.43.0


From f5f9f35b0e21fe0374fec0bb9ea660f5b960b17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:45 +0000
Subject: [PATCH 13/23] fix: hold the lock of the configuration while it is set
 from the command line

---
 nixd/lib/Controller/LifeTime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 0aac76d..af9ad44 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -189,6 +189,7 @@ void Controller::
                            "nixos options");
   }
   try {
+    std::lock_guard _(ConfigLock);
     Config = parseCLIConfig();
   } catch (LLVMErrorException &Err) {
     lspserver::elog("parse CLI config error: {0}, {1}", Err.what(),
-- 
2.43.0


From da67f556f3621a7e38d32914dc848d259b29ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 14/23] fix: lspserver: do not cut columns of positions to 32
 bits

---
 nixd/lspserver/src/SourceCode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/SourceCode.cpp b/nixd/lspserver/src/SourceCode.cpp
index b7f7583..f661b42 100644
--- a/nixd/lspserver/src/SourceCode.cpp
+++ b/nixd/lspserver/src/SourceCode.cpp
@@ -76,8 +76,8 @@ size_t lspLength(llvm::StringRef Code) {
 // the specified encoding.
 // Conceptually, this converts to the encoding, truncates to CodeUnits,
 // converts back to UTF-8, and returns the length in bytes.
-static size_t measureUnits(llvm::StringRef U8, int Units, OffsetEncoding Enc,
-                           bool &Valid) {
+static size_t measureUnits(llvm::StringRef U8, int64_t Units,
+                           OffsetEncoding Enc, bool &Valid) {
   Valid = Units >= 0;
   if (Units <= 0)
     return 0;
-- 
2.43.0


From 3f1a297de5f6819faede56225a309b86a5e32b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 15/23] fix: refuse markup content without a valid kind instead
 of crashing

---
 nixd/lspserver/src/Protocol.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6ba5110..d718c74 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1074,14 +1074,6 @@ static llvm::StringRef toTextKind(MarkupKind Kind) {
   llvm_unreachable("Invalid MarkupKind");
 }
 
-static MarkupKind fromTextKind(llvm::StringRef Kind) {
-  if (Kind == "plaintext")
-    return MarkupKind::PlainText;
-  if (Kind == "markdown")
-    return MarkupKind::Markdown;
-  llvm_unreachable("Invalid MarkupKind");
-}
-
 bool fromJSON(const llvm::json::Value &V, MarkupKind &K, llvm::json::Path P) {
   auto Str = V.getAsString();
   if (!Str) {
@@ -1116,10 +1108,7 @@ llvm::json::Value toJSON(const MarkupContent &MC) {
 bool fromJSON(const llvm::json::Value &Params, MarkupContent &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  std::string MarkupKind;
-  O.map("kind", MarkupKind);
-  R.kind = fromTextKind(MarkupKind);
-  return O.mapOptional("value", R.value);
+  return O && O.map("kind", R.kind) && O.mapOptional("value", R.value);
 }
 
 llvm::json::Value toJSON(const Hover &H) {
-- 
2.43.0


From 90c240e0433c4c7fa9bccb132f65709b01d18784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 16/23] fix: completion items without a kind or format read
 indeterminate values

---
 nixd/lspserver/src/Protocol.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index d718c74..2a1d446 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1198,14 +1198,15 @@ llvm::json::Value toJSON(const CompletionItem &CI) {
 bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  int Kind;
-  if (!O.mapOptional("kind", Kind))
+  auto Kind = static_cast<int>(R.kind);
+  if (!O || !O.mapOptional("kind", Kind))
     return false;
   R.kind = static_cast<CompletionItemKind>(Kind);
 
-  if (!O.mapOptional("insertTextFormat", Kind))
+  auto Format = static_cast<int>(R.insertTextFormat);
+  if (!O.mapOptional("insertTextFormat", Format))
     return false;
-  R.insertTextFormat = static_cast<InsertTextFormat>(Kind);
+  R.insertTextFormat = static_cast<InsertTextFormat>(Format);
   return O                                                              //
          && O.map("label", R.label)                                     //
          && O.mapOptional("detail", R.detail)                           //
-- 
2.43.0


From 07298cdf4124b83a9e1bbcc0a9e34445a3e15b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 17/23] fix: call hierarchy parameters that are no object are
 refused, not dereferenced

---
 nixd/lspserver/src/Protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 2a1d446..6fd9ca9 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1528,7 +1528,7 @@ bool fromJSON(const llvm::json::Value &Params, CallHierarchyItem &I,
 bool fromJSON(const llvm::json::Value &Params,
               CallHierarchyIncomingCallsParams &C, llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  return O.map("item", C.item);
+  return O && O.map("item", C.item);
 }
 
 llvm::json::Value toJSON(const CallHierarchyIncomingCall &C) {
@@ -1538,7 +1538,7 @@ llvm::json::Value toJSON(const CallHierarchyIncomingCall &C) {
 bool fromJSON(const llvm::json::Value &Params,
               CallHierarchyOutgoingCallsParams &C, llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  return O.map("item", C.item);
+  return O && O.map("item", C.item);
 }
 
 llvm::json::Value toJSON(const CallHierarchyOutgoingCall &C) {
-- 
2.43.0


From d499b2731d3eb1fa82d83731bf31ec960d9fa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:59 +0000
Subject: [PATCH 18/23] fix: read the URIs of create, rename and delete
 operations from their members

---
 nixd/lspserver/src/Protocol.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6fd9ca9..c6dd9e4 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -311,15 +311,16 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
   // DocumentChange is a variant: TextDocumentEdit | CreateFile | RenameFile |
   // DeleteFile Resource operations have a "kind" field; TextDocumentEdit does
   // not.
+  llvm::json::ObjectMapper M(Params, P);
   const auto *O = Params.getAsObject();
-  if (!O)
+  if (!M || !O)
     return false;
 
   // Check for "kind" field to distinguish resource operations
   if (auto Kind = O->getString("kind")) {
     if (*Kind == "create") {
       CreateFile CF;
-      if (!fromJSON(Params, CF.uri, P.field("uri")))
+      if (!M.map("uri", CF.uri))
         return false;
       // Options are optional, parse if present
       if (const auto *OptsObj = O->getObject("options")) {
@@ -336,8 +337,7 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "rename") {
       RenameFile RF;
-      if (!fromJSON(Params, RF.oldUri, P.field("oldUri")) ||
-          !fromJSON(Params, RF.newUri, P.field("newUri")))
+      if (!M.map("oldUri", RF.oldUri) || !M.map("newUri", RF.newUri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         RF.options = RenameFileOptions{};
@@ -353,7 +353,7 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "delete") {
       DeleteFile DF;
-      if (!fromJSON(Params, DF.uri, P.field("uri")))
+      if (!M.map("uri", DF.uri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         DF.options = DeleteFileOptions{};
-- 
2.43.0


From e7dd0286b08ab47b0609c0fb5d4de8177fee13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 19/23] fix: text before an interpolation or a closing quote is
 escaped when strings are rewritten

---
 nixd/lib/Controller/CodeActions/RewriteString.cpp | 14 ++++++++++++++
 nixd/lib/Controller/CodeActions/Utils.cpp         |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..27653df 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -28,6 +28,8 @@ bool isIndentedString(llvm::StringRef Src,
 /// Escapes:
 /// - '' -> ''' (two single quotes become three)
 /// - ${ -> ''${ (prevent interpolation)
+/// - a trailing $ -> ''$ (an interpolation may follow, `$${` is none)
+/// - ' at the end or before $ -> ''\' (must not join the quotes after it)
 std::string escapeForIndentedString(llvm::StringRef S) {
   std::string Result;
   Result.reserve(S.size() + S.size() / 8);
@@ -42,6 +44,18 @@ std::string escapeForIndentedString(llvm::StringRef S) {
       continue;
     }
 
+    // A lone quote must not become part of the '' that may follow it
+    if (C == '\'' && (I + 1 == S.size() || S[I + 1] == '$')) {
+      Result += "''\\'";
+      continue;
+    }
+
+    // A trailing $ must not swallow the $ of an interpolation after it
+    if (C == '$' && I + 1 == S.size()) {
+      Result += "''$";
+      continue;
+    }
+
     // Check for ${ that needs escaping
     if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
       Result += "''${";
diff --git a/nixd/lib/Controller/CodeActions/Utils.cpp b/nixd/lib/Controller/CodeActions/Utils.cpp
index 4f9346f..bf236cb 100644
--- a/nixd/lib/Controller/CodeActions/Utils.cpp
+++ b/nixd/lib/Controller/CodeActions/Utils.cpp
@@ -75,6 +75,9 @@ std::string escapeNixString(llvm::StringRef S) {
       if (I + 1 < S.size() && S[I + 1] == '{') {
         Result += "\\${";
         ++I; // Skip the '{'
+      } else if (I + 1 == S.size()) {
+        // An interpolation may follow, and `$${` does not interpolate
+        Result += "\\$";
       } else {
         Result += C;
       }
-- 
2.43.0


From 5f6c4abdd557b0f5a182dbc2092565a68296f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 20/23] fix: converting inherit to a binding quotes names and
 parenthesises sources

---
 .../CodeActions/InheritToBinding.cpp          | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
index faa5fbe..c7fdddf 100644
--- a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
+++ b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
@@ -7,11 +7,30 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Expr.h>
 
 #include <sstream>
 
 namespace nixd {
 
+namespace {
+
+/// \brief Check if attributes can be selected from this without parentheses.
+bool isSelectable(const nixf::Expr &E) {
+  switch (E.kind()) {
+  case nixf::Node::NK_ExprVar:
+  case nixf::Node::NK_ExprParen:
+  case nixf::Node::NK_ExprAttrs:
+    return true;
+  case nixf::Node::NK_ExprSelect:
+    return !static_cast<const nixf::ExprSelect &>(E).defaultExpr();
+  default:
+    return false;
+  }
+}
+
+} // namespace
+
 void addInheritToBindingAction(const nixf::Node &N,
                                const nixf::ParentMapAnalysis &PM,
                                const std::string &FileURI, llvm::StringRef Src,
@@ -42,16 +61,24 @@ void addInheritToBindingAction(const nixf::Node &N,
     return;
 
   const std::string &AttrName = Name->staticName();
+  const std::string Key = quoteNixAttrKey(AttrName);
 
   // Build the replacement text
   std::ostringstream NewText;
-  NewText << AttrName << " = ";
+  NewText << Key << " = ";
 
   if (Inherit.expr()) {
     // inherit (expr) name; -> name = expr.name;
-    NewText << Inherit.expr()->src(Src) << "." << AttrName;
+    if (isSelectable(*Inherit.expr()))
+      NewText << Inherit.expr()->src(Src);
+    else
+      NewText << "(" << Inherit.expr()->src(Src) << ")";
+    NewText << "." << Key;
   } else {
     // inherit name; -> name = name;
+    // Only identifiers are variables, "foo bar" would be a string
+    if (!isValidNixIdentifier(AttrName))
+      return;
     NewText << AttrName;
   }
   NewText << ";";
-- 
2.43.0


From f1ec5aacd3da6f9666bbd5a811cd8c13744c8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:32 +0000
Subject: [PATCH 21/23] fix: negative numbers in converted JSON arrays are
 parenthesised

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..8a27905 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -57,6 +57,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // A list element cannot be a negation
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
-- 
2.43.0


From 45fb7ab0c86da283134055d9021d32e3fc53b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:05 +0000
Subject: [PATCH 22/23] fix: write floats from JSON with a point, as Nix reads
 no 1e+20

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 8a27905..beb2cb9 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -7,6 +7,7 @@
 #include <llvm/Support/JSON.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
 #include <iomanip>
 #include <sstream>
 
@@ -39,6 +40,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
     std::ostringstream SS;
     SS << std::setprecision(17) << *D;
     Out = SS.str();
+    // Nix reads no number like `1e+20`, there must be a point before the e
+    if (Out.find('.') == std::string::npos)
+      Out.insert(std::min(Out.find('e'), Out.size()), ".0");
   } else if (auto S = V.getAsString()) {
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
-- 
2.43.0


From ec543ee3d4a98ec40af61409ce959efeff9a3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:58 +0000
Subject: [PATCH 23/23] fix: read the escapes of indented strings by their own
 rules

''$ was read as ' and ''' as a single quote, so that converting such a
string to a double-quoted one changed its content.
---
 libnixf/src/Parse/ParseStrings.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 167b239..cc625db 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -78,8 +78,13 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
       // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
-      if (EscapeSeq.size() >= 2) {
-        char Escaped = EscapeSeq[1];
+      if (EscapeSeq == "''$") {
+        Unescaped = "$";
+      } else if (EscapeSeq == "'''") {
+        Unescaped = "''";
+      } else if (EscapeSeq.size() >= 2) {
+        // The escaped character is the last one: \n, or ''\n in ''-strings.
+        char Escaped = EscapeSeq.back();
         switch (Escaped) {
         case 'n':
           Unescaped = "\n";
-- 
2.43.0

