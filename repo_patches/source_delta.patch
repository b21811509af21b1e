From e1fda997151bdc5fe124fb20e6e6e6faf05f20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 01/92] fix: report the pointee of either subscript operand

'4[a]' needs the complete type of *a just like 'a[4]', but only the
left-hand operand was looked at.
---
 iwyu.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 0373578..cd60ea9 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -2011,8 +2011,13 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     if (CanIgnoreCurrentASTNode())
       return true;
 
-    ReportTypeUse(CurrentLoc(), GetTypeOf(expr->getLHS()),
-                  DerefKind::RemoveRefsAndPtr);
+    // The operands may come in either order: a[4] is the same as 4[a].
+    const Type* base_type = GetTypeOf(expr->getLHS());
+    const Type* rhs_type = GetTypeOf(expr->getRHS());
+    if (rhs_type->isPointerType() && !base_type->isPointerType())
+      base_type = rhs_type;
+
+    ReportTypeUse(CurrentLoc(), base_type, DerefKind::RemoveRefsAndPtr);
     return true;
   }
 
-- 
2.43.0


From c2f07933f22358a0ee1a824f4eea2aed95acc0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 02/92] fix: treat pointer increment and decrement as pointer
 arithmetic

'p++' and '--p' need the complete pointee type, but only a forward
declaration was asked for, so following the advice broke the build.
---
 iwyu.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index cd60ea9..e7c19bb 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -265,6 +265,7 @@ using clang::TypedefDecl;
 using clang::TypedefNameDecl;
 using clang::TypedefType;
 using clang::UnaryExprOrTypeTraitExpr;
+using clang::UnaryOperator;
 using clang::UnresolvedLookupExpr;
 using clang::UsingDecl;
 using clang::UsingDirectiveDecl;
@@ -2048,6 +2049,23 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     return true;
   }
 
+  // Incrementing or decrementing a pointer is pointer arithmetic, too.
+  bool VisitUnaryOperator(UnaryOperator* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (!expr->isIncrementDecrementOp())
+      return true;
+
+    const Expr* term = expr->getSubExpr()->IgnoreImpCasts()->IgnoreParens();
+    const Type* type = GetTypeOf(term);
+    if (type->isPointerType()) {
+      ReportTypeUse(GetLocation(term), type, DerefKind::RemoveRefsAndPtr);
+    }
+
+    return true;
+  }
+
   bool VisitTypeTraitExpr(TypeTraitExpr* expr) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From b58f45ec9356326383cc847065f1ef1a6bd700cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 03/92] fix: do not count on source files to provide types

Only declarations in headers are asked to provide return types and
autocast parameter types, yet calls also relied on functions declared in
a source file to do so.  Nobody then reported the type, and the advice
removed the #include the call needs.
---
 iwyu.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index e7c19bb..1f73522 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1495,7 +1495,8 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
               GetFileEntry(call_expr), GetFileEntry(*fn_redecl))) {
         continue;
       }
-      if (fn_redecl->isThisDeclarationADefinition() && !IsInHeader(*fn_redecl))
+      // Source files provide nothing: see CanBeProvidedTypeComponent.
+      if (!IsInHeader(*fn_redecl))
         continue;
       for (const Type* type : autocast_types) {
         const set<const Type*> components =
@@ -1511,6 +1512,9 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     const FunctionDecl* providing_decl = decl;
     if (const auto* method = dyn_cast<CXXMethodDecl>(decl))
       providing_decl = GetFromLeastDerived(method);
+    // Source files provide nothing: see CanBeProvidedTypeComponent.
+    if (!IsInHeader(providing_decl))
+      return set<const Type*>();
     const Type* return_type = providing_decl->getReturnType().getTypePtr();
     return GetProvidedTypes(return_type, GetLocation(providing_decl));
   }
-- 
2.43.0


From e49dab8028e8eae3f0d6b9970af59a16d497ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 04/92] fix: copying a C struct needs its definition

'*a = *b' in C is an lvalue conversion rather than an operator call, so
only a forward declaration was asked for and the advice did not compile.
---
 iwyu.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iwyu.cc b/iwyu.cc
index 1f73522..00207ee 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -1864,8 +1864,13 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
       case clang::CK_Dependent:
         break;
 
-      // These casts don't require any iwyu action.
+      // In C, reading a struct or union object copies it.
       case clang::CK_LValueToRValue:
+        if (from_type->isRecordType())
+          required_full_types.push_back(from_type);
+        break;
+
+      // These casts don't require any iwyu action.
       case clang::CK_AtomicToNonAtomic:
       case clang::CK_NonAtomicToAtomic:
       case clang::CK_ReinterpretMemberPointer:
-- 
2.43.0


From 1546caf45c02f3c4b8605641dd4a0089a4657c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 05/92] fix: throwing a pointer needs the pointee's definition

The language requires the pointed-to type of a thrown pointer to be
complete, but only a forward declaration was asked for.
---
 iwyu.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 00207ee..380fa8b 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -193,6 +193,7 @@ using clang::CXXNewExpr;
 using clang::CXXOperatorCallExpr;
 using clang::CXXRecordDecl;
 using clang::CXXTemporaryObjectExpr;
+using clang::CXXThrowExpr;
 using clang::CXXTypeidExpr;
 using clang::CallExpr;
 using clang::CastExpr;
@@ -1782,6 +1783,19 @@ class IwyuBaseAstVisitor : public BaseAstVisitor<Derived> {
     return true;
   }
 
+  // Throwing a pointer requires the pointee to be complete.
+  bool VisitCXXThrowExpr(CXXThrowExpr* expr) {
+    if (CanIgnoreCurrentASTNode())
+      return true;
+
+    if (const Expr* thrown = expr->getSubExpr()) {
+      const Type* type = GetTypeOf(thrown);
+      if (type->isPointerType())
+        ReportTypeUse(CurrentLoc(), type, DerefKind::RemoveRefsAndPtr);
+    }
+    return true;
+  }
+
   // The explicit traversal of 'CXXForRangeStmt' is introduced to avoid
   // a problem with code like this:
   //
-- 
2.43.0


From ad23990c5e62fa3b6b2f085b5d400f9dd38cdfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 06/92] fix: count edits for the exit code at every verbosity

With --verbose=0 the additions and removals are not printed and were not
counted either, so --error never took effect.
---
 iwyu_output.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..7931b15 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2116,7 +2116,14 @@ size_t PrintableDiffs(const string& filename,
     return 0;
   }
 
+  // Count the edits whether or not they are printed: the exit code depends on
+  // them.
   size_t num_edits = 0;
+  for (const auto& key_line : sorted_lines) {
+    const OneIncludeOrForwardDeclareLine* line = key_line.second;
+    if (line->is_desired() != line->is_present())
+      ++num_edits;
+  }
 
   // First, new desired includes and forward-declares.
   if (ShouldPrint(1)) {
@@ -2127,7 +2134,6 @@ size_t PrintableDiffs(const string& filename,
       if (line->is_desired() && !line->is_present()) {
         output_lines.push_back(
           PrintableIncludeOrForwardDeclareLine(*line, aqi));
-        ++num_edits;
       }
     }
   }
@@ -2142,8 +2148,6 @@ size_t PrintableDiffs(const string& filename,
         output_lines.push_back(
             PrintableIncludeOrForwardDeclareLine(*line, aqi));
         output_lines.back().add_prefix("- ");
-
-        ++num_edits;
       }
     }
   }
-- 
2.43.0


From 477cb609b9636e6830f95a0c36ecd4607d41024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 07/92] fix: never report on files that are not files

A --check_also pattern matching everything made the built-in predefines
buffer a file to report on, and an internal check failed on its implicit
includes.
---
 iwyu_globals.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index d59aa6a..609c9c9 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -548,6 +548,8 @@ void AddGlobToReportIWYUViolationsFor(const string& glob) {
 }
 
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
+  if (IsSpecialFile(file))
+    return false;
   const string filepath = GetFilePath(file);
   for (const string& glob : GlobalFlags().check_also)
     if (GlobMatchesPath(glob.c_str(), filepath.c_str()))
-- 
2.43.0


From 7eb96f5a6d61fe6d47468bb900ac8755063181cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 08/92] fix: report continued include directives from their
 first line

The line range of '#include \<newline> "x.h"' named only the line with
the file name; removing that line left a dangling '#include \'.
---
 iwyu_output.cc       | 17 +++++++++--------
 iwyu_output.h        |  6 ++++--
 iwyu_preprocessor.cc | 10 ++++++++--
 iwyu_preprocessor.h  |  3 +++
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 7931b15..f1598c0 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -535,10 +535,10 @@ OneIncludeOrForwardDeclareLine::OneIncludeOrForwardDeclareLine(
 
 OneIncludeOrForwardDeclareLine::OneIncludeOrForwardDeclareLine(
     OptionalFileEntryRef included_file, const string& quoted_include,
-    int linenum)
+    int start_linenum, int end_linenum)
     : line_("#include " + quoted_include),
-      start_linenum_(linenum),
-      end_linenum_(linenum),
+      start_linenum_(start_linenum),
+      end_linenum_(end_linenum),
       quoted_include_(quoted_include),
       included_file_(included_file) {
 }
@@ -582,9 +582,10 @@ void IwyuFileInfo::AddAssociatedHeader(const IwyuFileInfo* other) {
 }
 
 void IwyuFileInfo::AddInclude(OptionalFileEntryRef includee,
-                              const string& quoted_includee, int linenumber) {
+                              const string& quoted_includee,
+                              int start_linenum, int end_linenum) {
   OneIncludeOrForwardDeclareLine new_include(includee, quoted_includee,
-                                             linenumber);
+                                             start_linenum, end_linenum);
   new_include.set_present();
 
   // It's possible for the same #include to be seen multiple times
@@ -594,7 +595,7 @@ void IwyuFileInfo::AddInclude(OptionalFileEntryRef includee,
   for (const OneIncludeOrForwardDeclareLine& line : lines_) {
     if (line.LineNumbersMatch(new_include)) {
       VERRS(6) << "Ignoring repeated include: "
-               << GetFilePath(file_) << ":" << linenumber
+               << GetFilePath(file_) << ":" << end_linenum
                << " -> " << GetFilePath(includee) << "\n";
       return;
     }
@@ -605,7 +606,7 @@ void IwyuFileInfo::AddInclude(OptionalFileEntryRef includee,
   direct_includes_as_fileentries_.insert(includee);
   direct_includes_.insert(quoted_includee);
   VERRS(6) << "Found include: "
-           << GetFilePath(file_) << ":" << linenumber
+           << GetFilePath(file_) << ":" << end_linenum
            << " -> " << GetFilePath(includee) << "\n";
 }
 
@@ -1809,7 +1810,7 @@ void CalculateDesiredIncludesAndForwardDeclares(
       CHECK_(use.has_suggested_header() && "Full uses should have #includes");
       if (!Contains(*lines, use.suggested_header())) { // must be added
         lines->push_back(OneIncludeOrForwardDeclareLine(
-            use.decl_file(), use.suggested_header(), -1));
+            use.decl_file(), use.suggested_header(), -1, -1));
       }
     } else if (!use.has_suggested_header()) {
       // Forward-declare uses that are already satisfied by an #include
diff --git a/iwyu_output.h b/iwyu_output.h
index 8eb3338..28c552e 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -153,7 +153,8 @@ class OneIncludeOrForwardDeclareLine {
   explicit OneIncludeOrForwardDeclareLine(const clang::NamedDecl* fwd_decl);
   explicit OneIncludeOrForwardDeclareLine(clang::ElaboratedTypeLoc);
   OneIncludeOrForwardDeclareLine(clang::OptionalFileEntryRef included_file,
-                                 const string& quoted_include, int linenum);
+                                 const string& quoted_include,
+                                 int start_linenum, int end_linenum);
 
   const string& line() const {
     return line_;
@@ -273,7 +274,8 @@ class IwyuFileInfo {
   // a forward-declaration or a using-declaration.
 
   void AddInclude(clang::OptionalFileEntryRef includee,
-                  const string& quoted_includee, int linenumber);
+                  const string& quoted_includee, int start_linenum,
+                  int end_linenum);
   // definitely_keep_fwd_decl tells us that we should never suggest
   // the fwd-decl be removed, even if we don't see any uses of it.
   void AddForwardDeclare(const clang::NamedDecl* fwd_decl,
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..69ae748 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -588,8 +588,13 @@ void IwyuPreprocessorInfo::AddDirectInclude(
   }
   ++num_includes_seen_[includer];
 
-  GetFromFileInfoMap(includer)->AddInclude(
-      includee, include_name_as_written, GetLineNumber(includer_loc));
+  // A directive continued over several lines starts at its '#'.
+  const int end_linenum = GetLineNumber(includer_loc);
+  const int start_linenum = IsSpecialFile(includer)
+                                ? end_linenum
+                                : GetLineNumber(include_hash_loc_);
+  GetFromFileInfoMap(includer)->AddInclude(includee, include_name_as_written,
+                                           start_linenum, end_linenum);
   // Make sure the includee has a file-info-map entry too.
   InsertIntoFileInfoMap(includee, include_name_as_written);
 
@@ -779,6 +784,7 @@ void IwyuPreprocessorInfo::InclusionDirective(SourceLocation hash_loc,
                                               const Module* suggested_module,
                                               bool module_imported,
                                               CharacteristicKind file_type) {
+  include_hash_loc_ = hash_loc;
   include_filename_loc_ = filename_range.getBegin();
 }
 
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 9be44b4..c61b897 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -362,6 +362,9 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   // location corresponds to.
   clang::SourceLocation include_filename_loc_;
 
+  // Location of the '#' of that inclusion directive, with the same caveats.
+  clang::SourceLocation include_hash_loc_;
+
   // Keeps track of which files have the "always_keep" pragma, so they can be
   // marked as such for all includers.
   std::set<clang::OptionalFileEntryRef> always_keep_files_;
-- 
2.43.0


From b1e3828e1d40a54051326a9f5453ec14e9fe2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:14 +0000
Subject: [PATCH 09/92] fix: accept an escaped newline before or inside an
 include's name

Reading the name back from the source text failed an internal check when a
line continuation was glued to it.  The preprocessor already tells us the
name.
---
 iwyu_lexer_utils.cc  | 18 ------------------
 iwyu_lexer_utils.h   |  9 ---------
 iwyu_preprocessor.cc | 20 +++++---------------
 iwyu_preprocessor.h  |  8 ++++----
 4 files changed, 9 insertions(+), 46 deletions(-)

diff --git a/iwyu_lexer_utils.cc b/iwyu_lexer_utils.cc
index e95ce77..3cd7469 100644
--- a/iwyu_lexer_utils.cc
+++ b/iwyu_lexer_utils.cc
@@ -68,24 +68,6 @@ SourceLocation GetLocationAfter(
   return start_loc.getLocWithOffset(needle_loc - data + needle.length());
 }
 
-string GetIncludeNameAsWritten(
-    SourceLocation include_loc,
-    const CharacterDataGetterInterface& data_getter) {
-  const string data = GetSourceTextUntilEndOfLine(include_loc, data_getter).str();
-  if (data.empty())
-    return data;
-  string::size_type endpos = string::npos;
-  if (data[0] == '<') {
-    endpos = data.find('>', 1);
-  } else if (data[0] == '"') {
-    endpos = data.find('"', 1);
-  } else {
-    CHECK_UNREACHABLE_("Unexpected token being #included");
-  }
-  CHECK_(endpos != string::npos && "No end-character found for #include");
-  return data.substr(0, endpos+1);
-}
-
 // Get the text of a given token.
 string GetTokenText(const Token& token,
                     const CharacterDataGetterInterface& data_getter) {
diff --git a/iwyu_lexer_utils.h b/iwyu_lexer_utils.h
index 37ead5a..1258a09 100644
--- a/iwyu_lexer_utils.h
+++ b/iwyu_lexer_utils.h
@@ -63,15 +63,6 @@ clang::SourceLocation GetLocationAfter(
     clang::SourceLocation start_loc, const string& needle,
     const CharacterDataGetterInterface& data_getter);
 
-// Returns the include-name as written, including <>'s and ""'s.
-// Resolved computed includes first, so given
-//    #define INC  <stdio.h>
-//    #include INC
-// If include_loc points to the second INC, we'll return '<stdio.h>'.
-string GetIncludeNameAsWritten(
-    clang::SourceLocation include_loc,
-    const CharacterDataGetterInterface& data_getter);
-
 // Get the text of a given token.
 string GetTokenText(const clang::Token& token,
                     const CharacterDataGetterInterface& data_getter);
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 69ae748..f189d99 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -92,15 +92,6 @@ string NormalizeNamespaces(string symbol) {
 //------------------------------------------------------------
 // Utilities for examining source files.
 
-// For a particular #include line that include_loc points to,
-// returns the include as written by the user, including <> or "".
-// This works even for computed #includes ('#include MACRO'): we
-// point to the string the macro expands to.
-// Simplifying wrapper around the iwyu_lexer function.
-static string GetIncludeNameAsWritten(SourceLocation include_loc) {
-  return GetIncludeNameAsWritten(include_loc, DefaultDataGetter());
-}
-
 //------------------------------------------------------------
 // Utilities on macros.
 
@@ -785,7 +776,7 @@ void IwyuPreprocessorInfo::InclusionDirective(SourceLocation hash_loc,
                                               bool module_imported,
                                               CharacteristicKind file_type) {
   include_hash_loc_ = hash_loc;
-  include_filename_loc_ = filename_range.getBegin();
+  include_name_as_written_ = AddQuotes(filename.str(), is_angled);
 }
 
 void IwyuPreprocessorInfo::FileChanged(SourceLocation loc,
@@ -817,10 +808,9 @@ void IwyuPreprocessorInfo::FileChanged(SourceLocation loc,
 void IwyuPreprocessorInfo::FileSkipped(const FileEntryRef& file,
                                        const Token& filename,
                                        CharacteristicKind file_type) {
-  CHECK_(include_filename_loc_.isValid() &&
+  CHECK_(!include_name_as_written_.empty() &&
          "Must skip file only for actual inclusion directive");
-  const string include_name_as_written =
-      GetIncludeNameAsWritten(include_filename_loc_);
+  const string include_name_as_written = include_name_as_written_;
   const SourceLocation include_loc =
       GetInstantiationLoc(filename.getLocation());
   ERRSYM(GetFileEntry(include_loc))
@@ -842,9 +832,9 @@ void IwyuPreprocessorInfo::FileChanged_EnterFile(
       GlobalSourceManager()->getFileID(file_beginning));
   string include_name_as_written;
   if (!IsInSpecialFile(include_loc)) {
-    CHECK_(include_filename_loc_.isValid() &&
+    CHECK_(!include_name_as_written_.empty() &&
            "Include from not built-in file must have inclusion directive");
-    include_name_as_written = GetIncludeNameAsWritten(include_filename_loc_);
+    include_name_as_written = include_name_as_written_;
   }
   ERRSYM(GetFileEntry(include_loc))
       << "[ #include    ] " << include_name_as_written << " ("
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index c61b897..4132fad 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -355,12 +355,12 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   // "associated" pragma.
   clang::SourceLocation associated_pragma_location_;
 
-  // Filename spelling location in the last encountered inclusion directive.
+  // Quoted include name in the last encountered inclusion directive.
   // Should be used only in FileChanged_EnterFile, FileSkipped when
   // corresponding callback is caused by inclusion directive.  Don't use in
-  // other places because it is unclear which inclusion directive filename
-  // location corresponds to.
-  clang::SourceLocation include_filename_loc_;
+  // other places because it is unclear which inclusion directive the name
+  // corresponds to.
+  string include_name_as_written_;
 
   // Location of the '#' of that inclusion directive, with the same caveats.
   clang::SourceLocation include_hash_loc_;
-- 
2.43.0


From 6bd9a47225f33ab0d28f7ed184205d02d8609426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 10/92] fix: end an include's line range where its name ends

---
 iwyu_preprocessor.cc | 16 +++++++++++-----
 iwyu_preprocessor.h  |  4 +++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index f189d99..f055bb0 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -579,11 +579,16 @@ void IwyuPreprocessorInfo::AddDirectInclude(
   }
   ++num_includes_seen_[includer];
 
-  // A directive continued over several lines starts at its '#'.
-  const int end_linenum = GetLineNumber(includer_loc);
-  const int start_linenum = IsSpecialFile(includer)
-                                ? end_linenum
-                                : GetLineNumber(include_hash_loc_);
+  // A directive continued over several lines starts at its '#', and ends after
+  // the file name unless that comes from a macro.
+  int start_linenum = GetLineNumber(includer_loc);
+  int end_linenum = start_linenum;
+  if (!IsSpecialFile(includer)) {
+    start_linenum = GetLineNumber(include_hash_loc_);
+    if (include_end_loc_.isFileID() &&
+        GetFileEntry(include_end_loc_) == includer)
+      end_linenum = GetLineNumber(include_end_loc_);
+  }
   GetFromFileInfoMap(includer)->AddInclude(includee, include_name_as_written,
                                            start_linenum, end_linenum);
   // Make sure the includee has a file-info-map entry too.
@@ -776,6 +781,7 @@ void IwyuPreprocessorInfo::InclusionDirective(SourceLocation hash_loc,
                                               bool module_imported,
                                               CharacteristicKind file_type) {
   include_hash_loc_ = hash_loc;
+  include_end_loc_ = filename_range.getEnd();
   include_name_as_written_ = AddQuotes(filename.str(), is_angled);
 }
 
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 4132fad..7ae772d 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -362,8 +362,10 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   // corresponds to.
   string include_name_as_written_;
 
-  // Location of the '#' of that inclusion directive, with the same caveats.
+  // Where that inclusion directive starts, at its '#', and where its file name
+  // ends, with the same caveats.
   clang::SourceLocation include_hash_loc_;
+  clang::SourceLocation include_end_loc_;
 
   // Keeps track of which files have the "always_keep" pragma, so they can be
   // marked as such for all includers.
-- 
2.43.0


From 11894f391ab42f357d571d4af907354b5aa21150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 11/92] fix: do not look for the end of a deleted #if

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..1b50885 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1097,7 +1097,8 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
-    if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
+    if (file_lines[start_line].deleted or
+        file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE)):
       start_line += 1
       continue
     end_line = start_line + 1
-- 
2.43.0


From a2d100cf6ff609f87072de5a37893faeabc92203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 12/92] fix: tell apart enums to declare by their names

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 1b50885..a2105d1 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2080,7 +2080,8 @@ def _GetSymbolNameFromForwardDeclareLine(line):
   # Turn anonymous namespaces into their proper symbol representation.
   namespaces_in_line = iwyu_namespace_re.findall(line.replace(
     "namespace {", "namespace (anonymous namespace) {"))
-  symbols_in_line = symbolname_re.findall(line)
+  # The underlying type of an enum is not part of its name.
+  symbols_in_line = symbolname_re.findall(re.sub(r'(?<!:):(?!:).*', '', line))
   symbol_name = symbols_in_line[-1]
   if (namespaces_in_line):
     symbol_name = '::'.join(namespaces_in_line) + '::' + symbol_name
-- 
2.43.0


From a67b6bffeafa14c4a1ad08210f22d3b770490255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 13/92] fix: do not let closed functions hide later namespaces

---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index a2105d1..7931cd0 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1341,7 +1341,9 @@ def _GetToplevelReorderSpans(file_lines):
     elif line_info.type == _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE:
       namespace_depth += 1
     elif line_info.type == _NAMESPACE_END_RE:
+      # Not every '}' closes a namespace.
       namespace_depth -= max(line_info.line.count('}'), 1)
+      namespace_depth = max(namespace_depth, 0)
     if namespace_depth > 0:
       in_namespace[line_number] = True
       if line_info.type is None:
-- 
2.43.0


From 08638b16bffd2164029ae66a922456828bfa2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:55 +0000
Subject: [PATCH 14/92] fix: never insert into the middle of a reorder span

---
 fix_includes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 7931cd0..d15cdb9 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1810,9 +1810,13 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       # #includes go before them.
       line_number += 1
     else:
-      # If the "first line" we would return is inside the forward-declare
-      # reorder span, just return that span, rather than creating a new
+      # If the "first line" we would return is inside a reorder span whose
+      # start was deleted, just return that span, rather than creating a new
       # span inside the existing one.
+      for reorder_span in good_reorder_spans:
+        if reorder_span[0] < line_number < reorder_span[1]:
+          return reorder_span
+      # Likewise for the forward-declare reorder span.
       if first_reorder_spans:
         assert list(first_reorder_spans.keys()) == [_FORWARD_DECLARE_KIND], \
             first_reorder_spans
-- 
2.43.0


From 58fb3b659d2bd1dafcac9315f5c8d8c51ad2a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:12 +0000
Subject: [PATCH 15/92] fix: skip only the #define after a header guard

---
 fix_includes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index d15cdb9..db9edda 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1797,7 +1797,10 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       line_number += 1
     elif file_lines[line_number].type == _HEADER_GUARD_RE:
       seen_header_guard = True
-      line_number += 2    # skip over the header guard
+      line_number += 1    # skip over the header guard
+      if (line_number < len(file_lines) and
+          _HEADER_GUARD_DEFINE_RE.match(file_lines[line_number].line)):
+        line_number += 1  # and its #define
     elif file_lines[line_number].type == _BLANK_LINE_RE:
       line_number += 1
     elif file_lines[line_number].type == _PRAGMA_ONCE_LINE_RE:
-- 
2.43.0


From 51f9f9db2573d9c92ec10c059159e0df9cf0979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:53 +0000
Subject: [PATCH 16/92] fix: an #if with an #else is no header guard

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index db9edda..e3f7580 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -628,7 +628,7 @@ def _MarkHeaderGuardIfPresent(file_lines):
 
   We define a header-guard as follows: an #ifdef where there is
   nothing contentful before or after the #ifdef.  Also, the #ifdef
-  should have no #elif in it (though we don't currently test that).
+  should have no #elif or #else in it.
   This catches the common case of an 'ifdef guard' in .h file, such
   as '#ifndef FOO_H\n#define FOO_H\n...contents...\n#endif', but it
   can also catch other whole-program #ifdefs, such as
@@ -670,6 +670,8 @@ def _MarkHeaderGuardIfPresent(file_lines):
       ifdef_depth -= 1
       if ifdef_depth == 0:   # The end of our #ifdef!
         break
+    elif file_lines[ifdef_end].type == _ELSE_RE and ifdef_depth == 1:
+      return                 # Two halves do not make a header guard.
   else:                      # for/else
     return False             # Weird: never found a close to this #ifdef
 
-- 
2.43.0


From 069a47c9dd1ee7aa66342f4877ec48b5b55992c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 17/92] fix: keep comments of one-line namespaces

---
 fix_includes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index e3f7580..f2fbc2c 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2025,7 +2025,7 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
   """
   # iwyu input is very regular, which is nice.
   iwyu_namespace_re = re.compile(r'namespace ([^{]*) { ')
-  iwyu_classname_re = re.compile(r'{ ([^{}]*) }')
+  iwyu_classname_re = re.compile(r'{ ([^{}]*) }[ }]*(//.*)?')
 
   retval = []
   current_namespaces = []
@@ -2044,7 +2044,8 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
       m = iwyu_classname_re.search(line)
       if not m:
         raise FixIncludesError('Malformed namespace line from iwyu: %s', line)
-      retval.append(m.group(1))
+      comment = '  ' + m.group(2) if m.group(2) else ''
+      retval.append(m.group(1) + comment)
     else:
       retval.append(line)
 
-- 
2.43.0


From 65ae37863998d8d77ad2e45bd3dc0d56d06c83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 18/92] fix: never insert into a macro definition

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index f2fbc2c..ea0ad8a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1801,7 +1801,8 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
       seen_header_guard = True
       line_number += 1    # skip over the header guard
       if (line_number < len(file_lines) and
-          _HEADER_GUARD_DEFINE_RE.match(file_lines[line_number].line)):
+          _HEADER_GUARD_DEFINE_RE.match(file_lines[line_number].line) and
+          not file_lines[line_number].line.rstrip().endswith('\\')):
         line_number += 1  # and its #define
     elif file_lines[line_number].type == _BLANK_LINE_RE:
       line_number += 1
-- 
2.43.0


From 573e5d8ba8e88c9062755dcdc408df4c74dd6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 19/92] fix: count lines the way the compiler does

---
 fix_includes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index ea0ad8a..4a78370 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -61,6 +61,7 @@ __author__ = 'csilvers@google.com (Craig Silverstein)'
 
 import difflib
 import argparse
+import io
 import os
 import re
 import sys
@@ -588,12 +589,13 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
+      # Read without newline translation to keep the original line
       # endings.  Later in WriteFile, they will be used as-is.
       # This will reduce spurious changes to the original files.
       # The lines we add will have the linesep determined by
-      # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # FileInfo.  Form feeds and the like do not end lines.
+      text = io.StringIO(content.decode(fileinfo.encoding), newline='')
+      return list(text)
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From d679d107f3d0757922ad426c88e4fbb5086aefd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 20/92] fix: skip files that lost their include lines

---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 4a78370..ecedb6b 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -769,6 +769,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0


From 23c63c109fb1927c2155282240d9bc0550ebcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 21/92] fix: go on with the other files when one is missing

---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index ecedb6b..991c7b4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2290,6 +2290,8 @@ def FixManyFiles(iwyu_records, flags):
       files_fixed += 1
     except FixIncludesError as why:
       print('ERROR: %s - skipping file %s' % (why, iwyu_record.filename))
+    except (IOError, OSError) as why:
+      print("Skipping '%s': %s" % (iwyu_record.filename, why))
 
   print('IWYU edited %d files on your behalf.\n' % files_fixed)
   return files_fixed
-- 
2.43.0


From f1deb6092ead0df8be0e4014a1710a750cb01b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 22/92] fix: do not truncate files that cannot be encoded

---
 fix_includes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 991c7b4..79ff482 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -603,11 +603,17 @@ def _ReadFile(filename, fileinfo):
 
 def _WriteFile(filename, fileinfo, file_lines):
   """Write the given file-lines to the file."""
+  # file_lines already have line endings, so join with ''.
+  content = ''.join(file_lines)
+  encoding = fileinfo.encoding
+  if encoding == 'ascii':
+    encoding = 'utf-8'         # the lines we add need not be ascii
+  try:
+    content = content.encode(encoding)
+  except UnicodeError as why:
+    raise FixIncludesError('cannot encode the new lines: %s' % why)
   try:
     with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
       f.write(content)
   except (IOError, OSError) as why:
     print("Error writing '%s': %s" % (filename, why))
-- 
2.43.0


From 88956ed1840e83436389634016b3ae497754109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 23/92] fix: read files in any encoding

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 79ff482..00c07e7 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -576,7 +576,9 @@ class FileInfo(object):
       if try_decode(bytebuf, 'utf-8-sig'):
         return 'utf-8-sig'
 
-    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252']
+    # ISO 8859-1 describes any sequence of bytes.
+    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252',
+                 'iso-8859-1']
     for encoding in encodings:
       if try_decode(bytebuf, encoding):
         return encoding
-- 
2.43.0


From 15735feb6a75315b2e0f087e6d5a94261b5c6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 24/92] fix: do not take code after a comment's end for comment

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 00c07e7..b6f1560 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -743,7 +743,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
         # TODO(csilvers): this mis-diagnoses lines like '/*comment*/class Foo;'
         line_info.type = None
     elif in_c_style_comment and _C_COMMENT_END_RE.match(line_info.line):
-      line_info.type = _COMMENT_LINE_RE
+      # Code after the end of the comment is content.
+      m = _C_COMMENT_END_RE.match(line_info.line)
+      line_info.type = None if m.group(1) else _COMMENT_LINE_RE
       in_c_style_comment = False
     elif in_c_style_comment:
       line_info.type = _COMMENT_LINE_RE
-- 
2.43.0


From e9c973e4ea1aea4c484b6fbf8581ae91a5ddcba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 25/92] fix: accept includes without a space

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index b6f1560..420614a 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -110,7 +110,7 @@ _NAMESPACE_END_RE = re.compile(r'\s*(})|'
                                r'\s*(U_NAMESPACE_END)|'
                                r'\s*(HASH_NAMESPACE_DECLARATION_END)')
 # The group (in parens) holds the unique 'key' identifying this #include.
-_INCLUDE_RE = re.compile(r'\s*#\s*include\s+([<"][^">]+[>"])')
+_INCLUDE_RE = re.compile(r'\s*#\s*include\s*([<"][^">]+[>"])')
 # We don't need this to actually match forward-declare lines (we get
 # that information from the iwyu input), but we do need an RE here to
 # serve as an index to _LINE_TYPES.  So we use an RE that never matches.
-- 
2.43.0


From 5c9b124c9caf5dd079ceee7e23a86da084f6c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:41 +0000
Subject: [PATCH 26/92] fix: add lines after an unterminated last line, not to
 it

---
 fix_includes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 420614a..f1674b4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2242,6 +2242,11 @@ def FixFileLines(iwyu_record, file_lines, flags, fileinfo):
     # Add line separators to the new lines.
     new_lines = [nl.rstrip() + fileinfo.linesep for nl in new_lines]
 
+    # The last line of the file need not have one.
+    if new_lines and output_lines and output_lines[-1] is not None and (
+        not output_lines[-1].endswith(('\n', '\r'))):
+      output_lines[-1] += fileinfo.linesep
+
     output_lines.extend(new_lines)
     line_number = current_reorder_span[1]               # go to end of span
 
-- 
2.43.0


From 62977e0eac513344266517f9e8b8356517ebaffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 27/92] fix: recognize barrier includes without a space

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index f1674b4..e9ddee0 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -149,7 +149,7 @@ _LINE_TYPES = [_COMMENT_LINE_RE, _BLANK_LINE_RE,
 # #includes to happen before them to function properly.
 # (Note that the barrier has no effect on where new #includes are
 # added; it just affects the reordering of existing #includes.)
-_BARRIER_INCLUDES = re.compile(r'^\s*#\s*include\s+(<linux/)')
+_BARRIER_INCLUDES = re.compile(r'^\s*#\s*include\s*(<linux/)')
 
 # A list of all known extensions for C++ source files, used to
 # guess if a filename is a source file or a header.
-- 
2.43.0


From cc3e6d7e89b34e04993b0e24bdcde0e649841bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 28/92] fix: add nothing to spans inside braces

---
 fix_includes.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index e9ddee0..ccc52cf 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1313,6 +1313,14 @@ def _ShouldInsertBlankLine(decorated_move_span, next_decorated_move_span,
   return False
 
 
+def _CountOpenBraces(line):
+  """Returns how many more braces a line of code opens than it closes."""
+  code = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'|//.*|/\*.*?\*/', '', line)
+  if code.lstrip().startswith('#'):
+    return 0
+  return code.count('{') - code.count('}')
+
+
 def _GetToplevelReorderSpans(file_lines):
   """Returns a sorted list of all reorder_spans not inside an
   #ifdef/namespace/class.
@@ -1345,9 +1353,11 @@ def _GetToplevelReorderSpans(file_lines):
   # Figuring out whether a } ends a namespace or some other languague
   # construct is hard, so as soon as we see any 'contentful' line
   # inside a namespace, we assume the entire rest of the file is in
-  # the namespace.
+  # the namespace.  Outside of namespaces we count the braces, as #includes
+  # inside of functions, initializers or extern "C" are not top-level.
   in_namespace = [False] * len(file_lines)
   namespace_depth = 0
+  code_depth = 0
   for line_number in range(len(file_lines)):
     line_info = file_lines[line_number]
     if line_info.deleted:
@@ -1357,13 +1367,16 @@ def _GetToplevelReorderSpans(file_lines):
       namespace_depth += max(line_info.line.count('{'), 1)
     elif line_info.type == _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE:
       namespace_depth += 1
+    elif line_info.type == _NAMESPACE_END_RE and code_depth > 0:
+      code_depth = max(code_depth + _CountOpenBraces(line_info.line), 0)
     elif line_info.type == _NAMESPACE_END_RE:
-      # Not every '}' closes a namespace.
       namespace_depth -= max(line_info.line.count('}'), 1)
       namespace_depth = max(namespace_depth, 0)
-    if namespace_depth > 0:
+    elif line_info.type is None and namespace_depth == 0:
+      code_depth = max(code_depth + _CountOpenBraces(line_info.line), 0)
+    if namespace_depth > 0 or code_depth > 0:
       in_namespace[line_number] = True
-      if line_info.type is None:
+      if line_info.type is None and namespace_depth > 0:
         for i in range(line_number, len(file_lines)):  # rest of file
           in_namespace[i] = True
         break
-- 
2.43.0


From 07f4a36607d13a4cf6a5a0468c80f18b6a00ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 29/92] fix: insert nothing between a comment and code on its
 last line

---
 fix_includes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index ccc52cf..dadb991 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -737,18 +737,23 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
       if not m:             # comment continues onto future lines
         line_info.type = _COMMENT_LINE_RE
         in_c_style_comment = True
+        c_style_comment_lines = [line_info]
       elif not m.group(1):  # comment extends across entire line (only)
         line_info.type = _COMMENT_LINE_RE
       else:                 # comment takes only part of line, treat as content
         # TODO(csilvers): this mis-diagnoses lines like '/*comment*/class Foo;'
         line_info.type = None
     elif in_c_style_comment and _C_COMMENT_END_RE.match(line_info.line):
-      # Code after the end of the comment is content.
+      # Code after the end of the comment is content, and so is the comment.
       m = _C_COMMENT_END_RE.match(line_info.line)
-      line_info.type = None if m.group(1) else _COMMENT_LINE_RE
+      line_info.type = _COMMENT_LINE_RE
+      if m.group(1):
+        for comment_line_info in c_style_comment_lines + [line_info]:
+          comment_line_info.type = None
       in_c_style_comment = False
     elif in_c_style_comment:
       line_info.type = _COMMENT_LINE_RE
+      c_style_comment_lines.append(line_info)
     elif (in_allman_or_mixed_namespace and
           _NAMESPACE_CONTINUE_ALLMAN_MIXED_RE.match(line_info.line)):
       in_allman_or_mixed_namespace = False
-- 
2.43.0


From 445daa9da96de860f2134e7ca86c70b86b6563d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 30/92] fix: remove nothing when sorting

---
 fix_includes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index dadb991..cd435e7 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2167,8 +2167,10 @@ def FixFileLines(iwyu_record, file_lines, flags, fileinfo):
     specified by iwyu.
   """
   # First delete the includes and forward-declares that we should delete.
-  # This is easy since iwyu tells us the line numbers.
-  if not (flags.safe_headers and _MayBeHeaderFile(iwyu_record.filename)):
+  # This is easy since iwyu tells us the line numbers.  Without changes to
+  # make (when sorting, for instance) there is nothing to clean up, either.
+  if (iwyu_record.HasContentfulChanges() and
+      not (flags.safe_headers and _MayBeHeaderFile(iwyu_record.filename))):
     _DeleteLinesAccordingToIwyu(iwyu_record, file_lines)
 
   # With these deletions, we may be able to merge together some
-- 
2.43.0


From cfdf62bfa6caf1aff056137db8dcc52d8ce41f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:31 +0000
Subject: [PATCH 31/92] fix: find relative files named on the command line

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index cd435e7..261c653 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2370,7 +2370,8 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
       print('ERROR: %s' % why)
       continue
     filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
-    if files_to_process is not None and filename not in files_to_process:
+    if (files_to_process is not None and
+        NormalizeFilePath(cwd, filename) not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
       continue
     if flags.ignore_re and re.search(flags.ignore_re, filename):
-- 
2.43.0


From 4bf4c91922114c0a00d690d532ffec19668e5cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 32/92] fix: apply a relative base directory once

---
 fix_includes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 261c653..b9c5f49 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2369,7 +2369,7 @@ def ProcessIWYUOutput(f, files_to_process, flags, cwd):
     except FixIncludesError as why:
       print('ERROR: %s' % why)
       continue
-    filename = NormalizeFilePath(flags.basedir, iwyu_record.filename)
+    filename = iwyu_record.filename       # relative to basedir already
     if (files_to_process is not None and
         NormalizeFilePath(cwd, filename) not in files_to_process):
       print('(skipping %s: not listed on commandline)' % filename)
-- 
2.43.0


From c2d6aad5c6090d48ca038c437a88aa2b581d641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 33/92] fix: take only names with colons for nested
 declarations

---
 fix_includes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index b9c5f49..ac210cf 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -447,7 +447,9 @@ class IWYUOutputParser(object):
       if m:
         line_range = (int(m.group(1)), int(m.group(2))+1)
         retval.seen_forward_declare_lines.add(line_range)
-        if '::' in line:
+        # Only the name tells: namespaces and types may hold '::', too.
+        declaration = re.sub(r'(?<!:):(?!:).*|;.*', '', line.split('{')[-1])
+        if re.search(r'::\S*\s*$', declaration):
             retval.nested_forward_declare_lines.add(line_range)
 
     # IWYUOutputRecord.includes_and_forward_declares_to_add
-- 
2.43.0


From fa721557b061b55aa8e1ae743895bf011500ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 34/92] fix: tell C from C++ headers by name alone when sorting

---
 fix_includes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index ac210cf..1dbdca2 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1707,12 +1707,11 @@ def _IsSameProject(line_info, edited_file, project):
 
 def _GetLineKind(file_line, filename, separate_project_includes):
   """Given a file_line + file being edited, return best *_KIND value or None."""
-  line_without_coments = _COMMENT_RE.sub('', file_line.line)
   if file_line.deleted:
     return None
   elif _IsMainCUInclude(file_line, filename):
     return _MAIN_CU_INCLUDE_KIND
-  elif _IsSystemInclude(file_line) and '.' in line_without_coments:
+  elif _IsSystemInclude(file_line) and '.' in file_line.key:
     return _C_SYSTEM_INCLUDE_KIND
   elif _IsSystemInclude(file_line):
     return _CXX_SYSTEM_INCLUDE_KIND
-- 
2.43.0


From e83b9451cbaf5c002b12eae669c288d33b5b0325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 35/92] fix: run entries once if selections overlap

---
 iwyu_tool.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..18fdbfb 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -349,6 +349,7 @@ def slice_compilation_db(compilation_db, selection):
     selection = [os.path.realpath(p) for p in selection]
 
     new_db = []
+    selected = set()
     for path in selection:
         if not os.path.exists(path):
             print('warning: \'%s\' not found on disk.' % path, file=sys.stderr)
@@ -360,7 +361,9 @@ def slice_compilation_db(compilation_db, selection):
                   file=sys.stderr)
             continue
 
-        new_db.extend(found)
+        # Selections may overlap, but no entry needs more than one run.
+        new_db.extend(e for e in found if id(e) not in selected)
+        selected.update(id(e) for e in found)
 
     return new_db
 
-- 
2.43.0


From 29512e72af64670cbf75533d97080278c3defb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 36/92] fix: recognize compiler wrappers named by path

---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18fdbfb..d00e716 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -306,7 +306,7 @@ class Invocation(object):
         else:
             raise ValueError('Invalid compilation database entry: %s' % entry)
 
-        if command[0] in KNOWN_COMPILER_WRAPPERS:
+        if os.path.basename(command[0]) in KNOWN_COMPILER_WRAPPERS:
             # Remove the compiler wrapper from the command.
             command = command[1:]
 
-- 
2.43.0


From b2bc34d1d060761ed9674fc6649d6f7265265815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 37/92] fix: do not lose output that is not valid UTF-8

---
 iwyu_tool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index d00e716..107d5ca 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -263,7 +263,8 @@ class Process(object):
         if not self.output:
             self.proc.wait()
             self.outfile.seek(0)
-            self.output = self.outfile.read().decode("utf-8")
+            self.output = self.outfile.read().decode(
+                "utf-8", errors="backslashreplace")
             self.outfile.close()
 
         return self.output
-- 
2.43.0


From d2d531d2c8d0148ec3b04ec8bcaebc2e2eae21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 38/92] fix: do not hang for a negative number of jobs

---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 107d5ca..1bcd447 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -526,7 +526,7 @@ def _bootstrap(sys_argv):
     args = parser.parse_args(argv)
 
     jobs = args.jobs
-    if jobs == 0:
+    if jobs <= 0:
         jobs = os.cpu_count() or 1
 
     return main(args.dbpath, args.source, args.verbose,
-- 
2.43.0


From 72269d1ce748547f9eaf91a33e476739dd3c3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 39/92] fix: go on if a process cannot be started

---
 iwyu_tool.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 1bcd447..eb751f6 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -281,6 +281,22 @@ class Process(object):
         return cls(process, outfile)
 
 
+class FailedProcess(object):
+    """ Stands in for an IWYU process that could not be started. """
+    returncode = 1
+
+    def __init__(self, error):
+        self.error = error
+
+    def poll(self):
+        """ Return the exit code of the failure. """
+        return self.returncode
+
+    def get_output(self):
+        """ Return a description of the failure. """
+        return 'error: failed to run IWYU: %s' % self.error
+
+
 KNOWN_COMPILER_WRAPPERS=frozenset([
     "ccache"
 ])
@@ -325,7 +341,10 @@ class Invocation(object):
         if verbose:
             print('# %s' % self, file=sys.stderr)
 
-        return Process.start(self)
+        try:
+            return Process.start(self)
+        except OSError as why:
+            return FailedProcess(why)
 
 
 def fixup_compilation_db(compilation_db):
-- 
2.43.0


From 7e23aee458a6bc8e1f4b4812d1c7e8c7826f1677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 40/92] fix: convert removals without line numbers

---
 iwyu_tool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index eb751f6..04528e3 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -47,7 +47,7 @@ ADD_RE = re.compile('^(.*?) +// (.*)$')
 SHOULD_REMOVE_RE = re.compile(r'^(.*?) should remove these lines:$')
 FULL_LIST_RE = re.compile(r'The full include-list for (.*?):$')
 END_RE = re.compile(r'^---$')
-LINES_RE = re.compile(r'^- (.*?)  // lines ([0-9]+)-[0-9]+$')
+LINES_RE = re.compile(r'^- (.*?)(?:  // lines ([0-9]+)-[0-9]+)?$')
 
 
 GENERAL, ADD, REMOVE, LIST = range(4)
@@ -94,7 +94,10 @@ def clang_formatter(output, style):
                                  (state[1], style, line))
         elif state[0] == REMOVE:
             match = LINES_RE.match(line)
-            line_no = match.group(2) if match else '1'
+            if not match:
+                formatted.append(line)
+                continue
+            line_no = match.group(2) or '1'
             formatted.append("%s:%s:1: %s: superfluous '%s'" %
                              (state[1], line_no, style, match.group(1)))
 
-- 
2.43.0


From 5fb3c3fccca8376444191aea22c26e08ca9adaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 41/92] fix: do not break lines at form feeds and the like

---
 iwyu_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 04528e3..aa422be 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -58,7 +58,7 @@ def clang_formatter(output, style):
     formatted = []
 
     state = (GENERAL, None)
-    for line in output.splitlines():
+    for line in re.split(r'\r?\n', output):
         match = CORRECT_RE.match(line)
         if match:
             formatted.append('%s:1:1: note: #includes/fwd-decls are correct' %
-- 
2.43.0


From a0cf405f9ac64d93d1a2ecb7079a21b2e6f94f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 42/92] fix: boost-1.75 mapping of
 gil/extension/io/targa/detail/write.hpp

The entry was spelt with a doubled slash, which no include line has, so
it never took effect.
---
 boost-1.75-all.imp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost-1.75-all.imp b/boost-1.75-all.imp
index fd67274..a479145 100644
--- a/boost-1.75-all.imp
+++ b/boost-1.75-all.imp
@@ -5779,7 +5779,7 @@
     { "include": ["<boost/gil/extension/io/targa/detail/scanline_read.hpp>", "private", "<boost/gil/extension/io/targa/read.hpp>", "public"] },
     { "include": ["<boost/gil/extension/io/targa/detail/supported_types.hpp>", "private", "<boost/gil/extension/io/targa/read.hpp>", "public"] },
     { "include": ["<boost/gil/extension/io/targa/detail/supported_types.hpp>", "private", "<boost/gil/extension/io/targa/write.hpp>", "public"] },
-    { "include": ["<boost/gil/extension/io/targa/detail//write.hpp>", "private", "<boost/gil/extension/io/targa/write.hpp>", "public"] },
+    { "include": ["<boost/gil/extension/io/targa/detail/write.hpp>", "private", "<boost/gil/extension/io/targa/write.hpp>", "public"] },
     { "include": ["<boost/gil/extension/io/tiff/detail/log.hpp>", "private", "<boost/gil/extension/io/tiff/tags.hpp>", "public"] },
     { "include": ["<boost/gil/extension/io/tiff/detail/read.hpp>", "private", "<boost/gil/extension/io/tiff/read.hpp>", "public"] },
     { "include": ["<boost/gil/extension/io/tiff/detail/scanline_read.hpp>", "private", "<boost/gil/extension/io/tiff/read.hpp>", "public"] },
-- 
2.43.0


From 3f9b9a68e5a515e76ca439e36f792dc30386da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 43/92] fix: libstdc++ mapping generator: trailing comments on
 includes

The greedy pattern took everything up to the last quote or angle bracket
of the line for the header name, so an include followed by a comment
naming another header was lost.
---
 mapgen/iwyu-mapgen-libstdcxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-libstdcxx.py b/mapgen/iwyu-mapgen-libstdcxx.py
index 7f60632..d864a0d 100755
--- a/mapgen/iwyu-mapgen-libstdcxx.py
+++ b/mapgen/iwyu-mapgen-libstdcxx.py
@@ -83,7 +83,7 @@ class Header:
         has_headername = bool(re.search(r".*@headername{.*}", text))
 
         # Parse all #include directives
-        included_names = re.finditer(r'^\s*#\s*include\s*["<](.*)[">]',
+        included_names = re.finditer(r'^\s*#\s*include\s*["<]([^">\n]+)[">]',
                                      text, re.MULTILINE)
         includes = [m.group(1) for m in included_names]
 
-- 
2.43.0


From 715da34f7c522c27c804d1288dc1667940ef26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 44/92] fix: mapping generators: headers that are not UTF-8

A single Latin-1 byte in a comment ended the run with a traceback. Only
include directives matter, so decode leniently.
---
 mapgen/iwyu-mapgen-cpython.py   | 2 +-
 mapgen/iwyu-mapgen-libstdcxx.py | 2 +-
 mapgen/iwyu-mapgen-qt.py        | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mapgen/iwyu-mapgen-cpython.py b/mapgen/iwyu-mapgen-cpython.py
index ef5ad63..9bd52c9 100755
--- a/mapgen/iwyu-mapgen-cpython.py
+++ b/mapgen/iwyu-mapgen-cpython.py
@@ -29,7 +29,7 @@ INCLUDE_RE = re.compile(r'#\s*include\s+"([^"]+)"')
 
 def parse_include_names(headerpath):
     """ Parse the header file at headerpath and return all include names. """
-    with open(headerpath, 'r') as fobj:
+    with open(headerpath, 'r', errors='replace') as fobj:
         for line in fobj.readlines():
             m = INCLUDE_RE.search(line)
             if m:
diff --git a/mapgen/iwyu-mapgen-libstdcxx.py b/mapgen/iwyu-mapgen-libstdcxx.py
index d864a0d..5ec1e96 100755
--- a/mapgen/iwyu-mapgen-libstdcxx.py
+++ b/mapgen/iwyu-mapgen-libstdcxx.py
@@ -75,7 +75,7 @@ class Header:
     @classmethod
     def parse(cls, path, includename):
         """ Parse a single file into a Header. """
-        with open(path, "r") as fobj:
+        with open(path, "r", errors="replace") as fobj:
             text = fobj.read()
 
         # Some private headers use Doxygen directive '@headername{xyz}' to
diff --git a/mapgen/iwyu-mapgen-qt.py b/mapgen/iwyu-mapgen-qt.py
index 0a6022b..d768c33 100755
--- a/mapgen/iwyu-mapgen-qt.py
+++ b/mapgen/iwyu-mapgen-qt.py
@@ -80,7 +80,8 @@ class QtHeader(object):
     def get_private_headers(self):
         """ Return a list of headernames included by this header """
         if self._private_headers is None:
-            with open(self.headername, 'r') as headerfile:
+            with open(self.headername, 'r',
+                      errors='replace') as headerfile:
                 included = re.findall(r'#include "(.*)\.h"', headerfile.read())
             self._private_headers = list(included)
         return self._private_headers
-- 
2.43.0


From d04b3318d2b2b0795945f8a5ac2fde3f2387d14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 45/92] fix: CPython mapping generator: Python.h need not be
 included

The generator failed with KeyError for a tree in which no header
includes Python.h.
---
 mapgen/iwyu-mapgen-cpython.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-cpython.py b/mapgen/iwyu-mapgen-cpython.py
index 9bd52c9..eea4c66 100755
--- a/mapgen/iwyu-mapgen-cpython.py
+++ b/mapgen/iwyu-mapgen-cpython.py
@@ -74,7 +74,7 @@ def main(pythonroot):
 
     # Discard duplicates and remove Python.h itself.
     included_names = set(included_names)
-    included_names.remove('Python.h')
+    included_names.discard('Python.h')
 
     # Print mappings from name -> Python.h.
     print('[')
-- 
2.43.0


From eecb43fce42f5b74f55d6cd6607c9df8f4755c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 46/92] fix: CPython mapping generator: escape regex characters
 in names

Only periods were escaped, so the pattern for a header like c++obj.h did
not match the header it was generated for.
---
 mapgen/iwyu-mapgen-cpython.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mapgen/iwyu-mapgen-cpython.py b/mapgen/iwyu-mapgen-cpython.py
index eea4c66..b13bd9d 100755
--- a/mapgen/iwyu-mapgen-cpython.py
+++ b/mapgen/iwyu-mapgen-cpython.py
@@ -58,8 +58,9 @@ def generate_imp_lines(include_names):
         return (indent * ' ') + json.dumps(mapping)
 
     for name in sorted(include_names):
-        # Regex-escape period and build a regex matching both "" and <>.
-        map_from = r'@["<]%s[">]' % name.replace('.', '\\.')
+        # Regex-escape name and build a regex matching both "" and <>.
+        escaped = re.sub(r'([][.^$*+?(){}|\\])', r'\\\1', name)
+        map_from = r'@["<]%s[">]' % escaped
         mapping = {'include': [map_from, 'private', '<Python.h>', 'public']}
         yield jsonline(mapping, indent=2)
 
-- 
2.43.0


From a29b8c2c90acf0bb97ac4bd8889a9ea43147fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 47/92] fix: Qt mapping generator: class headers whose name
 ends in h

The pattern [!.h] excludes any name that ends in a period or an h, not
names that end in ".h", so QHash, QPainterPath and the like got no
mappings.
---
 mapgen/iwyu-mapgen-qt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapgen/iwyu-mapgen-qt.py b/mapgen/iwyu-mapgen-qt.py
index d768c33..e1072ed 100755
--- a/mapgen/iwyu-mapgen-qt.py
+++ b/mapgen/iwyu-mapgen-qt.py
@@ -134,9 +134,9 @@ def main(qtroot):
     includes_map += [("QtCore", "qnamespace", "Qt")]
 
     # Collect mapping information from Qt directory tree.
-    headers = glob.glob(os.path.join(qtroot, '**/*[!.h]'))
+    headers = glob.glob(os.path.join(qtroot, '**/*'))
     for header in headers:
-        if os.path.isdir(header):
+        if os.path.isdir(header) or header.endswith('.h'):
             continue
 
         header = QtHeader(header)
-- 
2.43.0


From 1f6a1e621fc5360463f16c5e481d72f042c5790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 48/92] fix: Qt mapping generator: sort the headers found

The order of the entries decides which of several public headers is
preferred; it was the order of the directory listing.
---
 mapgen/iwyu-mapgen-qt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-qt.py b/mapgen/iwyu-mapgen-qt.py
index e1072ed..a469928 100755
--- a/mapgen/iwyu-mapgen-qt.py
+++ b/mapgen/iwyu-mapgen-qt.py
@@ -135,7 +135,7 @@ def main(qtroot):
 
     # Collect mapping information from Qt directory tree.
     headers = glob.glob(os.path.join(qtroot, '**/*'))
-    for header in headers:
+    for header in sorted(headers):
         if os.path.isdir(header) or header.endswith('.h'):
             continue
 
-- 
2.43.0


From 10d55d9ab9dc010053bd09271d131f837496dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 49/92] fix: Qt mapping generator: trailing comments on
 includes

---
 mapgen/iwyu-mapgen-qt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapgen/iwyu-mapgen-qt.py b/mapgen/iwyu-mapgen-qt.py
index a469928..7783bbb 100755
--- a/mapgen/iwyu-mapgen-qt.py
+++ b/mapgen/iwyu-mapgen-qt.py
@@ -82,7 +82,8 @@ class QtHeader(object):
         if self._private_headers is None:
             with open(self.headername, 'r',
                       errors='replace') as headerfile:
-                included = re.findall(r'#include "(.*)\.h"', headerfile.read())
+                included = re.findall(r'#include "([^"\n]*)\.h"',
+                                      headerfile.read())
             self._private_headers = list(included)
         return self._private_headers
 
-- 
2.43.0


From 69dc52eca6c9a53963d2690c3ec69decc85c4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 50/92] fix: Apple libc mapping generator: never map to a
 private header

For chains like xlocale/_a.h -> xlocale/a.h -> a.h the output called
xlocale/a.h both public and private, and loading it aborts
include-what-you-use.
---
 mapgen/iwyu-mapgen-apple-libc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mapgen/iwyu-mapgen-apple-libc.py b/mapgen/iwyu-mapgen-apple-libc.py
index fa3aaff..b7bf6a5 100755
--- a/mapgen/iwyu-mapgen-apple-libc.py
+++ b/mapgen/iwyu-mapgen-apple-libc.py
@@ -85,6 +85,13 @@ def main(dir, verbose):
                 'public'
             ])
 
+    # a mapped header is private, so follow on to the one it is mapped to
+    # eg. xlocale/_a.h -> xlocale/a.h -> a.h
+    targets = {mapping[0]: mapping[2] for mapping in mappings}
+    for mapping in mappings:
+        while mapping[2] in targets:
+            mapping[2] = targets[mapping[2]]
+
     mappings.sort(key=itemgetter(0))
 
     print(f'# Generated using {' '.join(sys.argv)}')
-- 
2.43.0


From 3a477fbdbc46fa5cd6c729081be869cc586b2598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 51/92] fix: include mappings with cycles: expand everything
 reachable

The depth-first search did not descend into a node being calculated, so
a header in a cycle missed what the rest of the cycle maps to, and a
private header was suggested although a public one was reachable.
With a -> b, a -> d, d -> e and b -> a, b did not reach e.
---
 iwyu_include_picker.cc | 87 ++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 59 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..4d691f3 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1273,71 +1273,40 @@ void ExpandOnce(const IncludePicker::IncludeMap& m,
   nodes->swap(nodes_and_children);  // modify nodes in-place
 }
 
-enum TransitiveStatus { kUnused = 0, kCalculating, kDone };
-
-// If the filename-map maps a.h to b.h, and also b.h to c.h, then
-// there's a transitive mapping of a.h to c.h.  We want to add that
-// into the filepath map as well, to make lookups easier.  We do this
-// by doing a depth-first search for a single mapping, recursing
-// whenever the value is itself a key in the map, and putting the
-// results in a vector of all values seen.
-// NOTE: This function updates values seen in filename_map, but
-// does not invalidate any filename_map iterators.
-void MakeNodeTransitive(IncludePicker::IncludeMap* filename_map,
-                        map<string, TransitiveStatus>* seen_nodes,
-                        vector<string>* node_stack,  // used for debugging
-                        const string& key) {
-  // If we've already calculated this node's transitive closure, we're done.
-  const TransitiveStatus status = (*seen_nodes)[key];
-  if (status == kCalculating) {  // means there's a cycle in the mapping
-    // Note that cycles in mappings are generally benign, the cycle detection
-    // here is only necessary to protect the recursive algorithm from infinite
-    // regress. We will still expand all reachable nodes in the graph to a
-    // plain sequence representing the transitive closure.
-    // The expanded mappings are only used for simple lookup, never followed
-    // recursively (which could have necessitated preserving cycles and handling
-    // them in that traversal too).
-    // Log cycles at a high verbosity level to aid debugging.
-    VERRS(8) << "Ignored cycle in include mappings: ";
-    for (const string& node : *node_stack)
-      VERRS(8) << node << " -> ";
-    VERRS(8) << key << "\n";
-    return;
-  }
-  if (status == kDone)
+// Appends to reachable everything that key maps to in filename_map, directly
+// or through any chain of mappings, ignoring what is in seen_nodes already.
+// A node is followed by its own mappings, before its siblings.
+// NOTE: Cycles in mappings are generally benign; seen_nodes protects from
+// infinite regress, and every node of a cycle reaches the same nodes.
+void AddReachableNodes(const IncludePicker::IncludeMap& filename_map,
+                       const string& key,
+                       set<string>* seen_nodes,
+                       vector<MappedInclude>* reachable) {
+  const vector<MappedInclude>* children = FindInMap(&filename_map, key);
+  if (children == nullptr)
     return;
 
-  IncludePicker::IncludeMap::iterator node = filename_map->find(key);
-  if (node == filename_map->end()) {
-    (*seen_nodes)[key] = kDone;
-    return;
-  }
-
-  // Keep track of node->second as we update it, to avoid duplicates.
-  (*seen_nodes)[key] = kCalculating;
-  for (const MappedInclude& child : node->second) {
-    node_stack->push_back(child.quoted_include);
-    MakeNodeTransitive(filename_map, seen_nodes, node_stack,
-                       child.quoted_include);
-    node_stack->pop_back();
+  for (const MappedInclude& child : *children) {
+    if (seen_nodes->insert(child.quoted_include).second) {
+      reachable->push_back(child);
+      AddReachableNodes(filename_map, child.quoted_include, seen_nodes,
+                        reachable);
+    }
   }
-  (*seen_nodes)[key] = kDone;
-
-  // Our transitive closure is just the union of the closure of our
-  // children.  This routine replaces our value with this closure,
-  // by replacing each of our values with its values.  Since our
-  // values have already been made transitive, that is a closure.
-  ExpandOnce(*filename_map, &node->second);
 }
 
-// Updates the values in filename_map based on its transitive mappings.
+// If the filename-map maps a.h to b.h, and also b.h to c.h, then
+// there's a transitive mapping of a.h to c.h.  We want to add that
+// into the filepath map as well, to make lookups easier.  The expanded
+// mappings are only used for simple lookup, never followed recursively.
 void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
-  // Insert keys of filename_map here once we know their value is
-  // the complete transitive closure.
-  map<string, TransitiveStatus> seen_nodes;
-  vector<string> node_stack;
-  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
-    MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+  IncludePicker::IncludeMap transitive_map;
+  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+    set<string> seen_nodes;
+    AddReachableNodes(*filename_map, includes.first, &seen_nodes,
+                      &transitive_map[includes.first]);
+  }
+  filename_map->swap(transitive_map);
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From 5e80320155e8d4dda93ca131f80d4233b4cbee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 52/92] fix: match regexes with alternatives or an escaped
 final $ as a whole

Wrapping a pattern in ^...$ anchors only the first and the last of its
top-level alternatives, so a mapping for '@<a/.*>|<b/.*>' applied to any
header that merely starts or ends like one of them, and replaced only a part
of the name.
---
 iwyu_regex.cc | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 09aee7b..ead3696 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -13,7 +13,7 @@
 #include <regex>
 
 #include "iwyu_port.h"
-#include "iwyu_string_util.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
@@ -21,21 +21,11 @@ namespace include_what_you_use {
 
 namespace {
 
-// Add ^...$ start/end anchoring if they don't already exist.
-// This is useful to transform from search-inside-string semantics to match-
-// whole-string semantics for regex implementations that don't support the
-// latter.
-std::string Anchored(const std::string& pattern) {
-  const char* prefix = "";
-  const char* suffix = "";
-  if (!StartsWith(pattern, "^")) {
-    prefix = "^";
-  }
-  if (!EndsWith(pattern, "$")) {
-    suffix = "$";
-  }
-
-  return prefix + pattern + suffix;
+// llvm::Regex::match has search semantics, but finds the leftmost-longest
+// match, so pattern matches all of str if and only if that match spans str.
+bool MatchesWhole(const llvm::Regex& r, const std::string& str) {
+  llvm::SmallVector<llvm::StringRef, 4> matches;
+  return r.match(str, &matches) && matches[0].size() == str.size();
 }
 
 }  // anonymous namespace
@@ -55,9 +45,8 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::match has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.match(str);
+      llvm::Regex r(pattern);
+      return MatchesWhole(r, str);
     }
 
     case RegexDialect::ECMAScript: {
@@ -73,16 +62,17 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
                          const std::string& replacement) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::sub has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.sub(replacement, str);
+      // llvm::Regex::sub replaces the same match that match() finds.
+      llvm::Regex r(pattern);
+      return MatchesWhole(r, str) ? r.sub(replacement, str) : str;
     }
 
     case RegexDialect::ECMAScript: {
-      // std::regex_replace has search semantics; ensure anchored.
-      std::regex r(Anchored(pattern), std::regex_constants::ECMAScript);
-      return std::regex_replace(str, r, replacement,
-                                std::regex_constants::format_first_only);
+      // std::regex_replace has search semantics; match the whole string.
+      std::regex r(pattern, std::regex_constants::ECMAScript);
+      std::smatch matches;
+      return std::regex_match(str, matches, r) ? matches.format(replacement)
+                                               : str;
     }
   }
   CHECK_UNREACHABLE_("Unexpected regex dialect");
-- 
2.43.0


From 2c70d35dd0560b241c1bf67c79c1d17dbde71f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 53/92] fix: report contradictory visibilities instead of
 aborting

A mapping file that gives a header two visibilities (or contradicts the
default mappings) hit a CHECK.  So did a public mapping for a header that a
wildcard entry, an internal/ path or a pragma makes private.  Report the
former like any other bad mapping, and let the explicit entry stand in the
latter case.
---
 iwyu_include_picker.cc | 58 ++++++++++++++++++++++++++----------------
 iwyu_include_picker.h  | 11 +++++---
 2 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 4d691f3..7495114 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1504,18 +1504,19 @@ void IncludePicker::AddDefaultMappings(CStdLib cstdlib,
   }
 }
 
-void IncludePicker::MarkVisibility(VisibilityMap* map,
+bool IncludePicker::MarkVisibility(VisibilityMap* map,
                                    const string& key,
                                    IncludeVisibility visibility) {
   CHECK_(!has_called_finalize_added_include_lines_ && "Can't mutate anymore");
 
   // insert() leaves any old value alone, and only inserts if the key is new.
-  map->insert(make_pair(key, visibility));
-  CHECK_((*map)[key] == visibility)
-      << " Same file seen with two different visibilities: "
-      << key
-      << " Old vis: " << (*map)[key]
-      << " New vis: " << visibility;
+  const IncludeVisibility& known =
+      map->insert(make_pair(key, visibility)).first->second;
+  if (known == visibility)
+    return true;
+  VERRS(5) << "Same file seen with two different visibilities: " << key
+           << " Old vis: " << known << " New vis: " << visibility << "\n";
+  return false;
 }
 
 // AddDirectInclude lets us use some hard-coded rules to add filepath
@@ -1580,31 +1581,32 @@ void IncludePicker::AddMapping(const string& map_from,
   filepath_include_map_[map_from].push_back(map_to);
 }
 
-void IncludePicker::AddIncludeMapping(const string& map_from,
+bool IncludePicker::AddIncludeMapping(const string& map_from,
                                       IncludeVisibility from_visibility,
                                       const MappedInclude& map_to,
                                       IncludeVisibility to_visibility) {
   AddMapping(map_from, map_to);
-  MarkVisibility(&include_visibility_map_, map_from, from_visibility);
-  MarkVisibility(&include_visibility_map_, map_to.quoted_include,
-                 to_visibility);
+  return MarkVisibility(&include_visibility_map_, map_from, from_visibility) &&
+         MarkVisibility(&include_visibility_map_, map_to.quoted_include,
+                        to_visibility);
 }
 
-void IncludePicker::AddSymbolMapping(const string& map_from,
+bool IncludePicker::AddSymbolMapping(const string& map_from,
                                      const MappedInclude& map_to,
                                      IncludeVisibility to_visibility) {
   symbol_include_map_[map_from].push_back(map_to);
 
-  MarkVisibility(&include_visibility_map_, map_to.quoted_include,
-                 to_visibility);
+  return MarkVisibility(&include_visibility_map_, map_to.quoted_include,
+                        to_visibility);
 }
 
 void IncludePicker::AddIncludeMappings(const IncludeMapEntry* entries,
                                        size_t count) {
   for (size_t i = 0; i < count; ++i) {
     const IncludeMapEntry& e = entries[i];
-    AddIncludeMapping(e.map_from, e.from_visibility, MappedInclude(e.map_to),
-                      e.to_visibility);
+    CHECK_(AddIncludeMapping(e.map_from, e.from_visibility,
+                             MappedInclude(e.map_to), e.to_visibility))
+        << "Default mappings contradict each other: " << e.map_from;
   }
 }
 
@@ -1612,7 +1614,9 @@ void IncludePicker::AddSymbolMappings(const IncludeMapEntry* entries,
                                       size_t count) {
   for (size_t i = 0; i < count; ++i) {
     const IncludeMapEntry& e = entries[i];
-    AddSymbolMapping(e.map_from, MappedInclude(e.map_to), e.to_visibility);
+    CHECK_(AddSymbolMapping(e.map_from, MappedInclude(e.map_to),
+                            e.to_visibility))
+        << "Default mappings contradict each other: " << e.map_from;
   }
 }
 
@@ -1993,7 +1997,13 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
           return;
         }
 
-        AddSymbolMapping(mapping[0], MappedInclude(mapping[2]), to_visibility);
+        if (!AddSymbolMapping(mapping[0], MappedInclude(mapping[2]),
+                              to_visibility)) {
+          json_stream.printError(
+              current_node,
+              "Visibility of " + mapping[2] + " contradicts other mappings.");
+          return;
+        }
       } else if (directive == "include") {
         // Include mapping.
         vector<string> mapping = GetSequenceValue(mapping_item_node.getValue());
@@ -2034,10 +2044,14 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
           return;
         }
 
-        AddIncludeMapping(mapping[0],
-            from_visibility,
-            MappedInclude(mapping[2]),
-            to_visibility);
+        if (!AddIncludeMapping(mapping[0], from_visibility,
+                               MappedInclude(mapping[2]), to_visibility)) {
+          json_stream.printError(current_node,
+                                 "Visibility of " + mapping[0] + " or " +
+                                     mapping[2] +
+                                     " contradicts other mappings.");
+          return;
+        }
       } else if (directive == "ref") {
         // Mapping ref.
         string ref_file = GetScalarValue(mapping_item_node.getValue());
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..8161dc8 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -205,14 +205,16 @@ class IncludePicker {
 
   // Adds a mapping from a one header to another, typically
   // from a private to a public quoted include.
-  void AddIncludeMapping(
+  // Returns false if the visibilities contradict those already known.
+  bool AddIncludeMapping(
       const string& map_from, IncludeVisibility from_visibility,
       const MappedInclude& map_to, IncludeVisibility to_visibility);
 
   // Adds a mapping from a a symbol to a quoted include. We use this to
   // maintain mappings of documented types, e.g.
   //  For std::map<>, include <map>.
-  void AddSymbolMapping(
+  // Returns false if the visibility contradicts the one already known.
+  bool AddSymbolMapping(
       const string& map_from, const MappedInclude& map_to,
       IncludeVisibility to_visibility);
 
@@ -227,8 +229,9 @@ class IncludePicker {
   // seen by iwyu.
   void ExpandRegexes();
 
-  // Adds an entry to the given VisibilityMap, with error checking.
-  void MarkVisibility(VisibilityMap* map, const string& key,
+  // Adds an entry to the given VisibilityMap. The first visibility stands:
+  // returns false if the key is known to have another one.
+  bool MarkVisibility(VisibilityMap* map, const string& key,
                       IncludeVisibility visibility);
 
   // Parse visibility from a string. Returns kUnusedVisibility if
-- 
2.43.0


From cff101af3aeebdb373e408e2e79c87a4f609435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 54/92] fix: do not recurse forever on mapping refs that form a
 cycle

---
 iwyu_include_picker.cc | 21 +++++++++++++++++----
 iwyu_include_picker.h  |  6 ++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 7495114..ecfcb12 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1902,8 +1902,7 @@ bool IncludePicker::IsPublic(OptionalFileEntryRef file) const {
 
 // Parses a YAML/JSON file containing mapping directives of various types.
 void IncludePicker::AddMappingsFromFile(const string& filename) {
-  vector<string> default_search_path;
-  return AddMappingsFromFile(filename, default_search_path);
+  return AddMappingsFromFile(filename, {}, {});
 }
 
 vector<string> IncludePicker::GetMappedPublicHeaders(
@@ -1926,7 +1925,8 @@ vector<string> IncludePicker::GetMappedPublicHeaders(
 // This private implementation method is recursive and builds the search path
 // incrementally.
 void IncludePicker::AddMappingsFromFile(const string& filename,
-                                        const vector<string>& search_path) {
+                                        const vector<string>& search_path,
+                                        const vector<string>& referrers) {
   string absolute_path = FindFileInSearchPath(search_path, filename);
 
   llvm::ErrorOr<unique_ptr<MemoryBuffer>> bufferOrError =
@@ -1937,6 +1937,18 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
     return;
   }
 
+  llvm::SmallString<128> real_path;
+  if (llvm::sys::fs::real_path(absolute_path, real_path))
+    real_path = absolute_path;
+  if (find(referrers.begin(), referrers.end(), real_path.str()) !=
+      referrers.end()) {
+    VERRS(0) << "Mapping file '" << absolute_path
+             << "' refers to itself, directly or indirectly.\n";
+    return;
+  }
+  vector<string> extended_referrers(referrers);
+  extended_referrers.push_back(real_path.str().str());
+
   VERRS(5) << "Adding mappings from file '" << absolute_path << "'.\n";
 
   SourceMgr source_manager;
@@ -2068,7 +2080,8 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
                                         GetParentPath(absolute_path));
 
         // Recurse.
-        AddMappingsFromFile(ref_file, extended_search_path);
+        AddMappingsFromFile(ref_file, extended_search_path,
+                            extended_referrers);
       } else {
         json_stream.printError(current_node,
             "Unknown directive '" + directive + "'.");
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 8161dc8..4f169df 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -196,9 +196,11 @@ class IncludePicker {
  private:
   // Private implementation of mapping file parser, which takes
   // mapping file search path to allow recursion that builds up
-  // search path incrementally.
+  // search path incrementally, and the real paths of the files being
+  // parsed to detect files that refer to themselves.
   void AddMappingsFromFile(const string& filename,
-                           const vector<string>& search_path);
+                           const vector<string>& search_path,
+                           const vector<string>& referrers);
 
   // Adds all hard-coded default mappings.
   void AddDefaultMappings(CStdLib cstdlib, CXXStdLib cxxstdlib);
-- 
2.43.0


From 3d189db871f3f4559eebc2a7108e55a99bd341e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 55/92] fix: report mapping entries after the root array

Whatever follows the first array in a mapping file, for instance because two
files were concatenated, was silently ignored.
---
 iwyu_include_picker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index ecfcb12..e0f7185 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -2089,6 +2089,12 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
       }
     }
   }
+
+  // There may be more documents, but only the first one was used.
+  if (++stream_begin != json_stream.end() && !json_stream.failed()) {
+    json_stream.printError(stream_begin->getRoot(),
+                           "There must be only one root element.");
+  }
 }
 
 IncludeVisibility IncludePicker::ParseVisibility(
-- 
2.43.0


From 21ffae36980a726a3540deb21868454c7caaf5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 56/92] fix: report malformed regexes in mapping files

An entry with a regex that does not compile never matched and was silently
ignored.
---
 iwyu_include_picker.cc |  7 +++++++
 iwyu_regex.cc          | 12 ++++++++++++
 iwyu_regex.h           |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index e0f7185..818d3bc 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -2048,6 +2048,13 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
           return;
         }
 
+        if (StartsWith(mapping[0], "@") &&
+            !IsValidRegex(regex_dialect, mapping[0].substr(1))) {
+          json_stream.printError(current_node,
+                                 "Invalid regex '" + mapping[0] + "'.");
+          return;
+        }
+
         if (!IsQuotedInclude(mapping[2])) {
           json_stream.printError(
               current_node,
diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index ead3696..b8407fa 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -41,6 +41,18 @@ bool ParseRegexDialect(const char* str, RegexDialect* dialect) {
   return false;
 }
 
+bool IsValidRegex(RegexDialect dialect, const std::string& pattern) {
+  switch (dialect) {
+    case RegexDialect::LLVM:
+      return llvm::Regex(pattern).isValid();
+
+    case RegexDialect::ECMAScript:
+      // std::regex reports errors by throwing, so there's no way to tell.
+      return true;
+  }
+  CHECK_UNREACHABLE_("Unexpected regex dialect");
+}
+
 bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
diff --git a/iwyu_regex.h b/iwyu_regex.h
index 54f4a6c..f86c0fd 100644
--- a/iwyu_regex.h
+++ b/iwyu_regex.h
@@ -19,6 +19,10 @@ enum class RegexDialect { LLVM = 0, ECMAScript = 1 };
 // Parse dialect string to enum.
 bool ParseRegexDialect(const char* str, RegexDialect* dialect);
 
+// Returns false if pattern is known to be malformed in the given dialect. Such a
+// pattern never matches anything.
+bool IsValidRegex(RegexDialect dialect, const std::string& pattern);
+
 // Returns true if str matches regular expression pattern for the given dialect.
 bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern);
-- 
2.43.0


From 5bdf2cdfa3552bd169c674bac616ec845b12126e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 57/92] fix: a header in a mapping cycle is not an alternative
 to itself

Listing it twice made it look as if there was a choice, so that a header that
is needed anyway was passed over for another one.
---
 iwyu_include_picker.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 818d3bc..e411d70 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1302,7 +1302,8 @@ void AddReachableNodes(const IncludePicker::IncludeMap& filename_map,
 void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
   IncludePicker::IncludeMap transitive_map;
   for (const IncludePicker::IncludeMap::value_type& includes : *filename_map) {
-    set<string> seen_nodes;
+    // A header is no alternative to itself.
+    set<string> seen_nodes = {includes.first};
     AddReachableNodes(*filename_map, includes.first, &seen_nodes,
                       &transitive_map[includes.first]);
   }
-- 
2.43.0


From 19cca2c71240d4271c347ecb6ec4f2d610ef86f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 58/92] fix: do not crash on mapping files with syntax errors
 at the start

The YAML parser returns null nodes after a syntax error.
---
 iwyu_include_picker.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index e411d70..ae1e98f 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1313,7 +1313,7 @@ void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
 // Get a scalar value from a YAML node.
 // Returns empty string if it's not of type ScalarNode.
 string GetScalarValue(Node* node) {
-  ScalarNode* scalar = llvm::dyn_cast<ScalarNode>(node);
+  ScalarNode* scalar = llvm::dyn_cast_if_present<ScalarNode>(node);
   if (scalar == nullptr)
     return string();
 
@@ -1326,7 +1326,7 @@ string GetScalarValue(Node* node) {
 vector<string> GetSequenceValue(Node* node) {
   vector<string> result;
 
-  SequenceNode* sequence = llvm::dyn_cast<SequenceNode>(node);
+  SequenceNode* sequence = llvm::dyn_cast_if_present<SequenceNode>(node);
   if (sequence != nullptr) {
     for (Node& node : *sequence) {
       result.push_back(GetScalarValue(&node));
@@ -1961,7 +1961,8 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
 
   // Get root sequence.
   Node* root = stream_begin->getRoot();
-  SequenceNode *array = llvm::dyn_cast<SequenceNode>(root);
+  // The root is null if there was a syntax error; that has been reported.
+  SequenceNode *array = llvm::dyn_cast_if_present<SequenceNode>(root);
   if (array == nullptr) {
     json_stream.printError(root, "Root element must be an array.");
     return;
-- 
2.43.0


From 41072bfc6b2ceedd1954fd31a3e575cb597e8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 59/92] fix: obey pragmas on declarations with inherited
 attributes

A keep or export pragma was not looked at on a forward declaration of a
class with attributes, even inherited ones, or of a nested class.
---
 iwyu.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 380fa8b..63a7449 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4268,12 +4268,13 @@ class IwyuAstConsumer
               definitely_keep_fwd_decl = true;
           }
         }
-      } else if (preprocessor_info().ForwardDeclareIsMarkedKeep(decl)) {
-        definitely_keep_fwd_decl = true;
-      } else if (preprocessor_info().ForwardDeclareIsExported(decl)) {
-        definitely_keep_fwd_decl = true;
       }
 
+      // (4) The author says so with a pragma.
+      if (preprocessor_info().ForwardDeclareIsMarkedKeep(decl) ||
+          preprocessor_info().ForwardDeclareIsExported(decl))
+        definitely_keep_fwd_decl = true;
+
       preprocessor_info().FileInfoFor(CurrentFileEntry())->AddForwardDeclare(
           decl_to_fwd_declare, definitely_keep_fwd_decl);
     }
-- 
2.43.0


From 527ee650e37b4e542899a63c20594f1321086f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 60/92] fix: recognise keep and export pragmas only where they
 are pragmas

Any text on the line that began like one pinned an include or declaration:
an unknown pragma that had just been diagnosed ('keeper'), or a comment
inside another one.  A pragma after a directive continued over several lines
went unseen.
---
 iwyu_preprocessor.cc | 46 +++++++++++++++++++++++++++++---------------
 iwyu_preprocessor.h  |  9 +++++++++
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index f055bb0..607503d 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -215,6 +215,13 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   }
   const vector<string> tokens =
       SplitOnWhiteSpacePreservingQuotes(pragma_text, 0);
+
+  // These take effect in MaybeProtectInclude and for forward declarations.
+  if (!tokens.empty() && tokens[0] == "keep")
+    keep_pragma_lines_[this_file_entry].insert(GetLineNumber(begin_loc));
+  if (!tokens.empty() && tokens[0] == "export")
+    export_pragma_lines_[this_file_entry].insert(GetLineNumber(begin_loc));
+
   if (HasOpenBeginExports(this_file_entry)) {
     if (MatchOneToken(tokens, "end_exports", 1, begin_loc)) {
       ERRSYM(this_file_entry) << "end_exports pragma seen\n";
@@ -344,7 +351,7 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
     return;
   }
 
-  // "keep" and "export" are handled in MaybeProtectInclude.
+  // "keep" and "export" were noted above.
   if (!MatchOneToken(tokens, "keep", 1, begin_loc)
       && !MatchOneToken(tokens, "export", 1, begin_loc)) {
     Warn(begin_loc, "Unknown or malformed pragma (" + pragma_text + ")");
@@ -352,6 +359,20 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   }
 }
 
+bool IwyuPreprocessorInfo::IsMarkedKeep(SourceLocation loc) const {
+  const set<int>* lines = FindInMap(&keep_pragma_lines_, GetFileEntry(loc));
+  return lines != nullptr && ContainsKey(*lines, GetLineNumber(loc)) &&
+         (LineHasText(loc, "// IWYU pragma: keep") ||
+          LineHasText(loc, "/* IWYU pragma: keep"));
+}
+
+bool IwyuPreprocessorInfo::IsMarkedExport(SourceLocation loc) const {
+  const set<int>* lines = FindInMap(&export_pragma_lines_, GetFileEntry(loc));
+  return lines != nullptr && ContainsKey(*lines, GetLineNumber(loc)) &&
+         (LineHasText(loc, "// IWYU pragma: export") ||
+          LineHasText(loc, "/* IWYU pragma: export"));
+}
+
 void IwyuPreprocessorInfo::ProcessHeadernameDirectivesInFile(
     SourceLocation file_beginning) {
   SourceLocation current_loc = file_beginning;
@@ -460,13 +481,12 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
     return;
 
   string protect_reason;
-  // We always keep lines with pragmas "keep" or "export".
-  // TODO(dsturtevant): As written "// // IWYU pragma: keep" is incorrectly
-  // interpreted as a pragma. Maybe do "keep" and "export" pragma handling
-  // in HandleComment?
-  if (LineHasText(includer_loc, "// IWYU pragma: keep") ||
-      LineHasText(includer_loc, "/* IWYU pragma: keep") ||
-      HasOpenBeginKeep(includer)) {
+  // We always keep lines with pragmas "keep" or "export". They are at the end
+  // of a directive, which may be on a later line than its start.
+  SourceLocation end_loc = includer_loc;
+  if (include_end_loc_.isFileID() && GetFileEntry(include_end_loc_) == includer)
+    end_loc = include_end_loc_;
+  if (IsMarkedKeep(end_loc) || HasOpenBeginKeep(includer)) {
     protect_reason = "pragma_keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
 
@@ -475,9 +495,7 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
     protect_reason = "--keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
 
-  } else if (LineHasText(includer_loc, "// IWYU pragma: export") ||
-             LineHasText(includer_loc, "/* IWYU pragma: export") ||
-             HasOpenBeginExports(includer)) {
+  } else if (IsMarkedExport(end_loc) || HasOpenBeginExports(includer)) {
     protect_reason = "pragma_export";
     const string includer_path = GetFilePath(includer);
     const string quoted_includer = ConvertToQuotedInclude(includer_path);
@@ -1190,8 +1208,7 @@ bool IwyuPreprocessorInfo::ForwardDeclareIsMarkedKeep(
     }
   }
   // Is the declaration itself marked with trailing comment?
-  return (LineHasText(loc, "// IWYU pragma: keep") ||
-          LineHasText(loc, "/* IWYU pragma: keep"));
+  return IsMarkedKeep(loc);
 }
 
 bool IwyuPreprocessorInfo::ForwardDeclareIsExported(
@@ -1210,7 +1227,6 @@ bool IwyuPreprocessorInfo::ForwardDeclareIsExported(
     }
   }
   // Is the declaration itself marked with trailing comment?
-  return (LineHasText(loc, "// IWYU pragma: export") ||
-          LineHasText(loc, "/* IWYU pragma: export"));
+  return IsMarkedExport(loc);
 }
 }  // namespace include_what_you_use
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 7ae772d..715fa1e 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -282,6 +282,11 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   // there is a pending "begin_keep" pragma.
   bool HasOpenBeginKeep(clang::OptionalFileEntryRef file) const;
 
+  // Return true if a "keep" or "export" pragma follows the given location on
+  // its line.
+  bool IsMarkedKeep(clang::SourceLocation loc) const;
+  bool IsMarkedExport(clang::SourceLocation loc) const;
+
   // The Clang preprocessor for this compilation.
   const clang::Preprocessor& preprocessor_;
 
@@ -341,6 +346,10 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   // inclusion chain.
   stack<clang::SourceLocation> begin_keep_location_stack_;
 
+  // Lines of each file with a "keep" or "export" pragma.
+  map<clang::OptionalFileEntryRef, set<int>> keep_pragma_lines_;
+  map<clang::OptionalFileEntryRef, set<int>> export_pragma_lines_;
+
   // For processing forward decls. It is a multimap containing the bounds of
   // every keep range.
   multimap<clang::OptionalFileEntryRef, clang::SourceRange>
-- 
2.43.0


From 763e2597bf9dd45c366f42bf39a07a8bc39cf1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 61/92] fix: obey export pragmas on forward declarations of
 templates

A use of a template-id looked for the pragma on the implicit specialization
and never found the exported declaration of the template.
---
 iwyu_output.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index f1598c0..951c286 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1193,7 +1193,11 @@ void ProcessForwardDeclare(OneUse* use,
   // (A7) If any arbitrary redeclaration is marked with IWYU pragma: export,
   // reset use as a full use of this decl to keep its containing file included.
   if (!use->is_full_use()) {
-    for (const Decl* redecl : use->decl()->redecls()) {
+    // Implicit specializations are declared by their template.
+    const NamedDecl* declared = use->decl();
+    if (spec_decl && !spec_decl->isExplicitSpecialization())
+      declared = tpl_decl;
+    for (const Decl* redecl : declared->redecls()) {
       const auto* decl = cast<NamedDecl>(redecl);
       if (preprocessor_info->ForwardDeclareIsExported(decl)) {
         use->reset_decl(decl);
-- 
2.43.0


From 5a15a2f534ff40cdceb130c0c110c88bbe15730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 62/92] fix: an export pragma holds whatever --keep says

---
 iwyu_preprocessor.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 607503d..7d4f1d4 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -490,11 +490,6 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
     protect_reason = "pragma_keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
 
-  } else if (ShouldKeepIncludeFor(includee)) {
-    // The command line version of pragma keep.
-    protect_reason = "--keep";
-    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
-
   } else if (IsMarkedExport(end_loc) || HasOpenBeginExports(includer)) {
     protect_reason = "pragma_export";
     const string includer_path = GetFilePath(includer);
@@ -515,6 +510,11 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
       MutableGlobalIncludePicker()->AddMapping(map_from, map_to);
     }
 
+  } else if (ShouldKeepIncludeFor(includee)) {
+    // The command line version of pragma keep.
+    protect_reason = "--keep";
+    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
+
   // We also always keep #includes of .c files: iwyu doesn't touch those.
   // TODO(csilvers): instead of IsHeaderFile, check if the file has
   // any "non-inlined" definitions.
-- 
2.43.0


From d85cfdb659973bc6140da53b4f864452b519dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 63/92] fix: do not take a header for public that a private
 pragma refers to

A header marked 'IWYU pragma: private' was only known to be private by its
path.  Where another header's 'private, include' pragma names it, the path is
unknown, and it was suggested to users although it is private, too.
---
 iwyu_preprocessor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 7d4f1d4..9a741ef 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -294,6 +294,9 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   if (MatchOneToken(tokens, "private", 1, begin_loc)) {
     const string path_this_file = GetFilePath(begin_loc);
     MutableGlobalIncludePicker()->MarkPathAsPrivate(path_this_file);
+    // Other headers' pragmas may refer to this one by its quoted name alone.
+    MutableGlobalIncludePicker()->MarkIncludeAsPrivate(
+        ConvertToQuotedInclude(path_this_file));
     ERRSYM(this_file_entry) << "Adding private path: "
                             << path_this_file << "\n";
     return;
-- 
2.43.0


From c4cc5e06a397ec025c9e9cb242fac39d2faf4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 64/92] fix: keep a begin_exports or begin_keep range open when
 its file is re-entered

When a file includes itself again, directly or not, leaving the inner
inclusion ended the ranges that are open in the outer one, with wrong warnings
and without effect for the rest of their lines.
---
 iwyu_preprocessor.cc | 34 ++++++++++++++++++++--------------
 iwyu_preprocessor.h  |  6 +++---
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9a741ef..2998312 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -115,6 +115,11 @@ static SourceLocation GetMacroDefLoc(const MacroDefinition& macro) {
 
 namespace {
 
+// Tells inclusions of the same file apart, unlike GetFileEntry.
+FileID GetFileID(SourceLocation loc) {
+  return GlobalSourceManager()->getFileID(GetInstantiationLoc(loc));
+}
+
 // Given a vector of tokens, a token to match, and an expected number
 // of tokens, return true if the number of tokens is at least the
 // expected number and the first token matches the given token, else
@@ -179,19 +184,19 @@ bool MatchTwoTokens(const vector<string>& tokens,
 // file has not processed any comments yet). Return true if only if
 // there is an open begin_exports pragma in the current state of the
 // parse of the given file. Note that there may be open begin_exports
-// in including files. They don't matter for this function.
-bool IwyuPreprocessorInfo::HasOpenBeginExports(
-    OptionalFileEntryRef file) const {
+// in including files, even outer inclusions of the same file. They don't
+// matter for this function, which is why it takes a FileID.
+bool IwyuPreprocessorInfo::HasOpenBeginExports(FileID file) const {
   return !begin_exports_location_stack_.empty() &&
-         GetFileEntry(begin_exports_location_stack_.top()) == file;
+         GetFileID(begin_exports_location_stack_.top()) == file;
 }
 
 // Only call this when the given files is the one being processed
 // Only return true if there is an open begin_keep pragma in the current
 // state of the parse of the given file.
-bool IwyuPreprocessorInfo::HasOpenBeginKeep(OptionalFileEntryRef file) const {
+bool IwyuPreprocessorInfo::HasOpenBeginKeep(FileID file) const {
   return !begin_keep_location_stack_.empty() &&
-         GetFileEntry(begin_keep_location_stack_.top()) == file;
+         GetFileID(begin_keep_location_stack_.top()) == file;
 }
 
 bool IwyuPreprocessorInfo::HandleComment(Preprocessor& pp,
@@ -222,7 +227,7 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   if (!tokens.empty() && tokens[0] == "export")
     export_pragma_lines_[this_file_entry].insert(GetLineNumber(begin_loc));
 
-  if (HasOpenBeginExports(this_file_entry)) {
+  if (HasOpenBeginExports(GetFileID(begin_loc))) {
     if (MatchOneToken(tokens, "end_exports", 1, begin_loc)) {
       ERRSYM(this_file_entry) << "end_exports pragma seen\n";
       SourceLocation export_loc_begin = begin_exports_location_stack_.top();
@@ -237,7 +242,7 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
     return;
   }
 
-  if (HasOpenBeginKeep(this_file_entry)) {
+  if (HasOpenBeginKeep(GetFileID(begin_loc))) {
     if (MatchOneToken(tokens, "end_keep", 1, begin_loc)) {
       ERRSYM(this_file_entry) << "end_keep pragma seen\n";
       SourceLocation keep_loc_begin = begin_keep_location_stack_.top();
@@ -489,11 +494,12 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
   SourceLocation end_loc = includer_loc;
   if (include_end_loc_.isFileID() && GetFileEntry(include_end_loc_) == includer)
     end_loc = include_end_loc_;
-  if (IsMarkedKeep(end_loc) || HasOpenBeginKeep(includer)) {
+  if (IsMarkedKeep(end_loc) || HasOpenBeginKeep(GetFileID(includer_loc))) {
     protect_reason = "pragma_keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
 
-  } else if (IsMarkedExport(end_loc) || HasOpenBeginExports(includer)) {
+  } else if (IsMarkedExport(end_loc) ||
+             HasOpenBeginExports(GetFileID(includer_loc))) {
     protect_reason = "pragma_export";
     const string includer_path = GetFilePath(includer);
     const string quoted_includer = ConvertToQuotedInclude(includer_path);
@@ -815,8 +821,7 @@ void IwyuPreprocessorInfo::FileChanged(SourceLocation loc,
       FileChanged_EnterFile(loc);
       return;
     case ExitFile:
-      FileChanged_ExitToFile(
-          loc, GlobalSourceManager()->getFileEntryRefForID(exiting_from_id));
+      FileChanged_ExitToFile(loc, exiting_from_id);
       return;
     case RenameFile:
       FileChanged_RenameFile(loc);
@@ -910,7 +915,7 @@ void IwyuPreprocessorInfo::FileChanged_EnterFile(
 
 // Called when done with an #included file and returning to the parent file.
 void IwyuPreprocessorInfo::FileChanged_ExitToFile(
-    SourceLocation include_loc, OptionalFileEntryRef exiting_from) {
+    SourceLocation include_loc, FileID exiting_from) {
   ERRSYM(GetFileEntry(include_loc))
       << "[ Exiting to  ] " << PrintableLoc(include_loc) << "\n";
   if (HasOpenBeginExports(exiting_from)) {
@@ -1091,7 +1096,8 @@ void IwyuPreprocessorInfo::PopulateTransitiveIncludeMap() {
 
 void IwyuPreprocessorInfo::HandlePreprocessingDone() {
   CHECK_(main_file_ && "Main file should be present");
-  FileChanged_ExitToFile(SourceLocation(), main_file_);
+  FileChanged_ExitToFile(SourceLocation(),
+                         GlobalSourceManager()->getMainFileID());
 
   // Other post-processing steps.
   for (auto& file_info_map_entry : iwyu_file_info_map_) {
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 715fa1e..d5b8f90 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -214,7 +214,7 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
   // FileChanged is actually a multi-plexer for 4 different callbacks.
   void FileChanged_EnterFile(clang::SourceLocation file_beginning);
   void FileChanged_ExitToFile(clang::SourceLocation include_loc,
-                              clang::OptionalFileEntryRef exiting_from);
+                              clang::FileID exiting_from);
   void FileChanged_RenameFile(clang::SourceLocation new_file);
   void FileChanged_SystemHeaderPragma(clang::SourceLocation loc);
 
@@ -276,11 +276,11 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
 
   // Return true if at the current point in the parse of the given file,
   // there is a pending "begin_exports" pragma.
-  bool HasOpenBeginExports(clang::OptionalFileEntryRef file) const;
+  bool HasOpenBeginExports(clang::FileID file) const;
 
   // Return true if at the current point in the parse of the given files,
   // there is a pending "begin_keep" pragma.
-  bool HasOpenBeginKeep(clang::OptionalFileEntryRef file) const;
+  bool HasOpenBeginKeep(clang::FileID file) const;
 
   // Return true if a "keep" or "export" pragma follows the given location on
   // its line.
-- 
2.43.0


From 36b34df860c7ff0d72ff57772ea0e86a05a7c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 65/92] fix: do not add a header for a kept private one if the
 associated header does

A line to be added for a symbol from a private header is tied to the file of
the latter.  If that file's own include was pinned, the added line was taken for
pinned, too, although the associated header provides it already.
---
 iwyu_output.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 951c286..930b038 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1913,7 +1913,7 @@ void CalculateDesiredIncludesAndForwardDeclares(
 
   // Now reset all files included with "IWYU pragma: keep" as desired.
   for (OneIncludeOrForwardDeclareLine& line : *lines) {
-    if (!line.is_desired() && line.IsIncludeLine() &&
+    if (!line.is_desired() && line.is_present() && line.IsIncludeLine() &&
         ContainsKey(kept_includes, line.included_file())) {
       line.set_desired();
     }
-- 
2.43.0


From f95e429464509450cd55b97cc6b1f1cce14b7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 66/92] fix: prefer exported forward declarations that are
 included already

Of several exported forward declarations of a class, the first in the order of
redeclarations was taken, and its header added, whether or not another was
present.
---
 iwyu_output.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 930b038..0874339 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1197,13 +1197,25 @@ void ProcessForwardDeclare(OneUse* use,
     const NamedDecl* declared = use->decl();
     if (spec_decl && !spec_decl->isExplicitSpecialization())
       declared = tpl_decl;
+    const OptionalFileEntryRef using_file = GetFileEntry(use->use_loc());
+    const IwyuFileInfo* file_info = preprocessor_info->FileInfoFor(using_file);
+    const NamedDecl* exported = nullptr;
     for (const Decl* redecl : declared->redecls()) {
       const auto* decl = cast<NamedDecl>(redecl);
-      if (preprocessor_info->ForwardDeclareIsExported(decl)) {
-        use->reset_decl(decl);
-        use->set_full_use();
+      if (!preprocessor_info->ForwardDeclareIsExported(decl))
+        continue;
+      // Prefer a declaration that is present already.
+      const bool is_present =
+          GetFileEntry(decl) == using_file ||
+          (file_info != nullptr && IsDirectlyIncluded(decl, *file_info));
+      if (exported == nullptr || is_present)
+        exported = decl;
+      if (is_present)
         break;
-      }
+    }
+    if (exported != nullptr) {
+      use->reset_decl(exported);
+      use->set_full_use();
     }
   }
 
-- 
2.43.0


From f7c5fd9fbf4c7a5054053bcdf725fac1d3509bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 67/92] fix: do not fail a check on an associated header that
 -include names, too

The file of a command-line include was registered under an empty name, which
fails an internal check when the source file includes it as its associated
header.
---
 iwyu_preprocessor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 2998312..68915b8 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -618,8 +618,12 @@ void IwyuPreprocessorInfo::AddDirectInclude(
   }
   GetFromFileInfoMap(includer)->AddInclude(includee, include_name_as_written,
                                            start_linenum, end_linenum);
-  // Make sure the includee has a file-info-map entry too.
-  InsertIntoFileInfoMap(includee, include_name_as_written);
+  // Make sure the includee has a file-info-map entry too. A file included from
+  // the command line has no name as written.
+  if (include_name_as_written.empty())
+    GetFromFileInfoMap(includee);
+  else
+    InsertIntoFileInfoMap(includee, include_name_as_written);
 
   // The first #include in every translation unit might be a precompiled header
   // and we need to mark it as such for later analysis.
-- 
2.43.0


From 9cf746b56132d18cb7195589a7736275a4d50ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 68/92] fix: report on files whose paths contain characters
 that are special in globs

The paths of the main file and its associated headers were taken for globs, so
that a file in, say, 'v[2]/' was not analysed, or another one was.
---
 iwyu_globals.cc      | 7 +++++++
 iwyu_globals.h       | 4 ++++
 iwyu_preprocessor.cc | 6 +++---
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index 609c9c9..2fac6bb 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -547,10 +547,17 @@ void AddGlobToReportIWYUViolationsFor(const string& glob) {
   commandline_flags->check_also.insert(NormalizeFilePath(glob));
 }
 
+void AddFileToReportIWYUViolationsFor(const string& path) {
+  CHECK_(commandline_flags && "Call ParseIwyuCommandlineFlags() before this");
+  commandline_flags->files_to_check.insert(NormalizeFilePath(path));
+}
+
 bool ShouldReportIWYUViolationsFor(OptionalFileEntryRef file) {
   if (IsSpecialFile(file))
     return false;
   const string filepath = GetFilePath(file);
+  if (GlobalFlags().files_to_check.count(filepath) > 0)
+    return true;
   for (const string& glob : GlobalFlags().check_also)
     if (GlobMatchesPath(glob.c_str(), filepath.c_str()))
       return true;
diff --git a/iwyu_globals.h b/iwyu_globals.h
index 3aa9bed..fc13386 100644
--- a/iwyu_globals.h
+++ b/iwyu_globals.h
@@ -91,6 +91,7 @@ struct CommandlineFlags {
   bool HasExperimentalFlag(const char* flag) const;
 
   set<string> check_also;  // -c: globs to report iwyu violations for
+  set<string> files_to_check;  // paths of the main and associated files
   set<string> keep;        // -k: globs to force-keep includes for
   bool transitive_includes_only;   // -t: don't add 'new' #includes to files
   int verbose;             // -v: how much information to emit as we parse
@@ -138,6 +139,9 @@ FullUseCache* ClassMembersFullUseCache();
 // They are specified as glob file-patterns (which behave just as they
 // do in the shell).  TODO(csilvers): use a prefix instead? allow '...'?
 void AddGlobToReportIWYUViolationsFor(const string& glob);
+// The same for one file, whose path may contain characters that are special in
+// globs.
+void AddFileToReportIWYUViolationsFor(const string& path);
 bool ShouldReportIWYUViolationsFor(clang::OptionalFileEntryRef file);
 
 // For the commandline option --keep.
diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 68915b8..9b94ec1 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -661,7 +661,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
     // TODO: This line cannot be covered with our current test framework;
     // don't forget to add a test case if we build something better in the
     // future.
-    AddGlobToReportIWYUViolationsFor(GetFilePath(includee));
+    AddFileToReportIWYUViolationsFor(GetFilePath(includee));
   }
 
   // Besides marking headers as "associated header" with heuristics, the user
@@ -676,7 +676,7 @@ void IwyuPreprocessorInfo::AddDirectInclude(
              << " as associated header of " << GetFilePath(includer)
              << " due to associated pragma.\n";
 
-    AddGlobToReportIWYUViolationsFor(GetFilePath(includee));
+    AddFileToReportIWYUViolationsFor(GetFilePath(includee));
     associated_pragma_location_ = SourceLocation();
   }
 
@@ -893,7 +893,7 @@ void IwyuPreprocessorInfo::FileChanged_EnterFile(
       BelongsToMainCompilationUnit(GetFileEntry(include_loc), new_file)) {
     VERRS(5) << "Added to main compilation unit: "
              << GetFilePath(new_file) << "\n";
-    AddGlobToReportIWYUViolationsFor(GetFilePath(new_file));
+    AddFileToReportIWYUViolationsFor(GetFilePath(new_file));
   }
   if (ShouldReportIWYUViolationsFor(new_file)) {
     files_to_report_iwyu_violations_for_.insert(new_file);
-- 
2.43.0


From 0e73a986ef41c96f1bfaaed9e6d0e349a495751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 69/92] fix: expand response files as the compiler driver does

---
 iwyu_driver.cc | 95 ++++++++------------------------------------------
 1 file changed, 14 insertions(+), 81 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 6b52c34..d551168 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -13,7 +13,6 @@
 // Everything below is adapted from clang/examples/clang-interpreter/main.cpp.
 #include "iwyu_driver.h"
 
-#include <cctype>
 #include <cstdint>
 #include <memory>
 #include <set>
@@ -45,9 +44,9 @@
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Option/Option.h"
-#include "llvm/Support/ErrorOr.h"
+#include "llvm/Support/Allocator.h"
+#include "llvm/Support/Error.h"
 #include "llvm/Support/FileSystem.h"
-#include "llvm/Support/MemoryBuffer.h"
 #include "llvm/Support/Path.h"
 #include "llvm/Support/VirtualFileSystem.h"
 #include "llvm/TargetParser/Host.h"
@@ -69,14 +68,15 @@ using clang::driver::Action;
 using clang::driver::Command;
 using clang::driver::Compilation;
 using clang::driver::Driver;
+using clang::driver::IsClangCL;
 using clang::driver::JobList;
+using clang::driver::expandResponseFiles;
+using clang::driver::getDriverMode;
 using llvm::ArrayRef;
-using llvm::ErrorOr;
+using llvm::BumpPtrAllocator;
 using llvm::IntrusiveRefCntPtr;
-using llvm::MemoryBuffer;
 using llvm::SmallString;
 using llvm::SmallVector;
-using llvm::SmallVectorImpl;
 using llvm::StringRef;
 using llvm::errs;
 using llvm::opt::ArgStringList;
@@ -100,78 +100,6 @@ const char *SaveStringInSet(std::set<std::string> &SavedStrings, StringRef S) {
   return SavedStrings.insert(S.str()).first->c_str();
 }
 
-void ExpandArgsFromBuf(const char *Arg,
-                       SmallVectorImpl<const char*> &ArgVector,
-                       set<std::string> &SavedStrings) {
-  const char *FName = Arg + 1;
-  ErrorOr<unique_ptr<MemoryBuffer>> MemBufOrErr = MemoryBuffer::getFile(FName);
-  if (!MemBufOrErr) {
-    ArgVector.push_back(SaveStringInSet(SavedStrings, Arg));
-    return;
-  }
-
-  const char *Buf = MemBufOrErr.get()->getBufferStart();
-  char InQuote = ' ';
-  std::string CurArg;
-
-  for (const char *P = Buf; ; ++P) {
-    if (*P == '\0' || (isspace(*P) && InQuote == ' ')) {
-      if (!CurArg.empty()) {
-
-        if (CurArg[0] != '@') {
-          ArgVector.push_back(SaveStringInSet(SavedStrings, CurArg));
-        } else {
-          ExpandArgsFromBuf(CurArg.c_str(), ArgVector, SavedStrings);
-        }
-
-        CurArg = "";
-      }
-      if (*P == '\0')
-        break;
-      else
-        continue;
-    }
-
-    if (isspace(*P)) {
-      if (InQuote != ' ')
-        CurArg.push_back(*P);
-      continue;
-    }
-
-    if (*P == '"' || *P == '\'') {
-      if (InQuote == *P)
-        InQuote = ' ';
-      else if (InQuote == ' ')
-        InQuote = *P;
-      else
-        CurArg.push_back(*P);
-      continue;
-    }
-
-    if (*P == '\\') {
-      ++P;
-      if (*P != '\0')
-        CurArg.push_back(*P);
-      continue;
-    }
-    CurArg.push_back(*P);
-  }
-}
-
-void ExpandArgv(int argc, const char **argv,
-                SmallVectorImpl<const char*> &ArgVector,
-                set<std::string> &SavedStrings) {
-  for (int i = 0; i < argc; ++i) {
-    const char *Arg = argv[i];
-    if (Arg[0] != '@') {
-      ArgVector.push_back(SaveStringInSet(SavedStrings, std::string(Arg)));
-      continue;
-    }
-
-    ExpandArgsFromBuf(Arg, ArgVector, SavedStrings);
-  }
-}
-
 bool HasPreprocessOnlyArgs(ArrayRef<const char*> args) {
   auto is_preprocess_only = [](StringRef arg) {
     // Handle GCC spelling.
@@ -292,9 +220,14 @@ bool ExecuteAction(int argc,
                    ActionFactory make_iwyu_action) {
   // Expand out any response files passed on the command line
   set<std::string> SavedStrings;
-  SmallVector<const char*, 256> args;
-
-  ExpandArgv(argc, argv, args, SavedStrings);
+  SmallVector<const char*, 256> args(argv, argv + argc);
+  BumpPtrAllocator allocator;
+  const bool clang_cl_mode = IsClangCL(getDriverMode(argv[0], args));
+  if (llvm::Error error =
+          expandResponseFiles(args, clang_cl_mode, allocator)) {
+    errs() << "error: " << llvm::toString(std::move(error)) << "\n";
+    return false;
+  }
 
   // Drop -save-temps arguments to avoid multiple compilation jobs.
   llvm::erase_if(args, [](StringRef arg) {
-- 
2.43.0


From a109dc3b5431bb4a81e89215218afe2bc48112a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 70/92] fix: reject missing --regex and negative
 --max_line_length values politely

---
 iwyu_globals.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index 2fac6bb..0ed286a 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -253,7 +253,7 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
     {"experimental", required_argument, nullptr, 'p'},
     {nullptr, 0, nullptr, 0}
   };
-  static const char shortopts[] = "v:c:m:d:nr";
+  static const char shortopts[] = "v:c:m:d:nr:";
   while (true) {
     switch (getopt_long(argc, argv, shortopts, longopts, nullptr)) {
       case 'c': AddGlobToReportIWYUViolationsFor(optarg); break;
@@ -291,8 +291,13 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
         break;
       case 'h': pch_in_code = true; break;
       case 'l':
-        max_line_length = atoi(optarg);
-        CHECK_((max_line_length >= 0) && "Max line length must be positive");
+        if (!ParseIntegerOptarg(optarg, &max_line_length) ||
+            max_line_length < 0) {
+          PrintHelp(
+              "FATAL ERROR: --max_line_length argument must be a valid "
+              "non-negative integer.");
+          exit(EXIT_FAILURE);
+        }
         break;
       case 'q': quoted_includes_first = true; break;
       case 'C': cxx17ns = true; break;
-- 
2.43.0


From 253fc7951cb9fd1dac6ee7b88d5b0d15bb17e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 71/92] fix: do not map <bits/time.h> to <sys/time.h>

glibc only includes it from <time.h>; <sys/time.h> provides neither
CLOCKS_PER_SEC nor CLOCK_*, and struct timeval has its symbol mapping.
---
 gcc.libc.imp           | 1 -
 iwyu_include_picker.cc | 1 -
 2 files changed, 2 deletions(-)

diff --git a/gcc.libc.imp b/gcc.libc.imp
index 9fd4f04..bae63b0 100644
--- a/gcc.libc.imp
+++ b/gcc.libc.imp
@@ -105,7 +105,6 @@
   { "include": [ "<bits/termios-struct.h>", "private", "<termios.h>", "public"] },
   { "include": [ "<bits/termios-tcflow.h>", "private", "<termios.h>", "public"] },
   { "include": [ "<bits/time.h>", "private", "<time.h>", "public"] },
-  { "include": [ "<bits/time.h>", "private", "<sys/time.h>", "public"] },
   { "include": [ "<bits/timerfd.h>", "private", "<sys/timerfd.h>", "public"] },
   { "include": [ "<bits/timex.h>", "private", "<sys/timex.h>", "public"] },
   { "include": [ "<bits/types.h>", "private", "<sys/types.h>", "public"] },
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index ae1e98f..8f16205 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -450,7 +450,6 @@ const IncludeMapEntry libc_include_map[] = {
   { "<bits/termios-tcflow.h>", kPrivate, "<termios.h>", kPublic },
   { "<bits/termios.h>", kPrivate, "<termios.h>", kPublic },
   { "<bits/time.h>", kPrivate, "<time.h>", kPublic },
-  { "<bits/time.h>", kPrivate, "<sys/time.h>", kPublic },
   { "<bits/timerfd.h>", kPrivate, "<sys/timerfd.h>", kPublic },
   { "<bits/timex.h>", kPrivate, "<sys/timex.h>", kPublic },
   { "<bits/types.h>", kPrivate, "<sys/types.h>", kPublic },
-- 
2.43.0


From 7cd74dad904c584e4eda701114d7dc3aab8ad0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 72/92] fix: map <bits/stdint-least.h> to <stdint.h>

---
 gcc.libc.imp           | 1 +
 iwyu_include_picker.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gcc.libc.imp b/gcc.libc.imp
index bae63b0..973bb0f 100644
--- a/gcc.libc.imp
+++ b/gcc.libc.imp
@@ -83,6 +83,7 @@
   { "include": [ "<bits/stdio-lock.h>", "private", "<libio.h>", "public"] },
   { "include": [ "<bits/stdio.h>", "private", "<stdio.h>", "public"] },
   { "include": [ "<bits/stdio2.h>", "private", "<stdio.h>", "public"] },
+  { "include": [ "<bits/stdint-least.h>", "private", "<stdint.h>", "public"] },
   { "include": [ "<bits/stdio_lim.h>", "private", "<stdio.h>", "public"] },
   { "include": [ "<bits/stdlib-bsearch.h>", "private", "<stdlib.h>", "public"] },
   { "include": [ "<bits/stdlib-float.h>", "private", "<stdlib.h>", "public"] },
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 8f16205..988fa83 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -428,6 +428,7 @@ const IncludeMapEntry libc_include_map[] = {
   { "<bits/stdio-lock.h>", kPrivate, "<libio.h>", kPublic },
   { "<bits/stdio.h>", kPrivate, "<stdio.h>", kPublic },
   { "<bits/stdio2.h>", kPrivate, "<stdio.h>", kPublic },
+  { "<bits/stdint-least.h>", kPrivate, "<stdint.h>", kPublic },
   { "<bits/stdio_lim.h>", kPrivate, "<stdio.h>", kPublic },
   { "<bits/stdlib-bsearch.h>", kPrivate, "<stdlib.h>", kPublic },
   { "<bits/stdlib-float.h>", kPrivate, "<stdlib.h>", kPublic },
-- 
2.43.0


From e4c0280db36c6c95044c684d52e2b4b6cc996ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 73/92] fix: suggest <sys/ioctl.h> for winsize

glibc declares it there and not in <termios.h>.
---
 gcc.symbols.imp        | 2 +-
 iwyu_include_picker.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcc.symbols.imp b/gcc.symbols.imp
index caf526a..66a5427 100644
--- a/gcc.symbols.imp
+++ b/gcc.symbols.imp
@@ -157,7 +157,7 @@
   { "symbol": [ "wchar_t", "private", "<stddef.h>", "public"] },
   { "symbol": [ "wctrans_t", "private", "<wctype.h>", "public"] },
   { "symbol": [ "wctype_t", "private", "<wctype.h>", "public"] },
-  { "symbol": [ "winsize", "private", "<termios.h>", "public"] },
+  { "symbol": [ "winsize", "private", "<sys/ioctl.h>", "public"] },
   { "symbol": [ "wint_t", "private", "<wchar.h>", "public"] },
   { "symbol": [ "sig_atomic_t", "private", "<signal.h>", "public"] },
   { "symbol": [ "size_t", "private", "<stddef.h>", "public"] },
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 988fa83..624558e 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -241,7 +241,7 @@ const IncludeMapEntry libc_symbol_map[] = {
   { "wchar_t", kPrivate, "<stddef.h>", kPublic },
   { "wctrans_t", kPrivate, "<wctype.h>", kPublic },
   { "wctype_t", kPrivate, "<wctype.h>", kPublic },
-  { "winsize", kPrivate, "<termios.h>", kPublic },
+  { "winsize", kPrivate, "<sys/ioctl.h>", kPublic },
   { "wint_t", kPrivate, "<wchar.h>", kPublic },
   // It is unspecified if the cname headers provide ::size_t.
   // <locale.h> is the one header which defines NULL but not size_t.
-- 
2.43.0


From ed37656b0e4f372389c00884f17ebe02a41968a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 74/92] fix: suggest <cstddef> for std::nullptr_t with
 libstdc++

---
 iwyu_include_picker.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 624558e..99f11a0 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -324,6 +324,9 @@ const IncludeMapEntry stdlib_cxx_symbol_map[] = {
   { "std::char_traits", kPrivate, "<ostream>", kPublic },
   { "std::char_traits", kPrivate, "<istream>", kPublic },
 
+  // libstdc++ defines std::nullptr_t in a header that <version> includes too.
+  { "std::nullptr_t", kPrivate, "<cstddef>", kPublic },
+
   // std::ptrdiff_t is often an architecture specific definition, force the
   // canonical location.
   { "std::ptrdiff_t", kPrivate, "<cstddef>", kPublic },
-- 
2.43.0


From 74312cdf888b25e736dc72e5c8fe1b2276741358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 75/92] fix: map <bits/types/struct_FILE.h> to <stdio.h>

---
 gcc.libc.imp           | 1 +
 iwyu_include_picker.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gcc.libc.imp b/gcc.libc.imp
index 973bb0f..61beed9 100644
--- a/gcc.libc.imp
+++ b/gcc.libc.imp
@@ -111,6 +111,7 @@
   { "include": [ "<bits/types.h>", "private", "<sys/types.h>", "public"] },
   { "include": [ "<bits/types/siginfo_t.h>", "private", "<signal.h>", "public"] },
   { "include": [ "<bits/types/siginfo_t.h>", "private", "<sys/wait.h>", "public"] },
+  { "include": [ "<bits/types/struct_FILE.h>", "private", "<stdio.h>", "public"] },
   { "include": [ "<bits/uio.h>", "private", "<sys/uio.h>", "public"] },
   { "include": [ "<bits/unistd.h>", "private", "<unistd.h>", "public"] },
   { "include": [ "<bits/ustat.h>", "private", "<sys/ustat.h>", "private"] },
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 99f11a0..3668c2e 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -459,6 +459,7 @@ const IncludeMapEntry libc_include_map[] = {
   { "<bits/types.h>", kPrivate, "<sys/types.h>", kPublic },
   { "<bits/types/siginfo_t.h>", kPrivate, "<signal.h>", kPublic },
   { "<bits/types/siginfo_t.h>", kPrivate, "<sys/wait.h>", kPublic },
+  { "<bits/types/struct_FILE.h>", kPrivate, "<stdio.h>", kPublic },
   { "<bits/uio.h>", kPrivate, "<sys/uio.h>", kPublic },
   { "<bits/unistd.h>", kPrivate, "<unistd.h>", kPublic },
   { "<bits/ustat.h>", kPrivate, "<sys/ustat.h>", kPrivate },
-- 
2.43.0


From bc9e44170588ad40732c352f9e2d139e076818e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 76/92] fix: accept <wctype.h> for wint_t

The C standard declares it there as well as in <wchar.h>.
---
 gcc.symbols.imp        | 1 +
 iwyu_include_picker.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gcc.symbols.imp b/gcc.symbols.imp
index 66a5427..263949c 100644
--- a/gcc.symbols.imp
+++ b/gcc.symbols.imp
@@ -159,6 +159,7 @@
   { "symbol": [ "wctype_t", "private", "<wctype.h>", "public"] },
   { "symbol": [ "winsize", "private", "<sys/ioctl.h>", "public"] },
   { "symbol": [ "wint_t", "private", "<wchar.h>", "public"] },
+  { "symbol": [ "wint_t", "private", "<wctype.h>", "public"] },
   { "symbol": [ "sig_atomic_t", "private", "<signal.h>", "public"] },
   { "symbol": [ "size_t", "private", "<stddef.h>", "public"] },
   { "symbol": [ "size_t", "private", "<signal.h>", "public"] },
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 3668c2e..a9bcb28 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -243,6 +243,7 @@ const IncludeMapEntry libc_symbol_map[] = {
   { "wctype_t", kPrivate, "<wctype.h>", kPublic },
   { "winsize", kPrivate, "<sys/ioctl.h>", kPublic },
   { "wint_t", kPrivate, "<wchar.h>", kPublic },
+  { "wint_t", kPrivate, "<wctype.h>", kPublic },
   // It is unspecified if the cname headers provide ::size_t.
   // <locale.h> is the one header which defines NULL but not size_t.
   { "size_t", kPrivate, "<stddef.h>", kPublic },  // 'canonical' location for size_t
-- 
2.43.0


From 2255ac99f575a60d4f69b6dd379f4c71df0d406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 77/92] fix: suggest canonical headers for the heap algorithms,
 addressof and uses_allocator

libstdc++'s internal headers name <queue> and <utility> for them, so the
documented header was reported for removal.
---
 gcc.symbols.imp        | 13 +++++++++++++
 iwyu_include_picker.cc | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/gcc.symbols.imp b/gcc.symbols.imp
index 263949c..54ccdbb 100644
--- a/gcc.symbols.imp
+++ b/gcc.symbols.imp
@@ -215,6 +215,19 @@
 
   # GCC defines std::declval in <type_traits>, but the canonical location is <utility>
   { "symbol": [ "std::declval", "private", "<utility>", "public"] },
+  # The headers that libstdc++'s internal headers name for these are not the
+  # canonical ones
+  { "symbol": [ "std::make_heap", "private", "<algorithm>", "public"] },
+  { "symbol": [ "std::pop_heap", "private", "<algorithm>", "public"] },
+  { "symbol": [ "std::push_heap", "private", "<algorithm>", "public"] },
+  { "symbol": [ "std::sort_heap", "private", "<algorithm>", "public"] },
+  { "symbol": [ "std::is_heap", "private", "<algorithm>", "public"] },
+  { "symbol": [ "std::is_heap_until", "private", "<algorithm>", "public"] },
+  { "symbol": [ "std::addressof", "private", "<memory>", "public"] },
+  { "symbol": [ "std::allocator_arg", "private", "<memory>", "public"] },
+  { "symbol": [ "std::allocator_arg_t", "private", "<memory>", "public"] },
+  { "symbol": [ "std::uses_allocator", "private", "<memory>", "public"] },
+  { "symbol": [ "std::uses_allocator_v", "private", "<memory>", "public"] },
 
   # Kludge time: almost all STL types take an allocator, but they
   # almost always use the default value.  Usually we detect that
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index a9bcb28..679e982 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -345,6 +345,19 @@ const IncludeMapEntry stdlib_cxx_symbol_map[] = {
 const IncludeMapEntry libstdcpp_symbol_map[] = {
   // GCC defines std::declval in <type_traits>, but the canonical location is <utility>
   { "std::declval", kPrivate, "<utility>", kPublic },
+  // The headers that libstdc++'s internal headers name for these are not the
+  // canonical ones
+  { "std::make_heap", kPrivate, "<algorithm>", kPublic },
+  { "std::pop_heap", kPrivate, "<algorithm>", kPublic },
+  { "std::push_heap", kPrivate, "<algorithm>", kPublic },
+  { "std::sort_heap", kPrivate, "<algorithm>", kPublic },
+  { "std::is_heap", kPrivate, "<algorithm>", kPublic },
+  { "std::is_heap_until", kPrivate, "<algorithm>", kPublic },
+  { "std::addressof", kPrivate, "<memory>", kPublic },
+  { "std::allocator_arg", kPrivate, "<memory>", kPublic },
+  { "std::allocator_arg_t", kPrivate, "<memory>", kPublic },
+  { "std::uses_allocator", kPrivate, "<memory>", kPublic },
+  { "std::uses_allocator_v", kPrivate, "<memory>", kPublic },
 };
 
 const IncludeMapEntry libc_include_map[] = {
-- 
2.43.0


From cccd65e0b8f751a315c9eb2708aba1f33954bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 78/92] fix: accept <tuple> and <array> for std::tuple_size and
 std::tuple_element

---
 gcc.symbols.imp        | 13 +++++++++++++
 iwyu_include_picker.cc | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/gcc.symbols.imp b/gcc.symbols.imp
index 54ccdbb..3af5fb2 100644
--- a/gcc.symbols.imp
+++ b/gcc.symbols.imp
@@ -228,6 +228,19 @@
   { "symbol": [ "std::allocator_arg_t", "private", "<memory>", "public"] },
   { "symbol": [ "std::uses_allocator", "private", "<memory>", "public"] },
   { "symbol": [ "std::uses_allocator_v", "private", "<memory>", "public"] },
+  # The standard has these in several headers
+  { "symbol": [ "std::tuple_element", "private", "<tuple>", "public"] },
+  { "symbol": [ "std::tuple_element", "private", "<utility>", "public"] },
+  { "symbol": [ "std::tuple_element", "private", "<array>", "public"] },
+  { "symbol": [ "std::tuple_element_t", "private", "<tuple>", "public"] },
+  { "symbol": [ "std::tuple_element_t", "private", "<utility>", "public"] },
+  { "symbol": [ "std::tuple_element_t", "private", "<array>", "public"] },
+  { "symbol": [ "std::tuple_size", "private", "<tuple>", "public"] },
+  { "symbol": [ "std::tuple_size", "private", "<utility>", "public"] },
+  { "symbol": [ "std::tuple_size", "private", "<array>", "public"] },
+  { "symbol": [ "std::tuple_size_v", "private", "<tuple>", "public"] },
+  { "symbol": [ "std::tuple_size_v", "private", "<utility>", "public"] },
+  { "symbol": [ "std::tuple_size_v", "private", "<array>", "public"] },
 
   # Kludge time: almost all STL types take an allocator, but they
   # almost always use the default value.  Usually we detect that
diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 679e982..8527740 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -358,6 +358,19 @@ const IncludeMapEntry libstdcpp_symbol_map[] = {
   { "std::allocator_arg_t", kPrivate, "<memory>", kPublic },
   { "std::uses_allocator", kPrivate, "<memory>", kPublic },
   { "std::uses_allocator_v", kPrivate, "<memory>", kPublic },
+  // The standard has these in several headers
+  { "std::tuple_element", kPrivate, "<tuple>", kPublic },
+  { "std::tuple_element", kPrivate, "<utility>", kPublic },
+  { "std::tuple_element", kPrivate, "<array>", kPublic },
+  { "std::tuple_element_t", kPrivate, "<tuple>", kPublic },
+  { "std::tuple_element_t", kPrivate, "<utility>", kPublic },
+  { "std::tuple_element_t", kPrivate, "<array>", kPublic },
+  { "std::tuple_size", kPrivate, "<tuple>", kPublic },
+  { "std::tuple_size", kPrivate, "<utility>", kPublic },
+  { "std::tuple_size", kPrivate, "<array>", kPublic },
+  { "std::tuple_size_v", kPrivate, "<tuple>", kPublic },
+  { "std::tuple_size_v", kPrivate, "<utility>", kPublic },
+  { "std::tuple_size_v", kPrivate, "<array>", kPublic },
 };
 
 const IncludeMapEntry libc_include_map[] = {
-- 
2.43.0


From f2c81c22487fefa4bc23c9144c3f9f8e402f2fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 79/92] fix: among forward declarations in a file, choose the
 first, not the lowest address

Which one of several redeclarations of a class was kept depended on where the
allocator had placed them.
---
 iwyu_output.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 0874339..21339f2 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1542,21 +1542,21 @@ void CalculateIwyuForForwardDeclareUse(
   // We also want to know if *any* redecl of this type is defined
   // in the same file as the use (and before it).
   const set<const NamedDecl*>& redecls = GetTagRedecls(tag_decl);
+  // Among several, pick the first one: redecls is sorted by address.
   for (const NamedDecl* redecl : redecls) {
-    if (DeclIsVisibleToUseInSameFile(redecl, *use)) {
+    if (DeclIsVisibleToUseInSameFile(redecl, *use) &&
+        (!same_file_decl || IsBeforeInTranslationUnit(redecl, same_file_decl)))
       same_file_decl = redecl;
-      break;
-    }
   }
   // If there's no redecl in the .cc file, we'll accept a redecl in
   // an associated .h file.  Since associated .h files are always
   // desired includes, we don't need to check for that.
   if (!same_file_decl) {
     for (const NamedDecl* redecl : redecls) {
-      if (ContainsKey(associated_includes, GetFileEntry(redecl))) {
+      if (ContainsKey(associated_includes, GetFileEntry(redecl)) &&
+          (!same_file_decl ||
+           IsBeforeInTranslationUnit(redecl, same_file_decl)))
         same_file_decl = redecl;
-        break;
-      }
     }
   }
 
-- 
2.43.0


From b82f7715468443256adde8f0b30488d0320ac986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 80/92] fix: report on files in the order they are seen, not by
 the addresses of their entries

With many files to report on, e.g. --check_also=*, the order of the reports
depended on where the allocator had placed the file entries.
---
 iwyu.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/iwyu.cc b/iwyu.cc
index 63a7449..3ec2e24 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -87,6 +87,7 @@
 //     already get it via foo.h, IWYU won't recommend foo.cc to
 //     #include bar.h, unless it already does so.
 
+#include <algorithm>                    // for sort
 #include <cstdio>
 #include <cstdlib>                      // for atoi, exit
 #include <functional>
@@ -4047,14 +4048,22 @@ class IwyuAstConsumer
     if (compiler()->getDiagnostics().hasUnrecoverableErrorOccurred())
       exit(EXIT_FAILURE);
 
-    const set<OptionalFileEntryRef>* const files_to_report_iwyu_violations_for =
-        preprocessor_info().files_to_report_iwyu_violations_for();
+    // The set is sorted by address; process (and report on) files in the order
+    // in which they were first seen instead.
+    vector<OptionalFileEntryRef> files_to_report_iwyu_violations_for(
+        preprocessor_info().files_to_report_iwyu_violations_for()->begin(),
+        preprocessor_info().files_to_report_iwyu_violations_for()->end());
+    std::sort(files_to_report_iwyu_violations_for.begin(),
+              files_to_report_iwyu_violations_for.end(),
+              [](OptionalFileEntryRef a, OptionalFileEntryRef b) {
+                return a->getUID() < b->getUID();
+              });
 
     // Some analysis, such as UsingDecl resolution, is deferred until the
     // entire AST is visited because it's only at that point that we know if
     // the symbol was actually used or not.
     // We perform that analysis here before CalculateAndReportIwyuViolations.
-    for (OptionalFileEntryRef file : *files_to_report_iwyu_violations_for) {
+    for (OptionalFileEntryRef file : files_to_report_iwyu_violations_for) {
       CHECK_(preprocessor_info().FileInfoFor(file));
       preprocessor_info().FileInfoFor(file)->ResolvePendingAnalysis();
     }
@@ -4064,7 +4073,7 @@ class IwyuAstConsumer
     // need to figure out what those #includes are going to be.
     size_t num_edits = 0;
     OptionalFileEntryRef const main_file = preprocessor_info().main_file();
-    for (OptionalFileEntryRef file : *files_to_report_iwyu_violations_for) {
+    for (OptionalFileEntryRef file : files_to_report_iwyu_violations_for) {
       if (file == main_file)
         continue;
       CHECK_(preprocessor_info().FileInfoFor(file));
-- 
2.43.0


From 0ca54f0ea31774bad621918e3e12dc51694ec8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 81/92] fix: choose the redeclaration of a friend class by its
 position, not its address

The choice, and thus the header that was suggested, depended on where the
allocator had placed the declarations.
---
 iwyu_ast_util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 7ee6f94..9a105e4 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -1327,9 +1327,9 @@ const NamedDecl* GetNonfriendClassRedecl(const NamedDecl* decl) {
   if (!record_decl || !IsFriendDecl(record_decl))
     return decl;
 
-  set<const NamedDecl*> all_redecls = GetTagRedecls(decl);
-  CHECK_(!all_redecls.empty() && "Uncaught non-class decl");
-  return *all_redecls.begin();    // arbitrary choice
+  const NamedDecl* first_redecl = GetFirstRedecl(decl);
+  CHECK_(first_redecl && "Uncaught non-class decl");
+  return first_redecl;  // arbitrary choice, but always the same
 }
 
 bool DeclsAreInSameClass(const Decl* decl1, const Decl* decl2) {
-- 
2.43.0


From df6958e0d9c0d6435ec74baea966228f9dd017f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 82/92] fix: do not assert on --max_line_length=0

---
 iwyu_output.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 21339f2..5f007e1 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -114,8 +114,8 @@ string OutputLine::printable_line(size_t min_length, size_t max_length) const {
   if (symbols_.empty())
     return line_;
 
-  CHECK_(max_length > 0);
-  --max_length;  // Spare a char for newline character.
+  if (max_length > 0)
+    --max_length;  // Spare a char for newline character.
 
   // Before first symbol, print '  // for ' and pad it so 'why' comments are
   // nicely aligned.
-- 
2.43.0


From 57721f4e0038c0ee033be02f09f1c1752236248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 83/92] fix: do not analyze a translation unit that the
 compiler rejected

---
 iwyu.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 3ec2e24..3a0e45e 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4017,6 +4017,11 @@ class IwyuAstConsumer
     const_cast<IwyuPreprocessorInfo*>(&preprocessor_info())->
         HandlePreprocessingDone();
 
+    // There is no point in starting when the AST is already in a bad state, and
+    // the passes below may trip over what is missing from it.
+    if (compiler()->getDiagnostics().hasUnrecoverableErrorOccurred())
+      exit(EXIT_FAILURE);
+
     TranslationUnitDecl* tu_decl = context.getTranslationUnitDecl();
 
     // Sema::TUScope is reset after parsing, but Sema::getCurScope still points
-- 
2.43.0


From 9dce01ff3cf301be88a2f54126887dbe9528e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 84/92] fix: do not crash on declarations that come from a
 Clang module

---
 iwyu.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iwyu.cc b/iwyu.cc
index 3a0e45e..998f6a6 100644
--- a/iwyu.cc
+++ b/iwyu.cc
@@ -4197,6 +4197,13 @@ class IwyuAstConsumer
 
   // --- Visitors of types derived from Decl.
 
+  // What was loaded from a Clang module is not part of the files analyzed.
+  bool TraverseDecl(Decl* decl) {
+    if (decl && decl->isFromASTFile())
+      return true;
+    return Base::TraverseDecl(decl);
+  }
+
   bool VisitNamespaceAliasDecl(NamespaceAliasDecl* decl) {
     if (CanIgnoreCurrentASTNode())
       return true;
-- 
2.43.0


From e23bd0d57bc6913841319110d5d52a8843c0187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 85/92] fix: include namespaces in '(ptr only)' comments when
 asked to

---
 iwyu_output.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 5f007e1..0fd165d 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -1897,7 +1897,9 @@ void CalculateDesiredIncludesAndForwardDeclares(
     } else if (ContainsKey(include_map, use.suggested_header())) {
       // If we satisfy a forward-declare use from a file, let the file
       // know (this is just for logging).
-      const string symbol_name = use.short_symbol_name();
+      const string symbol_name = GlobalFlags().comments_with_namespace
+                                     ? use.symbol_name()
+                                     : use.short_symbol_name();
 
       auto range = include_map.equal_range(use.suggested_header());
       for (auto it = range.first; it != range.second; ++it) {
-- 
2.43.0


From c1ad558bae028e44ddf7a7a398f5682db8f6e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 86/92] fix: print all namespaces around a type declared in a
 linkage specification

The enclosing namespaces of a suggested forward declaration were collected
only up to the first extern "C++" block.
---
 iwyu_output.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 0fd165d..b6cdf1c 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -411,8 +411,10 @@ string PrintForwardDeclare(const NamedDecl* decl,
   bool seen_namespace = false;
   // Anonymous namespaces are not using the more concise syntax.
   bool concat_namespaces = cxx17ns && !decl->isInAnonymousNamespace();
-  for (const DeclContext* ctx = decl->getDeclContext();
-       ctx && isa<NamedDecl>(ctx); ctx = ctx->getParent()) {
+  // Linkage specifications ('extern "C++" { ... }') are transparent: they may
+  // enclose a declaration but are no part of its name.
+  for (const DeclContext* ctx = decl->getDeclContext()->getRedeclContext();
+       isa<NamedDecl>(ctx); ctx = ctx->getParent()->getRedeclContext()) {
     if (const RecordDecl* rec = DynCastFrom(ctx)) {
       fwd_decl = std::string(rec->getName()) + "::" + fwd_decl;
     } else if (const NamespaceDecl* ns = DynCastFrom(ctx)) {
@@ -430,7 +432,7 @@ string PrintForwardDeclare(const NamedDecl* decl,
           first = false;
           prefix = prefix + " { ";
         }
-        if (ctx->getParent() && isa<NamedDecl>(ctx->getParent())) {
+        if (isa<NamedDecl>(ctx->getParent()->getRedeclContext())) {
           prefix = "::" + prefix;
         } else {
           prefix = "namespace " + prefix;
-- 
2.43.0


From 95202333a3f820169055a55cd0782f1899ba680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:37 +0000
Subject: [PATCH 87/92] fix: keep the only declaration of a type that is never
 defined

A use for which IWYU asks for the complete type (a template template argument,
a parameter in a function type) made the forward declaration of a type that has
no definition look unnecessary.
---
 iwyu_output.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index b6cdf1c..6dfb383 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -805,6 +805,23 @@ bool DeclCanBeForwardDeclared(const Decl* decl) {
   return DeclCanBeForwardDeclared(decl, &reason);
 }
 
+// Helper to tell whether a (full) use could only be of a forward-declaration,
+// because the type or class template isn't defined anywhere.
+bool IsForwardDeclareWithoutDefinition(const NamedDecl* decl) {
+  if (!DeclCanBeForwardDeclared(decl))
+    return false;
+  if (const auto* tpl_decl = dyn_cast<ClassTemplateDecl>(decl))
+    decl = tpl_decl->getTemplatedDecl();
+  const auto* tag_decl = cast<TagDecl>(decl);
+  if (isa<ClassTemplateSpecializationDecl>(tag_decl) ||
+      IsNestedClass(tag_decl) || tag_decl->getDefinition() != nullptr) {
+    return false;
+  }
+  return llvm::any_of(tag_decl->redecls(), [](const TagDecl* redecl) {
+    return IsForwardDecl(redecl);
+  });
+}
+
 // Helper to tell whether a forward-declare use is 'preceded' by a
 // declaration inside the same file.  'Preceded' is in quotes, because
 // it's actually ok if the declaration follows the use, inside a
@@ -1330,6 +1347,15 @@ void ProcessFullUse(OneUse* use, const IwyuPreprocessorInfo* preprocessor_info,
       all_redecls = GetNonTagRedecls(use->decl());
     for (const NamedDecl* redecl : all_redecls) {
       if (DeclIsVisibleToUseInSameFile(redecl, *use)) {
+        if (IsForwardDeclareWithoutDefinition(redecl)) {
+          // There is no definition anywhere, so this declaration is all there
+          // is to satisfy the use. Make sure it is kept.
+          VERRS(6) << "Moving " << use->symbol_name()
+                   << " from full use to fwd-decl: no definition"
+                   << " (" << use->PrintableUseLoc() << ")\n";
+          use->set_forward_declare_use();
+          return;
+        }
         VERRS(6) << "Ignoring use of " << use->symbol_name() << " ("
                  << use->PrintableUseLoc() << "): definition is present: "
                  << PrintableLoc(use->decl_loc()) << "\n";
-- 
2.43.0


From c723d5403c34224f3ffcd4b96e02b747e1e49d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 88/92] fix: print the whole template head in suggested forward
 declarations

The head was cut at the first " :" or " {", which may be part of it:
a global qualifier, a conditional expression, a requires-expression.
---
 iwyu_output.cc | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 6dfb383..b998fa8 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -42,6 +42,7 @@
 
 namespace include_what_you_use {
 
+using clang::ASTContext;
 using clang::BuiltinTemplateDecl;
 using clang::CXXRecordDecl;
 using clang::ClassTemplateDecl;
@@ -468,37 +469,20 @@ string MungedForwardDeclareLineForNontemplates(const TagDecl* decl) {
 // declaration, return the line that could be put in source code to
 // forward-declare the template, e.g.
 //     "namespace ns { template <typename T> class Foo; }".
-string MungedForwardDeclareLineForTemplates(const TemplateDecl* decl) {
-  // DeclPrinter prints the class name just as we like it (with default args and
-  // everything) -- with logic that doesn't exist elsewhere in clang that I can
-  // see. Unfortunately, it also prints the full class body. So, as a hack, we
-  // postprocess the printed decl and then cut off everything after the template
-  // name. We also have to replace the name with the fully qualified name.
-  // TODO(csilvers): prepend namespaces instead.
+string MungedForwardDeclareLineForTemplates(const ClassTemplateDecl* decl) {
   std::string line;
   raw_string_ostream ostream(line);
 
-  // Print the decl using PolishForDeclaration, which strips some semantic
-  // attributes.
-  PrintingPolicy policy = decl->getASTContext().getPrintingPolicy();
+  // Print the 'template <...>' head with any requires-clause.
+  const ASTContext& context = decl->getASTContext();
+  PrintingPolicy policy = context.getPrintingPolicy();
   policy.PolishForDeclaration = true;
-  decl->print(ostream, policy);
+  decl->getTemplateParameters()->print(ostream, context, policy);
   ostream.flush();
 
-  // Remove "final" specifier, it isn't allowed for forward declarations.
-  ReplaceAll(&line, " final ", " ");
-
-  // Get rid of the superclasses, if any (this will nix the body too).
-  DropFrom(&line, " :");
-  // Get rid of the template body, if any (true if no superclasses).
-  DropFrom(&line, " {");
-
-  // The template name is now the last word on the line. Replace it by its
-  // fully-qualified form.
-  const string::size_type name = line.rfind(' ');
-  CHECK_(name != string::npos && "Unexpected printable template-type");
-
-  line = line.substr(0, name);
+  // Depending on what it ends with, the head may have a trailing space.
+  StripWhiteSpace(&line);
+  line += " " + GetKindName(decl->getTemplatedDecl());
 
   return PrintForwardDeclare(decl, line, GlobalFlags().cxx17ns);
 }
@@ -506,7 +490,7 @@ string MungedForwardDeclareLineForTemplates(const TemplateDecl* decl) {
 string MungedForwardDeclareLine(const NamedDecl* decl) {
   if (const TagDecl* tag_decl = DynCastFrom(decl))
     return MungedForwardDeclareLineForNontemplates(tag_decl);
-  else if (const TemplateDecl* template_decl = DynCastFrom(decl))
+  else if (const ClassTemplateDecl* template_decl = DynCastFrom(decl))
     return MungedForwardDeclareLineForTemplates(template_decl);
   CHECK_UNREACHABLE_("Unexpected decl type for MungedForwardDeclareLine");
 }
-- 
2.43.0


From c2be3170870ef387c641b96a930b3c7ce34cec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:25 +0000
Subject: [PATCH 89/92] fix: look for the next token in the macro being defined

The end of the tokens of the macro that is named was used instead, so that the
search ran past the tokens of the macro that is defined.
---
 iwyu_preprocessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9b94ec1..5a1cfb7 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -762,7 +762,7 @@ void IwyuPreprocessorInfo::MacroDefined(const Token& id,
     // A token with an associated macro it will only be considered for macro
     // expansion if it's object-like or function-like and followed by l-paren.
     if (macro->isFunctionLike() &&
-        GetNextMacroTokenKind(macro, it) != clang::tok::l_paren) {
+        GetNextMacroTokenKind(defined_macro, it) != clang::tok::l_paren) {
       continue;
     }
 
-- 
2.43.0


From ab32d92f9089b2986680360244157238d24cdae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 90/92] fix: report macros tested by #elifdef and #elifndef as
 used

---
 iwyu_preprocessor.cc | 16 ++++++++++++++++
 iwyu_preprocessor.h  |  7 +++++++
 2 files changed, 23 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 5a1cfb7..e15b1e8 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -788,6 +788,22 @@ void IwyuPreprocessorInfo::Ifndef(SourceLocation loc, const Token& id,
   ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
 }
 
+void IwyuPreprocessorInfo::Elifdef(SourceLocation loc, const Token& id,
+                                   const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifdef    ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
+void IwyuPreprocessorInfo::Elifndef(SourceLocation loc, const Token& id,
+                                    const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifndef   ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
 // Clang will give a MacroExpands() callback for all macro-tokens
 // used inside an #if or #elif, *except* macro-tokens used within a
 // 'defined' operator. They produce a Defined() callback.
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index d5b8f90..4f07bd8 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -184,6 +184,13 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
              const clang::MacroDefinition& definition) override;
   void Ifndef(clang::SourceLocation loc, const clang::Token& id,
               const clang::MacroDefinition& definition) override;
+  // The overloads for skipped directives are of no interest.
+  using clang::PPCallbacks::Elifdef;
+  using clang::PPCallbacks::Elifndef;
+  void Elifdef(clang::SourceLocation loc, const clang::Token& id,
+               const clang::MacroDefinition& definition) override;
+  void Elifndef(clang::SourceLocation loc, const clang::Token& id,
+                const clang::MacroDefinition& definition) override;
   void Defined(const clang::Token& id,
                const clang::MacroDefinition& definition,
                clang::SourceRange range) override;
-- 
2.43.0


From 44207e65a65484503682a7c1dba02de3c64079a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 91/92] fix: do not take macro parameters for uses of macros of
 the same name

---
 iwyu_preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index e15b1e8..8048075 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -754,6 +754,10 @@ void IwyuPreprocessorInfo::MacroDefined(const Token& id,
     if (token.isExpandDisabled())
       continue;
 
+    // Parameters hide macros of the same name.
+    if (defined_macro->getParameterNum(token.getIdentifierInfo()) != -1)
+      continue;
+
     const MacroInfo* macro =
         preprocessor_.getMacroInfo(token.getIdentifierInfo());
     if (!macro || !macro->isEnabled())
-- 
2.43.0


From 198869e832a2357cc93f369ce2d4491c62613d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 92/92] fix: look for converting constructors in the definition
 of a template

A class template that was forward-declared before its definition was searched
for converting constructors in its first declaration, which has none, so that
callers of a function taking it by value or const reference were asked to
include it although the function's author already does.
---
 iwyu_ast_util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iwyu_ast_util.cc b/iwyu_ast_util.cc
index 9a105e4..42a18d0 100644
--- a/iwyu_ast_util.cc
+++ b/iwyu_ast_util.cc
@@ -761,9 +761,10 @@ bool HasImplicitConversionCtor(const CXXRecordDecl* cxx_class) {
   if (const auto* tpl_spec =
           dyn_cast<ClassTemplateSpecializationDecl>(cxx_class)) {
     if (!tpl_spec->isExplicitSpecialization()) {
-      cxx_class = tpl_spec->getSpecializedTemplate()
-                      ->getCanonicalDecl()
-                      ->getTemplatedDecl();
+      cxx_class = tpl_spec->getSpecializedTemplate()->getTemplatedDecl();
+      // The template may have been forward-declared before.
+      if (const CXXRecordDecl* definition = cxx_class->getDefinition())
+        cxx_class = definition;
     }
     // TODO(bolshakov): handle partial specializations.
   }
-- 
2.43.0

