From 8af7147c191f118988a074f4328b32f6ab9f9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 001/162] fix: round floating constants to their type when
 folding

Constants were kept in the host's long double: float literals and float
arithmetic kept excess precision, decimal literals were rounded twice and
conversions of constants above INT64_MAX to unsigned were wrong.
---
 src/cc/frontend/ast.c     |  2 +-
 src/cc/frontend/ast.h     |  2 +-
 src/cc/frontend/fe_misc.c | 16 ++++++++++------
 src/cc/frontend/lexer.c   |  6 ------
 4 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index d71075a..963810b 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -100,7 +100,7 @@ Expr *new_expr_fixlit(Type *type, const Token *token, Fixnum fixnum) {
 Expr *new_expr_flolit(Type *type, const Token *token, Flonum flonum) {
   assert(type->kind == TY_FLONUM);
   Expr *expr = new_expr(EX_FLONUM, type, token);
-  expr->flonum = flonum;
+  expr->flonum = type->flonum.kind == FL_FLOAT ? (float)flonum : flonum;
   return expr;
 }
 #endif
diff --git a/src/cc/frontend/ast.h b/src/cc/frontend/ast.h
index 347fb40..1ba3b27 100644
--- a/src/cc/frontend/ast.h
+++ b/src/cc/frontend/ast.h
@@ -23,7 +23,7 @@ typedef int64_t  Fixnum;
 typedef uint64_t UFixnum;
 
 #ifndef __NO_FLONUM
-typedef long double Flonum;
+typedef double Flonum;  // long double in XCC is same as double.
 #endif
 
 enum StrKind {
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b97f692..b9ce0dd 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -359,17 +359,21 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
         if (is_bool(type))
           fixnum = sub->flonum != 0;
         else
-          fixnum = wrap_value(sub->flonum, type_size(type), type->fixnum.is_unsigned);
+          fixnum = wrap_value(
+              sub->flonum >= (Flonum)((UFixnum)1 << 63) ? (Fixnum)(UFixnum)sub->flonum : (Fixnum)sub->flonum,
+              type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
       assert(type->kind == TY_FLONUM);
-      sub->type = type;
-      return sub;
+      return new_expr_flolit(type, sub->token, sub->flonum);
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
-        Flonum flonum = (sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned)
-                            ? (Flonum)(UFixnum)sub->fixnum
-                            : (Flonum)sub->fixnum;
+        bool uns = sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned;
+        Flonum flonum;
+        if (type->flonum.kind == FL_FLOAT)
+          flonum = uns ? (float)(UFixnum)sub->fixnum : (float)sub->fixnum;
+        else
+          flonum = uns ? (Flonum)(UFixnum)sub->fixnum : (Flonum)sub->fixnum;
         return new_expr_flolit(type, sub->token, flonum);
       }
       break;
diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index c466523..e61bcb0 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -393,13 +393,7 @@ static const char *skip_whitespace_or_comment(const char *p) {
 static Token *read_flonum(const char **pp, int base) {
   const char *start = *pp;
   char *next;
-#ifdef __XCC
-  // long double in XCC is same as double, and if the target platform uses
-  // system library, it makes discrepancy.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   enum TokenKind tk = TK_DOUBLELIT;
   switch (tolower(*next)) {
   case 'f':
-- 
2.43.0


From 1cafec07951d8ceef23015f8642b23d005405659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 002/162] fix: constant folding follows the usual arithmetic
 conversions

The result type of folded additions ignored signedness and float/double,
x*0.0 was folded to 0.0 for NaN, infinities and negative x, and the
constant-on-the-left simplifications looked at the wrong operand.
---
 src/cc/frontend/fe_misc.c | 65 ++++++---------------------------------
 1 file changed, 9 insertions(+), 56 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b9ce0dd..71e5b97 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -818,8 +818,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum rval = rhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (rval == 0.0)
-              return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);  // 0.0
             if (rval == -1.0)
               return new_expr_unary(EX_NEG, lhs->type, lhs->token, lhs);  // -lhs
             // Fallthrough.
@@ -864,8 +862,6 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           Flonum lval = lhs->flonum;
           switch (kind) {
           case EX_MUL:
-            if (lval == 0.0)
-              return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0.0
             if (lval == 1.0)
               return rhs;  // no effect.
             if (lval == -1.0)
@@ -876,15 +872,13 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           break;
         }
 #endif
-        Fixnum lval = rhs->fixnum;
+        Fixnum lval = lhs->fixnum;
         switch (kind) {
         case EX_MUL:
           if (lval == 0)
             return new_expr_bop(EX_COMMA, lhs->type, tok, rhs, lhs);  // 0
           if (lval == -1)
             return new_expr_unary(EX_NEG, rhs->type, rhs->token, rhs);  // -rhs
-          // Fallthrough.
-        case EX_DIV:
           if (lval == 1)
             return rhs;  // no effect.
           break;
@@ -929,62 +923,21 @@ Expr *new_expr_addsub(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs
   assert(ltype != NULL);
   assert(rtype != NULL);
   if (is_number(ltype) && is_number(rtype)) {
+    cast_numbers(&lhs, &rhs, true);
+    type = lhs->type;
     if (is_const(lhs) && is_const(rhs)) {
 #ifndef __NO_FLONUM
-      if (is_flonum(lhs->type) || is_flonum(rhs->type)) {
-        Flonum lval = is_flonum(lhs->type) ? lhs->flonum : lhs->fixnum;
-        Flonum rval = is_flonum(rhs->type) ? rhs->flonum : rhs->fixnum;
-        Flonum value;
-        switch (kind) {
-        case EX_ADD:     value = lval + rval; break;
-        case EX_SUB:     value = lval - rval; break;
-        default:
-          assert(!"err");
-          value = -1;  // Dummy
-          break;
-        }
-        Type *type = lhs->type;
-        if (is_flonum(rhs->type))
-          type = rhs->type;
-        if (is_flonum(type)) {
-          return new_expr_flolit(type, lhs->token, value);
-        } else {
-          Fixnum fixnum = value;
-          return new_expr_fixlit(type, lhs->token, fixnum);
-        }
+      if (is_flonum(type)) {
+        Flonum value = kind == EX_ADD ? lhs->flonum + rhs->flonum : lhs->flonum - rhs->flonum;
+        return new_expr_flolit(type, lhs->token, value);
       }
 #endif
-      enum FixnumKind lnt = ltype->fixnum.kind;
-      enum FixnumKind rnt = rtype->fixnum.kind;
-      if (lnt >= FX_ENUM) {
-        ltype = &tyInt;
-        lnt = FX_INT;
-      }
-      if (rnt >= FX_ENUM) {
-        rtype = &tyInt;
-        rnt = FX_INT;
-      }
-
-      Fixnum lval = lhs->fixnum;
-      Fixnum rval = rhs->fixnum;
-      Fixnum value;
-      switch (kind) {
-      case EX_ADD: value = lval + rval; break;
-      case EX_SUB: value = lval - rval; break;
-      default:
-        assert(false);
-        value = -1;
-        break;
-      }
-      Type *type = lnt >= rnt ? ltype : rtype;
-      if (type->fixnum.kind < FX_INT)
-        type = &tyInt;
+      UFixnum lval = lhs->fixnum;
+      UFixnum rval = rhs->fixnum;
+      Fixnum value = kind == EX_ADD ? lval + rval : lval - rval;
       return new_expr_fixlit(type, lhs->token,
                              wrap_value(value, type_size(type), type->fixnum.is_unsigned));
     }
-
-    cast_numbers(&lhs, &rhs, true);
-    type = lhs->type;
   } else if (ptr_or_array(ltype)) {
     if (is_fixnum(rtype->kind)) {
       type = ltype;
-- 
2.43.0


From db31af63262b077a78fbec9716cfcef0bd1ec0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 003/162] fix: bit-field accesses of _Bool, 64-bit wide fields,
 increments and results

_Bool bit-fields and ++/-- on bit-fields hit assertions, the shift count of
an assignment to a _Bool field was normalised to 1, 64-bit wide fields got
an empty mask, and assignments yielded the value before truncation.
---
 src/cc/frontend/cc_misc.c |  2 +-
 src/cc/frontend/fe_misc.c | 48 +++++++++++++++++++--------------------
 src/cc/frontend/type.c    |  5 ++--
 3 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index f0be4f0..a94bb8a 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -86,7 +86,7 @@ static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initial
       continue;  // 0
     assert(mem_init->kind == IK_SINGLE && mem_init->single->kind == EX_FIXNUM);
 
-    Fixnum mask = (1LL << member->bitfield.width) - 1;
+    UFixnum mask = (UFixnum)-1 >> (sizeof(UFixnum) * TARGET_CHAR_BIT - member->bitfield.width);
     x |= (mem_init->single->fixnum & mask) << member->bitfield.position;
   }
   *pi = i - 1;
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 71e5b97..dd2c74a 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1020,6 +1020,11 @@ void not_bitfield_member(Expr *expr) {
   }
 }
 
+static UFixnum bitfield_mask(const MemberInfo *minfo) {
+  assert(minfo->bitfield.width > 0);
+  return (UFixnum)-1 >> (sizeof(UFixnum) * TARGET_CHAR_BIT - minfo->bitfield.width);
+}
+
 Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
   Expr *tmp = src;
   Type *type = src->type;
@@ -1028,7 +1033,7 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
     if (minfo->bitfield.position > 0)
       tmp = new_expr_bop(EX_RSHIFT, tmp->type, tmp->token, tmp,
                          new_expr_fixlit(tmp->type, tmp->token, minfo->bitfield.position));
-    UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+    UFixnum mask = bitfield_mask(minfo);
     tmp = new_expr_bop(EX_BITAND, tmp->type, tmp->token, tmp,
                        new_expr_fixlit(tmp->type, tmp->token, mask));
   } else {
@@ -1050,12 +1055,12 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
   Type *type = dst->type;
   Type *vtype = val->type;
 
-  UFixnum mask = ((UFixnum)1 << minfo->bitfield.width) - 1;
+  UFixnum mask = bitfield_mask(minfo);
   Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
   val_masked = make_cast(type, tok, val_masked, false);
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
-                              new_expr_fixlit(vtype, tok, minfo->bitfield.position));
+                              new_expr_fixlit(type, tok, minfo->bitfield.position));
   val_masked = make_cast(type, tok, val_masked, false);
   Expr *src_masked = new_expr_bop(EX_BITAND, type, tok, src,
                                   new_expr_fixlit(type, tok, ~(mask << minfo->bitfield.position)));
@@ -1064,7 +1069,7 @@ Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
 }
 
 Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInfo *minfo) {
-  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), val)
+  // Transform expression to (ptr = &lhs, val = rhs, *ptr = (*ptr & ~(mask << bitpos)) | ((val & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
 
@@ -1079,15 +1084,17 @@ Expr *assign_to_bitfield(const Token *tok, Expr *lhs, Expr *rhs, const MemberInf
 
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
   Expr *assign = assign_bitfield_member(tok, dst, dst, val, minfo);
-  return new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
-                      new_expr_bop(EX_COMMA, vtype, tok, val_assign,
-                                   new_expr_bop(EX_COMMA, vtype, tok, assign, val)));
+  Expr *result = extract_bitfield_value(dst, minfo);
+  Type *rtype = result->type;
+  return new_expr_bop(EX_COMMA, rtype, tok, ptr_assign,
+                      new_expr_bop(EX_COMMA, rtype, tok, val_assign,
+                                   new_expr_bop(EX_COMMA, rtype, tok, assign, result)));
 }
 
 static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, const Token *tok,
                                           const MemberInfo *minfo) {
-  // ++target => (&ptr = &target, src = *ptr, val = ((src + (1 << bitpos)) >> bitpos), *ptr = (src & (mask << bitpos)) | ((val & mask) << bitpos), val)
-  // target++ => (&ptr = &target, src = *ptr, val = src >> bitpos, *ptr = (src & (mask << bitpos)) | (((val + 1) & mask) << bitpos), val)
+  // ++target => (ptr = &target, src = *ptr, val = extract(src), *ptr = (src & ~(mask << bitpos)) | (((val + 1) & mask) << bitpos), extract(*ptr))
+  // target++ => (ptr = &target, src = *ptr, val = extract(src), *ptr = (src & ~(mask << bitpos)) | (((val + 1) & mask) << bitpos), val)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, target->type->fixnum.is_unsigned, 0);
 
@@ -1110,26 +1117,17 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
   int dec = (kind - EX_PREINC) & INCDEC;
   int post = (kind - EX_PREINC) & PREPOST;
 
-  Expr *val_assign, *after;
-  if (post) {
-    Expr *before = extract_bitfield_value(src, minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, before);
-    after = new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, before, new_expr_fixlit(type, NULL, 1));
-  } else {
-    Expr *tmp = extract_bitfield_value(
-        new_expr_bop(!dec ? EX_ADD : EX_SUB, type, tok, src,
-                     new_expr_fixlit(type, NULL, 1 << minfo->bitfield.position)),
-        minfo);
-    val_assign = new_expr_bop(EX_ASSIGN, type, tok, val, tmp);
-    after = val;
-  }
+  Expr *val_assign = new_expr_bop(EX_ASSIGN, vtype, tok, val, extract_bitfield_value(src, minfo));
+  Expr *after = make_cast(vtype, tok,
+                          new_expr_addsub(!dec ? EX_ADD : EX_SUB, tok, val,
+                                          new_expr_fixlit(&tyInt, tok, 1)), false);
   Expr *store = assign_bitfield_member(tok, dst, src, after, minfo);
 
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign,
                                                 new_expr_bop(EX_COMMA, vtype, tok, val_assign, store))),
-                      val);
+                      post ? val : extract_bitfield_value(dst, minfo));
 }
 #endif
 
@@ -1591,10 +1589,10 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
-  tmp = calc_assign_with(tok, tmp, rhs);
+  tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-  Type *vtype = rhs->type;
+  Type *vtype = minfo->type;
   return new_expr_bop(EX_COMMA, vtype, tok,
                       new_expr_bop(EX_COMMA, vtype, tok, ptr_assign,
                                    new_expr_bop(EX_COMMA, vtype, tok, src_assign, store)),
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 912887f..56f4d52 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -66,7 +66,7 @@ static size_t calc_bitfield_size(StructInfo *sinfo, int *pi, size_t size, size_t
     size_t remain = size % align;
     if (remain == 0) {
       kind = minfo->type->fixnum.kind;
-      if (kind == FX_ENUM)
+      if (kind >= FX_ENUM)
         kind = FX_INT;
     } else {
       // Detect LSB.
@@ -166,7 +166,8 @@ static void calc_struct_size(StructInfo *sinfo) {
 #ifndef __NO_BITFIELD
       if (minfo->bitfield.width > 0) {
         minfo->bitfield.position = 0;
-        minfo->bitfield.base_kind = minfo->type->fixnum.kind;
+        enum FixnumKind kind = minfo->type->fixnum.kind;
+        minfo->bitfield.base_kind = kind >= FX_ENUM ? FX_INT : kind;
       } else
 #endif
       {
-- 
2.43.0


From 0fca075a958a374d7ff759094a11dd3f0e8cc8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 004/162] fix: type of the conditional operator follows the
 usual arithmetic conversions

---
 src/cc/frontend/fe_misc.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index dd2c74a..f2925d6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -442,6 +442,12 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
+// Order of integer types in usual arithmetic conversions.
+static int arith_rank(const Type *type) {
+  assert(is_fixnum(type->kind));
+  return (type_size(type) << 1) | (type->fixnum.is_unsigned ? 1 : 0);
+}
+
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
   Expr *lhs = *pLhs;
   Expr *rhs = *pRhs;
@@ -487,9 +493,7 @@ static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
     *pLhs = promote_to_int(lhs);
     *pRhs = promote_to_int(rhs);
   } else if (changed || !same_type_without_qualifier(ltype, rtype, true)) {
-    int l = (type_size(ltype) << 1) | (ltype->fixnum.is_unsigned ? 1 : 0);
-    int r = (type_size(rtype) << 1) | (rtype->fixnum.is_unsigned ? 1 : 0);
-    Type *type = l >= r ? ltype : rtype;
+    Type *type = arith_rank(ltype) >= arith_rank(rtype) ? ltype : rtype;
     *pLhs = make_cast(type, lhs->token, lhs, false);
     *pRhs = make_cast(type, rhs->token, rhs, false);
   }
@@ -1527,21 +1531,20 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
     return choose_ternary_result_type(fval, tval);  // Make ttype to pointer, and check again.
   } else if (is_number(ttype) && is_number(ftype)) {
     if (is_flonum(ttype)) {
-      // TODO: Choose lager one.
-      // if (is_flonum(ftype)) {
-      //   return ttype;
-      // }
+      if (is_flonum(ftype) && ftype->flonum.kind > ttype->flonum.kind)
+        return ftype;
       return ttype;
     } else if (is_flonum(ftype)) {
       return ftype;
     }
     assert(is_fixnum(ttype->kind));
     assert(is_fixnum(ftype->kind));
-    if (ttype->fixnum.kind >= FX_ENUM)
+    // Integer promotion.
+    if (ttype->fixnum.kind < FX_INT || ttype->fixnum.kind >= FX_ENUM)
       ttype = &tyInt;
-    if (ftype->fixnum.kind >= FX_ENUM)
+    if (ftype->fixnum.kind < FX_INT || ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    return ttype->fixnum.kind > ftype->fixnum.kind ? ttype : ftype;
+    return arith_rank(ttype) >= arith_rank(ftype) ? ttype : ftype;
   }
   return NULL;
 }
-- 
2.43.0


From 070d667a2566645f6886e918429bbdff6fb604f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 005/162] fix: compound shift assignment promotes its left
 operand

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f2925d6..fd2e65c 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1568,7 +1568,8 @@ static Expr *calc_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
       if (!is_fixnum(ltype->kind) || !is_fixnum(rtype->kind))
         parse_error(PE_FATAL, tok, "Cannot use `%.*s' except numbers.",
                     (int)(tok->end - tok->begin), tok->begin);
-      return new_expr_bop(kind, ltype, tok, lhs, rhs);
+      lhs = promote_to_int(lhs);
+      return new_expr_bop(kind, lhs->type, tok, lhs, rhs);
     }
   }
 }
-- 
2.43.0


From dcc43af5ec7c06826247529866b8cdd8cd2bdf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:28 +0000
Subject: [PATCH 006/162] fix: unsigned bit-fields narrower than int are
 promoted to int

---
 src/cc/frontend/fe_misc.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index fd2e65c..db22dab 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -442,6 +442,24 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
+#ifndef __NO_BITFIELD
+// An unsigned bit-field narrower than int is promoted to int.
+static bool is_promoted_bitfield(const MemberInfo *minfo) {
+  const Type *type = minfo->type;
+  return minfo->bitfield.active && type->kind == TY_FIXNUM && type->fixnum.kind == FX_INT &&
+      type->fixnum.is_unsigned &&
+      minfo->bitfield.width < (int)type_size(&tyInt) * TARGET_CHAR_BIT;
+}
+#endif
+
+static Expr *promote_bitfield(Expr *expr) {
+#ifndef __NO_BITFIELD
+  if (expr->kind == EX_MEMBER && is_promoted_bitfield(expr->member.info))
+    return make_cast(&tyInt, expr->token, expr, false);
+#endif
+  return expr;
+}
+
 // Order of integer types in usual arithmetic conversions.
 static int arith_rank(const Type *type) {
   assert(is_fixnum(type->kind));
@@ -449,8 +467,8 @@ static int arith_rank(const Type *type) {
 }
 
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
-  Expr *lhs = *pLhs;
-  Expr *rhs = *pRhs;
+  Expr *lhs = *pLhs = promote_bitfield(*pLhs);
+  Expr *rhs = *pRhs = promote_bitfield(*pRhs);
   Type *ltype = lhs->type;
   Type *rtype = rhs->type;
   assert(ltype != NULL);
@@ -749,7 +767,7 @@ Expr *promote_to_int(Expr *expr) {
   assert(expr->type->kind == TY_FIXNUM);
   enum FixnumKind kind = expr->type->fixnum.kind;
   if (kind >= FX_INT && kind <= FX_LLONG)
-    return expr;
+    return promote_bitfield(expr);
   return make_cast(&tyInt, expr->token, expr, false);
 }
 
@@ -1498,6 +1516,8 @@ static Type *apply_ptr_qualifier(Type *type, Type *ptype) {
 }
 
 Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
+  tval = promote_bitfield(tval);
+  fval = promote_bitfield(fval);
   Type *ttype = tval->type;
   Type *ftype = fval->type;
 
@@ -1593,6 +1613,8 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
+  if (is_promoted_bitfield(minfo))
+    tmp = make_cast(&tyInt, tok, tmp, false);
   tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
 
-- 
2.43.0


From 9f79ad59a18b988fd192ea7ff7c0ee80d755cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 007/162] fix: compound assignment to a bit-field lost changes
 its operand made to a neighbour

---
 src/cc/frontend/fe_misc.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index db22dab..2213b0b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1598,7 +1598,7 @@ static Expr *calc_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
 static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *rhs,
                                             const MemberInfo *minfo) {
   // Transform expression to
-  // (ptr = &lhs, src = *ptr, tmp = ((src >> bitpos) & mask) + rhs,
+  // (ptr = &lhs, val = rhs, src = *ptr, tmp = ((src >> bitpos) & mask) + val,
   //  *ptr = (src & ~(mask << bitpos)) | ((tmp & mask) << bitpos), (*ptr >> bitpos) & mask)
 
   Type *type = get_fixnum_type(minfo->bitfield.base_kind, lhs->type->fixnum.is_unsigned, 0);
@@ -1609,6 +1609,16 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *ptr_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
   Expr *dst = new_expr_unary(EX_DEREF, type, tok, ptr);
 
+  if (!is_const(rhs) && is_number(rhs->type)) {
+    // Evaluate the right hand side before reading the storage unit,
+    // because it might modify an adjacent bit-field.
+    rhs = promote_bitfield(rhs);
+    Expr *val = alloc_tmp_var(curscope, rhs->type);
+    Expr *val_assign = new_expr_bop(EX_ASSIGN, rhs->type, tok, val, rhs);
+    ptr_assign = new_expr_bop(EX_COMMA, rhs->type, tok, ptr_assign, val_assign);
+    rhs = val;
+  }
+
   Expr *src = alloc_tmp_var(curscope, type);
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
-- 
2.43.0


From 3436111260b33687e8d37a82e0457eb4b50f7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 008/162] fix: cast from floating to 64-bit unsigned evaluated
 its operand twice

---
 src/cc/frontend/fe_misc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2213b0b..5bdcdad 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -406,6 +406,13 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     //   to: (flonum <= INT64_MAX) ? (int64_t)flonum
     //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
     Type *i64t = get_fixnum_type_from_size(dst_size);
+    Expr *assign = NULL;
+    if (sub->kind != EX_VAR && !is_global_scope(curscope)) {
+      // Evaluate the operand only once.
+      Expr *tmp = alloc_tmp_var(curscope, sub->type);
+      assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
+      sub = tmp;
+    }
     Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
                               new_expr_flolit(sub->type, sub->token, INT64_MAX));
     Expr *offsetted = new_expr_addsub(
@@ -414,6 +421,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     Expr *xorred = new_expr_bop(EX_BITXOR, i64t, token, make_cast(i64t, token, offsetted, false),
                                 new_expr_fixlit(i64t, token, (uint64_t)1 << 63));
     sub = new_expr_ternary(token, cond, make_cast(i64t, token, sub, false), xorred, i64t);
+    if (assign != NULL)
+      sub = new_expr_bop(EX_COMMA, i64t, token, assign, sub);
   }
 #endif
 
-- 
2.43.0


From 4591db1d2cc21c6bfbb4bdb15e6b359e9acf86ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 009/162] fix: casts between integer and floating of constants
 reached through a comma

---
 src/cc/backend/codegen_expr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 3849bcd..feb1146 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -188,7 +188,13 @@ static VReg *gen_cast(Expr *expr) {
 
   size_t dst_size = type_size(dst_type);
   if (vreg->flag & VRF_CONST) {
-    assert(!(vreg->flag & VRF_FLONUM));  // No const vreg for flonum.
+#ifndef __NO_FLONUM
+    if ((vreg->flag & VRF_FLONUM) || is_flonum(dst_type)) {
+      Expr *lit = (vreg->flag & VRF_FLONUM) ? new_expr_flolit(src->type, src->token, vreg->flonum.value)
+                                            : new_expr_fixlit(src->type, src->token, vreg->fixnum);
+      return gen_expr(make_cast(dst_type, expr->token, lit, true));
+    }
+#endif
     Fixnum value = vreg->fixnum;
     if (dst_size < (1U << vreg->vsize) && dst_size < sizeof(Fixnum)) {
       // Assume that integer is represented in Two's complement
-- 
2.43.0


From a829fc0e70b74da3a6b96634d9442cf8261102ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 010/162] fix: conversions between floating types and unsigned
 integers on x64

Conversion to unsigned int of values of 2^31 and above, conversion of an
unsigned int whose register has upper bits set, and rounding of conversions
from unsigned long at and above 2^63.
---
 src/cc/arch/x64/ir_x64.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index 257d166..ed3093d 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -683,6 +683,7 @@ static void ei_cast(IR *ir) {
         }
       } else if (pows < 3) {
         const char *s64 = kReg64s[ir->opr1->phys];
+        MOV(s, s);  // Clear upper 32bit.
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(s64, d); break;
         case SZ_DOUBLE:  CVTSI2SD(s64, d); break;
@@ -690,9 +691,10 @@ static void ei_cast(IR *ir) {
         }
       } else {
         // x64 support signed 64bit-signed-int to double only, so pass half value
-        // (precision is lost anyway).
+        // (keeping the lowest bit sticky for correct rounding).
         const Name *neglabel = alloc_label();
         const Name *skiplabel = alloc_label();
+        const Name *evenlabel = alloc_label();
         TEST(s, s);
         JS(fmt_name(neglabel));
         switch (ir->dst->vsize) {
@@ -705,6 +707,9 @@ static void ei_cast(IR *ir) {
         PUSH(RAX);  // Push %rax to avoid Break
         MOV(s, RAX);
         SHR(IM(1), RAX);
+        JAE(fmt_name(evenlabel));
+        OR(IM(1), RAX);
+        EMIT_LABEL(fmt_name(evenlabel));
         switch (ir->dst->vsize) {
         case SZ_FLOAT:   CVTSI2SS(RAX, d); ADDSS(d, d); break;
         case SZ_DOUBLE:  CVTSI2SD(RAX, d); ADDSD(d, d); break;
@@ -720,6 +725,8 @@ static void ei_cast(IR *ir) {
     int powd = ir->dst->vsize;
     if (powd < 2)
       powd = 2;
+    else if (powd == 2 && (ir->flag & IRF_UNSIGNED))
+      powd = 3;  // Upper half of 32bit-unsigned is out of range of 32bit-signed.
     switch (ir->opr1->vsize) {
     case SZ_FLOAT:   CVTTSS2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
     case SZ_DOUBLE:  CVTTSD2SI(kFReg64s[ir->opr1->phys], kRegSizeTable[powd][ir->dst->phys]); break;
-- 
2.43.0


From dad15e7ad4649758ead799eef0a160dcef439faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 011/162] fix: negation and folding of floating constants in
 the back end

The negation of a floating constant reached through a comma was folded as
an integer, and folded float results were not rounded to float.
---
 src/cc/backend/ir.c       |  3 ++-
 src/cc/backend/optimize.c | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cc/backend/ir.c b/src/cc/backend/ir.c
index 907be7c..f4a5183 100644
--- a/src/cc/backend/ir.c
+++ b/src/cc/backend/ir.c
@@ -216,7 +216,8 @@ VReg *new_ir_bop(enum IrKind kind, VReg *opr1, VReg *opr2, enum VRegSize vsize,
 
 VReg *new_ir_unary(enum IrKind kind, VReg *opr, enum VRegSize vsize, int flag) {
   assert(kind != IR_LOAD);
-  if (opr->flag & VRF_CONST) {
+  // Floating constants are left to the optimizer.
+  if ((opr->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST) {
     int64_t value = 0;
     switch (kind) {
     case IR_NEG:     value = -opr->fixnum; break;
diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a6580df..427eb36 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -369,6 +369,10 @@ static int64_t calc_const_expr(IR *ir) {
 }
 
 #ifndef __NO_FLONUM
+static inline double round_flonum(double value, enum VRegSize vsize) {
+  return vsize == VRegSize4 ? (double)(float)value : value;
+}
+
 static double calc_fconst_expr(IR *ir) {
   assert((ir->opr1->flag & (VRF_FLONUM | VRF_CONST)) == (VRF_FLONUM | VRF_CONST));
   assert(ir->opr2 == NULL || ir->opr2->flag & VRF_CONST);
@@ -385,7 +389,7 @@ static double calc_fconst_expr(IR *ir) {
   default: assert(false); break;
   }
 
-  return value;
+  return round_flonum(value, ir->dst->vsize);
 }
 #endif
 
@@ -444,9 +448,13 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)ir->opr1->fixnum : (double)ir->opr1->fixnum;
+          int64_t fixnum = ir->opr1->fixnum;
+          if (ir->dst->vsize == VRegSize4)
+            value = (ir->flag & IRF_UNSIGNED) ? (float)(uint64_t)fixnum : (float)fixnum;
+          else
+            value = (ir->flag & IRF_UNSIGNED) ? (double)(uint64_t)fixnum : (double)fixnum;
         } else {
-          value = ir->opr1->flonum.value;
+          value = round_flonum(ir->opr1->flonum.value, ir->dst->vsize);
         }
         // Replace to MOV.
         ir->kind = IR_MOV;
-- 
2.43.0


From 41e63b2bf18062b52a9bb213fccfb8fa613f453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 012/162] fix: the condition made from a comma expression has
 the type of a condition

---
 src/cc/frontend/fe_misc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 5bdcdad..603d113 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1408,7 +1408,10 @@ Expr *make_cond(Expr *expr) {
   case EX_LOGIOR:
     break;
   case EX_COMMA:
-    expr->bop.rhs = make_cond(expr->bop.rhs);
+    {
+      Expr *rhs = make_cond(expr->bop.rhs);
+      expr = new_expr_bop(EX_COMMA, rhs->type, expr->token, expr->bop.lhs, rhs);
+    }
     break;
   default:
     switch (expr->type->kind) {
-- 
2.43.0


From b4a6497b91d45b805673a54cd89a7f6f1a660b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 013/162] fix: negation of a floating comparison with NaN

---
 src/cc/frontend/fe_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 603d113..ebd20c0 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1323,6 +1323,8 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           p->kind = (EX_EQ + EX_NE) - p->kind;  // EQ <-> NE
         return p;
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
+        if (k == EX_EQ && is_flonum(p->bop.lhs->type))
+          break;  // Cannot be inverted: both `<' and `>=' are false for NaN.
         if (k == EX_EQ)
           p->kind = EX_LT + ((p->kind - EX_LT) ^ 2);  // LT <-> GE, LE <-> GT
         return p;
-- 
2.43.0


From 99de7238b6d887e46fa703044740062095e8d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 014/162] fix: constant reached through a comma was not
 converted to its unsigned type

---
 src/cc/backend/codegen_expr.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index feb1146..d640f7e 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -195,17 +195,7 @@ static VReg *gen_cast(Expr *expr) {
       return gen_expr(make_cast(dst_type, expr->token, lit, true));
     }
 #endif
-    Fixnum value = vreg->fixnum;
-    if (dst_size < (1U << vreg->vsize) && dst_size < sizeof(Fixnum)) {
-      // Assume that integer is represented in Two's complement
-      size_t bit = dst_size * TARGET_CHAR_BIT;
-      UFixnum mask = (-1UL) << bit;
-      if (!is_unsigned(dst_type) && (value & ((Fixnum)1 << (bit - 1))))    // signed && negative
-        value |= mask;
-      else
-        value &= ~mask;
-    }
-
+    Fixnum value = wrap_value(vreg->fixnum, dst_size, is_unsigned(dst_type));
     enum VRegSize vsize = to_vsize(dst_type);
     return new_const_vreg(value, vsize);
   }
-- 
2.43.0


From 1bf9a45c4c658a0da95d881959b1c6ce37017597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:09 +0000
Subject: [PATCH 015/162] fix: explicit cast from floating to 64-bit unsigned
 of values of 2^63 and above

---
 src/cc/frontend/fe_misc.c     | 6 +++---
 src/cc/frontend/parser_expr.c | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index ebd20c0..e454404 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -403,7 +403,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
   if (is_flonum(sub->type) &&
       is_fixnum(type->kind) && type->fixnum.is_unsigned && dst_size >= 8) {
     // Transform from (uint64_t)flonum
-    //   to: (flonum <= INT64_MAX) ? (int64_t)flonum
+    //   to: (flonum < INT64_MAX + 1UL) ? (int64_t)flonum
     //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
     Type *i64t = get_fixnum_type_from_size(dst_size);
     Expr *assign = NULL;
@@ -413,8 +413,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
       assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
       sub = tmp;
     }
-    Expr *cond = new_expr_bop(EX_LE, &tyBool, token, sub,
-                              new_expr_flolit(sub->type, sub->token, INT64_MAX));
+    Expr *cond = new_expr_bop(EX_LT, &tyBool, token, sub,
+                              new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
     Expr *offsetted = new_expr_addsub(
         EX_SUB, token, sub,
         new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7e23cf1..4cc0840 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -646,6 +646,8 @@ static Expr *lparen(Token *tok) {
 
   if (type->kind != TY_VOID && is_const(sub))
     return make_cast(type, token, sub, true);
+  if (is_fixnum(type->kind) && is_flonum(sub->type))  // Might require conversion other than cast.
+    return make_cast(type, token, sub, true);
   return sub->type->kind != TY_VOID ? new_expr_cast(type, token, sub) : sub;
 }
 
-- 
2.43.0


From 518493d799e10f858662abc18bd4d733d7f33f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:09 +0000
Subject: [PATCH 016/162] fix: storing to a bit-field as wide as its signed
 type clobbered its neighbours

---
 src/cc/frontend/fe_misc.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index e454404..09daa8d 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1084,11 +1084,10 @@ Expr *extract_bitfield_value(Expr *src, const MemberInfo *minfo) {
 Expr *assign_bitfield_member(const Token *tok, Expr *dst, Expr *src, Expr *val,
                              const MemberInfo *minfo) {
   Type *type = dst->type;
-  Type *vtype = val->type;
 
   UFixnum mask = bitfield_mask(minfo);
-  Expr *val_masked = new_expr_bop(EX_BITAND, vtype, tok, val, new_expr_fixlit(vtype, tok, mask));
-  val_masked = make_cast(type, tok, val_masked, false);
+  Expr *val_masked = new_expr_bop(EX_BITAND, type, tok, make_cast(type, tok, val, false),
+                                  new_expr_fixlit(type, tok, mask));
   if (minfo->bitfield.position > 0)
     val_masked = new_expr_bop(EX_LSHIFT, type, tok, val_masked,
                               new_expr_fixlit(type, tok, minfo->bitfield.position));
-- 
2.43.0


From 47c33a3b7b18055fab828d7db50b093d9c2b9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 017/162] fix: format of floating constants in the debug dump

---
 src/_debug/dump_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_debug/dump_expr.c b/src/_debug/dump_expr.c
index c017eeb..3b3ddc1 100644
--- a/src/_debug/dump_expr.c
+++ b/src/_debug/dump_expr.c
@@ -114,7 +114,7 @@ void dump_expr(FILE *fp, Expr *expr) {
 #ifndef __NO_FLONUM
     {
       char buf[64];
-      snprintf(buf, sizeof(buf) - 4, "%Lg", expr->flonum);
+      snprintf(buf, sizeof(buf) - 4, "%g", expr->flonum);
       if (strchr(buf, '.') == NULL)
         strcat(buf, ".0");
       switch (expr->type->flonum.kind) {
-- 
2.43.0


From cfba7822d0be956d4a89f09308ba3858d3bef2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:03 +0000
Subject: [PATCH 018/162] fix: switch promotes its value, converts case labels
 and orders them by type

The controlling expression was not promoted, so labels outside of its narrow
type collided or matched; labels of unsigned 64-bit switches and labels far
apart were sorted wrongly; a non-integer value crashed the compiler.
---
 src/cc/backend/codegen.c |  6 ++++--
 src/cc/frontend/parser.c | 13 ++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 5e26fe7..967f22d 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -391,8 +391,10 @@ static int compare_cases(const void *pa, const void *pb) {
     return 1;
   if (cb->case_.value == NULL)
     return -1;
-  Fixnum d = ca->case_.value->fixnum - cb->case_.value->fixnum;
-  return d > 0 ? 1 : d < 0 ? -1 : 0;
+  Fixnum a = ca->case_.value->fixnum, b = cb->case_.value->fixnum;
+  if (is_unsigned(ca->case_.value->type))
+    return (UFixnum)a > (UFixnum)b ? 1 : (UFixnum)a < (UFixnum)b ? -1 : 0;
+  return a > b ? 1 : a < b ? -1 : 0;
 }
 
 static void gen_switch_cond_table_jump(Stmt *swtch, VReg *vreg, Stmt **cases, int len, int cond_flag) {
diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 8430c04..dd928e3 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -343,7 +343,12 @@ static Stmt *parse_switch(const Token *tok) {
   consume(TK_LPAR, "`(' expected");
   Expr *value = parse_expr();
   mark_var_used(value);
-  not_void(value->type, value->token);
+  if (is_fixnum(value->type->kind)) {
+    value = promote_to_int(value);
+  } else {
+    parse_error(PE_NOFATAL, value->token, "switch value must be integer");
+    value = new_expr_fixlit(&tyInt, value->token, 0);  // Dummy
+  }
   consume(TK_RPAR, "`)' expected");
 
   Stmt *stmt = new_stmt_switch(tok, value);
@@ -382,11 +387,9 @@ static Stmt *parse_case(const Token *tok) {
   }
 
   if (value != NULL) {
-    if (find_case(swtch, value->fixnum) >= 0) {
+    value = make_cast(swtch->switch_.value->type, value->token, value, false);
+    if (find_case(swtch, value->fixnum) >= 0)
       parse_error(PE_NOFATAL, tok, "Case value `%" PRId64 "' already defined", value->fixnum);
-    } else {
-      value = make_cast(swtch->switch_.value->type, value->token, value, false);
-    }
   } else {
     if (swtch->switch_.default_ != NULL) {
       parse_error(PE_NOFATAL, tok, "`default' already defined in `switch'");
-- 
2.43.0


From 8585105669eff9ce6f0c486bbee86bd43ccf85ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:09 +0000
Subject: [PATCH 019/162] fix: SSA kept control flow that constant folding had
 removed

---
 src/cc/backend/optimize.c | 42 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index 427eb36..2fa0fab 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -640,6 +640,47 @@ static void copy_propagation(RegAlloc *ra, BBContainer *bbcon) {
   } while (again);
 }
 
+// Constant folding might turn jumps unconditional or remove them:
+// Drop control flow which no longer exists.
+static void remove_dead_flow(BBContainer *bbcon) {
+  int count = bbcon->len;
+  Vector **old_froms = malloc_or_die(sizeof(*old_froms) * count);
+  for (int i = 0; i < count; ++i) {
+    BB *bb = bbcon->data[i];
+    old_froms[i] = bb->from_bbs;
+    bb->from_bbs = new_vector();
+  }
+  detect_from_bbs(bbcon);
+
+  for (int i = 0; i < count; ++i) {
+    BB *bb = bbcon->data[i];
+    Vector *froms = old_froms[i];
+    if (bb->from_bbs->len == 0 && i > 0) {  // Unreachable.
+      vec_clear(bb->irs);
+      if (bb->phis != NULL)
+        vec_clear(bb->phis);
+    } else {
+      // Keep the order of predecessors, which corresponds to the one of phi parameters.
+      for (int j = 0; j < froms->len; ++j) {
+        if (vec_contains(bb->from_bbs, froms->data[j]))
+          continue;
+        vec_remove_at(froms, j);
+        if (bb->phis != NULL) {
+          for (int k = 0; k < bb->phis->len; ++k) {
+            Phi *phi = bb->phis->data[k];
+            vec_remove_at(phi->params, j);
+          }
+        }
+        --j;
+      }
+      vec_clear(bb->from_bbs);
+      vec_concat(bb->from_bbs, froms);
+    }
+    free_vector(froms);
+  }
+  free(old_froms);
+}
+
 //
 
 void optimize(RegAlloc *ra, BBContainer *bbcon) {
@@ -659,6 +700,7 @@ void optimize(RegAlloc *ra, BBContainer *bbcon) {
   if (apply_ssa) {
     make_ssa(ra, bbcon);
     copy_propagation(ra, bbcon);
+    remove_dead_flow(bbcon);
     remove_unused_vregs(ra, bbcon);
     if (!keep_phi) {
       resolve_phis(ra, bbcon);
-- 
2.43.0


From b71541c9d06e577f7ee9f56d656a4ad6fe9a6fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:10 +0000
Subject: [PATCH 020/162] fix: SSA constant folding compares and computes at
 the operands' width

---
 src/cc/backend/optimize.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index 2fa0fab..9d0bf24 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -268,8 +268,8 @@ static bool calc_const_cond(enum ConditionKind cond, VReg *opr1, VReg *opr2) {
   } else
 #endif
   {
-    int64_t n1 = opr1->fixnum;
-    int64_t n2 = opr2->fixnum;
+    int64_t n1 = wrap_value(opr1->fixnum, 1 << opr1->vsize, cond & COND_UNSIGNED);
+    int64_t n2 = wrap_value(opr2->fixnum, 1 << opr2->vsize, cond & COND_UNSIGNED);
     switch ((int)cond) {
     case COND_EQ | COND_UNSIGNED:  // Fallthrough
     case COND_EQ:  return n1 == n2;
@@ -355,12 +355,12 @@ static int64_t calc_const_expr(IR *ir) {
 
   int64_t value = 0;
   if (ir->flag & IRF_UNSIGNED) {
-    uint64_t opr1 = ir->opr1->fixnum;
-    uint64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    uint64_t opr1 = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, true);
+    uint64_t opr2 = ir->opr2 != NULL ? wrap_value(ir->opr2->fixnum, 1 << ir->opr2->vsize, true) : 0;
     CALC_CONST(ir->kind);
   } else {
-    int64_t opr1 = ir->opr1->fixnum;
-    int64_t opr2 = ir->opr2 != NULL ? ir->opr2->fixnum : 0;
+    int64_t opr1 = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, false);
+    int64_t opr2 = ir->opr2 != NULL ? wrap_value(ir->opr2->fixnum, 1 << ir->opr2->vsize, false) : 0;
     CALC_CONST(ir->kind);
   }
 #undef CALC
@@ -448,7 +448,7 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       if (ir->dst->flag & VRF_FLONUM) {
         double value;
         if (!(ir->opr1->flag & VRF_FLONUM)) {
-          int64_t fixnum = ir->opr1->fixnum;
+          int64_t fixnum = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, ir->flag & IRF_UNSIGNED);
           if (ir->dst->vsize == VRegSize4)
             value = (ir->flag & IRF_UNSIGNED) ? (float)(uint64_t)fixnum : (float)fixnum;
           else
-- 
2.43.0


From c8a7e87adf1eb2535723cd639021570b964ee15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 021/162] fix: parallel copies of SSA phis were ordered wrongly
 or never

---
 src/cc/backend/ssa.c | 149 ++++++++++++-------------------------------
 1 file changed, 42 insertions(+), 107 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index d95b630..39bb511 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -287,84 +287,7 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
   return at;
 }
 
-static Vector *extract_cyclic_dependency(int ifb, Vector *phis) {
-  // Check destination register dependency.
-  int n = phis->len;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    assert(ifb < phi->params->len);
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Move i before j: shift intermediate elements.
-    int d = i - j;
-    memmove(&phis->data[j + 1], &phis->data[j], d * sizeof(*phis->data));
-    phis->data[j] = phi;
-    ++i;
-  }
-
-  // Detect cyclic dependency.
-  Vector *cyclics = NULL;
-  for (int i = 0; i < n; ++i) {
-    Phi *phi = phis->data[i];
-    VReg *src = phi->params->data[ifb];
-    // Find that src is one of predecessor destination vreg.
-    int j;
-    for (j = 0; j < i; ++j) {
-      Phi *phi2 = phis->data[j];
-      if (phi2->dst == src)
-        break;
-    }
-    if (j >= i)
-      continue;
-
-    // Destination is dependent on predecessor: Pick up cyclic dependency to `cyclic`.
-    Vector *cyclic = new_vector();
-    for (;;) {
-      Phi *phi2 = phis->data[j];
-      vec_push(cyclic, phi2);
-      phis->data[j] = NULL;
-      if (j >= i)
-        break;
-
-      VReg *src2 = phi2->params->data[ifb];
-      while (++j < i) {
-        Phi *phi3 = phis->data[j];
-        if (phi3->dst == src2)
-          break;
-      }
-    }
-    assert(cyclic->len >= 2);
-
-    if (cyclics == NULL)
-      cyclics = new_vector();
-    vec_push(cyclics, cyclic);
-
-    // Eliminate them from phis.
-    for (int k = 0; k < n; ++k) {
-      if (phis->data[k] == NULL) {
-        phis->data[k] = phis->data[--n];
-        phis->data[n] = NULL;
-      }
-    }
-    for (; n > 0 && phis->data[n - 1] == NULL; --n)
-      ;
-    phis->len = n;  // Truncate (Recovered in later).
-  }
-  return cyclics;
-}
-
 static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
-  Vector *cyclics = extract_cyclic_dependency(ifb, phis);
-
   // Detect insertion point.
   BB *from = bb->from_bbs->data[ifb];
   int pos = from->irs->len;
@@ -375,43 +298,55 @@ static void replace_phis(RegAlloc *ra, BB *bb, int ifb, Vector *phis) {
       --pos;
   }
 
-  // Put non-cyclic phis.
-  for (int iphi = 0; iphi < phis->len; ++iphi) {
-    Phi *phi = phis->data[iphi];
-    VReg *src_vreg = phi->params->data[ifb];
-    IR *mov = new_ir_mov(phi->dst, src_vreg, 0);
-    vec_insert(from->irs, pos++, mov);
+  // Phis take place simultaneously: Put `mov`s in the order that a source is read before overwritten.
+  int n = 0;
+  VReg **dsts = malloc_or_die(sizeof(*dsts) * (phis->len + 1));
+  VReg **srcs = malloc_or_die(sizeof(*srcs) * (phis->len + 1));
+  for (int i = 0; i < phis->len; ++i) {
+    Phi *phi = phis->data[i];
+    assert(ifb < phi->params->len);
+    VReg *src = phi->params->data[ifb];
+    if (src == phi->dst)
+      continue;
+    dsts[n] = phi->dst;
+    srcs[n++] = src;
   }
 
-  if (cyclics != NULL) {
-    Vector **vreg_table = ra->vreg_table;
-    for (int i = 0; i < cyclics->len; ++i) {
-      Vector *cyclic = cyclics->data[i];
-      assert(cyclic->len > 0);
-      Phi *first = cyclic->data[0];
-
-      // Allocate temporary vreg.
-      assert(first->dst->original != first->dst);  // phi's destination must not be an original virtual register.
-      VReg *original = first->dst->original;
-      Vector *vt = vreg_table[original->virt];
-      VReg *tmp = reg_alloc_with_original(ra, original);
-      vec_push(vt, tmp);
-
-      for (int j = 0; j < cyclic->len; ++j) {
-        Phi *phi = cyclic->data[j];
-        VReg *src_vreg = phi->params->data[ifb];
-        IR *mov = new_ir_mov(j == 0 ? tmp : phi->dst, src_vreg, 0);
-        vec_insert(from->irs, pos++, mov);
-        vec_push(phis, phi);  // Restore phi.
+  while (n > 0) {
+    // Find destination which is not a source of others.
+    int i, j;
+    for (i = 0; i < n; ++i) {
+      for (j = 0; j < n; ++j) {
+        if (j != i && srcs[j] == dsts[i])
+          break;
       }
+      if (j >= n)
+        break;
+    }
 
-      IR *mov = new_ir_mov(first->dst, tmp, 0);
+    if (i < n) {
+      IR *mov = new_ir_mov(dsts[i], srcs[i], 0);
       vec_insert(from->irs, pos++, mov);
-
-      free_vector(cyclic);
+      --n;
+      memmove(&dsts[i], &dsts[i + 1], sizeof(*dsts) * (n - i));
+      memmove(&srcs[i], &srcs[i + 1], sizeof(*srcs) * (n - i));
+    } else {
+      // Only cyclic dependencies remain: Evacuate a destination to temporary.
+      VReg *dst = dsts[0];
+      assert(dst->original != dst);  // phi's destination must not be an original virtual register.
+      VReg *original = dst->original;
+      VReg *tmp = reg_alloc_with_original(ra, original);
+      vec_push(ra->vreg_table[original->virt], tmp);
+      IR *mov = new_ir_mov(tmp, dst, 0);
+      vec_insert(from->irs, pos++, mov);
+      for (j = 0; j < n; ++j) {
+        if (srcs[j] == dst)
+          srcs[j] = tmp;
+      }
     }
-    free_vector(cyclics);
   }
+  free(dsts);
+  free(srcs);
 }
 
 //
-- 
2.43.0


From 4602600aa1a3238bf5fe10b5c3853c2c6effc7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:56 +0000
Subject: [PATCH 022/162] fix: SSA edges of floating conditions, table jumps on
 constants and duplicate edges

---
 src/cc/backend/optimize.c | 24 +++++++++++++++++++++---
 src/cc/backend/ssa.c      | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index 9d0bf24..a383ee8 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -488,6 +488,20 @@ static bool constant_folding(RegAlloc *ra, IR *ir) {
       return replace_const_jmp(ir);
     }
     break;
+  case IR_TJMP:
+    if (ir->opr1->flag & VRF_CONST) {
+      uint64_t index = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, true);
+      if (index < ir->tjmp.len) {
+        // Replace to JMP.
+        BB *bb = ir->tjmp.bbs[index];
+        ir->kind = IR_JMP;
+        ir->opr1 = ir->opr2 = NULL;
+        ir->jmp.bb = bb;
+        ir->jmp.cond = COND_ANY;
+        return true;
+      }
+    }
+    break;
 
   default: break;
   }
@@ -660,11 +674,15 @@ static void remove_dead_flow(BBContainer *bbcon) {
       if (bb->phis != NULL)
         vec_clear(bb->phis);
     } else {
-      // Keep the order of predecessors, which corresponds to the one of phi parameters.
+      // Keep the order of predecessors, which corresponds to the one of phi parameters,
+      // once for each of them.
       for (int j = 0; j < froms->len; ++j) {
-        if (vec_contains(bb->from_bbs, froms->data[j]))
-          continue;
+        BB *from = froms->data[j];
         vec_remove_at(froms, j);
+        if (vec_contains(bb->from_bbs, from) && !vec_contains(froms, from)) {
+          vec_insert(froms, j, from);
+          continue;
+        }
         if (bb->phis != NULL) {
           for (int k = 0; k < bb->phis->len; ++k) {
             Phi *phi = bb->phis->data[k];
diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index 39bb511..9e28376 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -223,8 +223,27 @@ static int insert_unconditional_bb(BBContainer *bbcon, int ito, int ifrom, IR* l
     if (last->jmp.bb == to) {
       assert(last->jmp.cond != COND_ANY);
       if (fallthrough) {
-        last->jmp.bb = from->next;
-        last->jmp.cond = invert_cond(last->jmp.cond);
+        if (last->jmp.cond & COND_FLONUM) {
+          // Flonum condition cannot be inverted because of NaN: Skip the inserted BB with another one.
+          BB *next = from->next;
+          assert(next != NULL);
+          BB *skip = new_bb();
+          vec_push(skip->irs, new_ir_jmp(next));
+          vec_push(skip->from_bbs, from);
+          for (int i = 0; i < next->from_bbs->len; ++i) {
+            if (next->from_bbs->data[i] == from)
+              next->from_bbs->data[i] = skip;
+          }
+          vec_insert(bbcon, at++, skip);
+          from->next = skip;
+          skip->next = next;
+          if (ito > ifrom)
+            ++ito;
+          last->jmp.bb = bb;
+        } else {
+          last->jmp.bb = from->next;
+          last->jmp.cond = invert_cond(last->jmp.cond);
+        }
       } else {
         last->jmp.bb = bb;
       }
@@ -271,7 +290,11 @@ static int make_from_bb_unconditional(BBContainer *bbcon, int ibb, int ifb) {
   int pos = from->irs->len;
   if (pos > 0) {
     IR *last = from->irs->data[pos - 1];
-    if ((last->kind == IR_JMP && last->jmp.cond != COND_ANY) || last->kind == IR_TJMP) {
+    if (last->kind == IR_JMP && last->jmp.cond != COND_ANY && last->jmp.bb == from->next) {
+      // Both ways reach to the same BB.
+      assert(last->jmp.bb == bb);
+      vec_pop(from->irs);
+    } else if ((last->kind == IR_JMP && last->jmp.cond != COND_ANY) || last->kind == IR_TJMP) {
       int ifrom;
       for (ifrom = 0; ifrom < bbcon->len; ++ifrom) {
         if (bbcon->data[ifrom] == from)
@@ -367,10 +390,11 @@ void resolve_phis(RegAlloc *ra, BBContainer *bbcon) {
       continue;
 
     for (int ifb = 0; ifb < bb->from_bbs->len; ++ifb) {
+      int count = bbcon->len;
       int at = make_from_bb_unconditional(bbcon, ibb, ifb);
-      if (at <= ibb) {  // Inserted before this BB.
-        ++ibb;
-      }
+      int inserted = bbcon->len - count;
+      if (inserted > 0 && at - (inserted - 1) <= ibb)  // Inserted before this BB.
+        ibb += inserted;
 
       replace_phis(ra, bb, ifb, phis);
     }
-- 
2.43.0


From bebc35e33f12f75726510ff5fd1aa4f13eb70ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:31 +0000
Subject: [PATCH 023/162] fix: array size given by a const variable whose value
 is not constant

---
 src/cc/frontend/parser_type.c | 49 ++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index b5de00d..9b0839a 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -443,36 +443,33 @@ static ssize_t parse_array_size(Expr **pvla) {
       VarInfo *varinfo = scope_find(expr->var.scope, expr->var.name, NULL);
       assert(varinfo != NULL);
       if (expr->type->qualifier & TQ_CONST) {
-        switch (expr->type->kind) {
-        case TY_FLONUM:
-          parse_error(PE_WARNING, expr->token, kConstIntExpected);
-          // Fallthrough
-        case TY_FIXNUM:
-          {
-            Initializer *init = is_global_scope(expr->var.scope) ? varinfo->global.init
-                                                                  : varinfo->local.init;
-            assert(init != NULL);
-            assert(init->kind == IK_SINGLE);
-            switch (init->single->kind) {
-            case EX_FIXNUM:
-              length = init->single->fixnum;
-              break;
-#ifndef __NO_FLONUM
-            case EX_FLONUM:
-              length = init->single->flonum;
-              break;
-#endif
-            // TODO: Compound literal?
-            default:  assert(false); break;
-            }
-          }
-          break;
-        default:
+        if (!is_number(expr->type)) {
           parse_error(PE_NOFATAL, expr->token, kConstIntExpected);
           length = 1;
           break;
         }
-        break;
+
+        if (is_flonum(expr->type))
+          parse_error(PE_WARNING, expr->token, kConstIntExpected);
+
+        Initializer *init = NULL;
+        if (is_global_scope(expr->var.scope))
+          init = varinfo->global.init;
+        else if (!(varinfo->storage & (VS_PARAM | VS_STATIC | VS_EXTERN)))
+          init = varinfo->local.init;
+        if (init != NULL && init->kind == IK_SINGLE) {
+          if (init->single->kind == EX_FIXNUM) {
+            length = init->single->fixnum;
+            break;
+          }
+#ifndef __NO_FLONUM
+          if (init->single->kind == EX_FLONUM) {
+            length = init->single->flonum;
+            break;
+          }
+#endif
+          // TODO: Compound literal?
+        }
       }
     }
     // Fallthrough
-- 
2.43.0


From bcee003581c8c4e29f83b10c704131cb05e1a9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:31 +0000
Subject: [PATCH 024/162] fix: escape sequences: question mark, long
 hexadecimal, wide strings

---
 src/cc/frontend/lexer.c | 85 ++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index e61bcb0..1adc25d 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -173,28 +173,28 @@ static int backslash(int c, bool is_wide, const char **pp) {
   case '1': case '2': case '3': case '4': case '5': case '6': case '7':
     {
       const char *p = *pp + 1;
-      char vv = c - '0';
-      for (int i = 0, n = is_wide ? 11 : 2; i < n; ++i, ++p) {
+      int vv = c - '0';
+      for (int i = 0; i < 2; ++i, ++p) {
         char c2 = *p;
         if (!isoctal(c2))
           break;
         vv = (vv << 3) | (c2 - '0');
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? vv : (char)vv;
     }
   case 'x':
     {
       const char *p = *pp + 1;
-      char vv = 0;
-      for (int i = 0, n = is_wide ? 8 : 2; i < n; ++i, ++p) {
+      unsigned int vv = 0;
+      for (;; ++p) {
         int v = xvalue(*p);
         if (v < 0)
           break;  // TODO: Error
         vv = (vv << 4) | v;
       }
       *pp = p - 1;
-      return vv;
+      return is_wide ? (int)vv : (char)vv;
     }
   case 'a':  return '\a';
   case 'b':  return '\b';
@@ -207,7 +207,7 @@ static int backslash(int c, bool is_wide, const char **pp) {
   default:
     lex_error(*pp, "Illegal escape");
     // Fallthrough
-  case '\'': case '"': case '\\':
+  case '\'': case '"': case '\\': case '?':
     return c;
   }
 }
@@ -566,38 +566,16 @@ static Token *read_char(const char **pp) {
   return tok;
 }
 
-#ifndef __NO_WCHAR
-static void *convert_str_to_wstr(const char *src, size_t *plen) {
-  // Count characters.
-  size_t len = 0;  // Include '\0'.
-  for (const char *p = src;; ) {
-    int c;
-    p = read_utf8_char(p, true, &c);
-    ++len;
-    if (c == '\0')
-      break;
-  }
-
-  wchar_t *wstr = malloc_or_die(len * sizeof(*wstr));
-  wchar_t *q = wstr;
-  for (const char *p = src;; ) {
-    int c;
-    p = read_utf8_char(p, true, &c);
-    *q++ = c;
-    if (c == '\0')
-      break;
-  }
-  *plen = len;
-  return wstr;
-}
-#endif
-
 static Token *read_string(const char **pp) {
   const int ADD = 16;
   const char *p = *pp;
   const char *begin, *end;
   size_t capa = 16, len = 0;
   char *str = malloc_or_die(capa * sizeof(*str));
+#ifndef __NO_WCHAR
+  // Value of escape sequence, or negative for a character written as is.
+  int64_t *escapes = malloc_or_die(capa * sizeof(*escapes));
+#endif
   bool is_wide = false;
   for (;;) {
     begin = p++;  // Skip first '"'
@@ -616,16 +594,26 @@ static Token *read_string(const char **pp) {
       if (len + 1 >= capa) {
         capa += ADD;
         str = realloc_or_die(str, capa * sizeof(*str));
+#ifndef __NO_WCHAR
+        escapes = realloc_or_die(escapes, capa * sizeof(*escapes));
+#endif
       }
 
+      int64_t escape = -1;
       if (c == '\\') {
         c = *(unsigned char*)p;
         if (c == '\0')
           lex_error(p, "String not closed");
-        c = backslash(c, is_wide, &p);
+        c = backslash(c, true, &p);
+        escape = (unsigned int)c;
         ++p;
       }
       assert(len < capa);
+#ifndef __NO_WCHAR
+      escapes[len] = escape;
+#else
+      UNUSED(escape);
+#endif
       str[len++] = c;
     }
     end = p;
@@ -647,9 +635,36 @@ static Token *read_string(const char **pp) {
   enum StrKind kind = STR_CHAR;
 #ifndef __NO_WCHAR
   if (is_wide) {
-    str = convert_str_to_wstr(str, &len);
+    wchar_t *wstr = malloc_or_die(len * sizeof(*wstr));
+    size_t wlen = 0;
+    for (size_t i = 0; i < len - 1; ) {
+      int c;
+      if (escapes[i] >= 0) {
+        c = (int)escapes[i++];
+      } else {
+        const char *q = &str[i];
+        c = *q++;
+        int ucc = isutf8first((unsigned char)c);
+        if (ucc > 0) {
+          c &= (1 << (8 - ucc)) - 1;
+          for (int j = 1; j < ucc; ++j, ++q) {
+            int c2 = *(unsigned char*)q;
+            if (!isutf8follow(c2) || escapes[q - str] >= 0)
+              lex_error(begin, "Illegal byte sequence");
+            c = (c << 6) | (c2 & 0x3f);
+          }
+        }
+        i = q - str;
+      }
+      wstr[wlen++] = c;
+    }
+    wstr[wlen++] = '\0';
+    free(str);
+    str = (char*)wstr;
+    len = wlen;
     kind = STR_WIDE;
   }
+  free(escapes);
 #endif
   Token *tok = alloc_token(TK_STR, lexer.line, begin, end);
   tok->str.buf = str;
-- 
2.43.0


From cf2b13440ef6ec823cade19aa2ebbb0380f4751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:01 +0000
Subject: [PATCH 025/162] fix: address of a variable length array was the
 address of its pointer

---
 src/cc/frontend/fe_misc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 09daa8d..3c925ec 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -762,6 +762,16 @@ Expr *make_refer(const Token *tok, Expr *expr) {
     if (varinfo == NULL) {
       // Variable undeclared error must be raised already, so ignore here.
     } else {
+#ifndef __NO_VLA
+      Type *type = varinfo->type;
+      if (type->kind == TY_PTR && type->pa.vla != NULL && !(varinfo->storage & VS_PARAM)) {
+        // VLA is held as a pointer to its storage: the pointer is the address of the array.
+        Type *arr = arrayof(type->pa.ptrof, LEN_VLA);
+        arr->pa.vla = type->pa.vla;
+        arr->pa.size_var = type->pa.size_var;
+        return make_cast(ptrof(arr), tok, expr, true);
+      }
+#endif
       varinfo->storage |= VS_REF_TAKEN;
       if (varinfo->storage & VS_STATIC && !is_global_scope(e->var.scope)) {
         VarInfo *gvarinfo = varinfo->static_.svar;
-- 
2.43.0


From 9af4b399de4ff356ade841875877d7830b14f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 026/162] fix: string initializers without room for the nul, or
 partly overridden

---
 src/cc/frontend/initializer.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index c2260f3..cc0c6bd 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -153,7 +153,8 @@ static Stmt *init_char_array_by_string(Expr *dst, Initializer *src, const Token
   Expr *var = new_expr_variable(varinfo->ident->ident, strtype, NULL, curscope);
   assert(str->type->kind == TY_ARRAY);
   mark_var_used(var);
-  return build_memcpy(dst, var, len * type_size(str->type->pa.ptrof));
+  // The terminating nul is dropped when it does not fit.
+  return build_memcpy(dst, var, (len < dstlen ? len : dstlen) * type_size(str->type->pa.ptrof));
 }
 
 typedef struct {
@@ -381,6 +382,28 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
   }
 }
 
+// Expand a string literal which initializes (a part of) an array into its elements.
+static Initializer *expand_string_initializer(Type *type, Initializer *init) {
+  Expr *str = init->single;
+  Type *elem_type = type->pa.ptrof;
+  size_t elem_size = type_size(elem_type);
+  Initializer *expanded = reserve_init_for_multi(type, init->token);
+  Vector *multi = expanded->multi;
+  for (ssize_t i = 0; i < (ssize_t)str->str.len; ++i) {
+    if (i >= multi->len) {
+      if (type->pa.length >= 0)
+        break;
+      vec_push(multi, NULL);
+    }
+    const char *p = &str->str.buf[i * elem_size];
+    Fixnum value = elem_size == 1 ? *p : *(const int*)p;
+    Initializer *elem = new_initializer(IK_SINGLE, init->token);
+    elem->single = new_expr_fixlit(elem_type, init->token, wrap_value(value, elem_size, elem_type->fixnum.is_unsigned));
+    multi->data[i] = elem;
+  }
+  return expanded;
+}
+
 static void store_to_current_position(InitFlattener *flattener, Initializer *init) {
   Vector *indices = flattener->indices;
   Type *type = flattener->root_type;
@@ -414,7 +437,11 @@ static void store_to_current_position(InitFlattener *flattener, Initializer *ini
     }
     if (elem_init->kind != IK_MULTI) {
       parse_error(PE_WARNING, init->token, "Initializer overlapped");
-      elem_init = reserve_init_for_multi(elem_type, init->token);
+      if (elem_type->kind == TY_ARRAY && elem_init->kind == IK_SINGLE &&
+          elem_init->single->kind == EX_STR)
+        elem_init = expand_string_initializer(elem_type, elem_init);
+      else
+        elem_init = reserve_init_for_multi(elem_type, init->token);
       target->multi->data[index] = elem_init;
     }
     type = elem_type;
-- 
2.43.0


From 2fba04bf972890ae2cf9b988d74048cb1b0d70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:33 +0000
Subject: [PATCH 027/162] fix: overriding a union initializer through another
 member

---
 src/cc/frontend/initializer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index cc0c6bd..e6a6d41 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -420,6 +420,14 @@ static void store_to_current_position(InitFlattener *flattener, Initializer *ini
       while (index >= multi->len)
         vec_push(multi, NULL);
     }
+    if (type->kind == TY_STRUCT && type->struct_.info->is_union) {
+      // The last initialized member is effective.
+      Vector *multi = target->multi;
+      for (int i = 0; i < multi->len; ++i) {
+        if (i != index)
+          multi->data[i] = NULL;
+      }
+    }
     if (d >= depth - 1) {
       Initializer **pp = (Initializer**)&target->multi->data[index];
       if (*pp != NULL)
-- 
2.43.0


From ac0b848e01ebe9f28e777db5e13b68b0fd4c3df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:07 +0000
Subject: [PATCH 028/162] fix: a declaration after the definition dropped or
 rejected its initializer

---
 src/cc/frontend/parser.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index dd928e3..3a9f2e1 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -950,21 +950,31 @@ static void parse_global_var_decl(Type *rawtype, int storage, Type *type, Token
         }
         // Check LBRACE?
       } else {
+        const Token *assign = match(TK_ASSIGN);
         VarInfo *varinfo = NULL;
         if (ident != NULL) {
-          varinfo = find_var_from_scope(curscope, ident, type, storage);
+          VarInfo *prev = scope_find(curscope, ident->ident, NULL);
+          const bool redecl = assign == NULL && prev != NULL && prev->type->kind != TY_FUNC &&
+              !(prev->storage & VS_ENUM_MEMBER) && prev->global.init != NULL;
+          // Declaration without initializer after the definition has no effect.
+          varinfo = find_var_from_scope(curscope, ident, type, redecl ? storage | VS_EXTERN : storage);
           if (varinfo == NULL)
             varinfo = add_var_to_scope(global_scope, ident, type, storage);
+          else if (type->kind == TY_ARRAY && type->pa.length < 0 && assign == NULL &&
+                   varinfo->type->kind == TY_ARRAY && varinfo->type->pa.length >= 0)
+            type = varinfo->type;  // Keep the completed type.
         }
 
         Initializer *init = NULL;
-        if (match(TK_ASSIGN) != NULL) {
+        if (assign != NULL) {
           curvarinfo = varinfo;
           init = parse_initializer();
         }
 
         if (ident != NULL) {
-          varinfo->global.init = check_vardecl(&type, ident, storage, init);
+          init = check_vardecl(&type, ident, storage, init);
+          if (assign != NULL)
+            varinfo->global.init = init;
           varinfo->type = type;  // type might be changed.
         }
         curvarinfo = NULL;
-- 
2.43.0


From e0068490ea79bd1bf181693a223680a4b82a78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:07 +0000
Subject: [PATCH 029/162] fix: static initializers: unsigned to floating,
 unnamed and union bit-fields, flexible strings

---
 src/cc/frontend/cc_misc.c     |  9 ++++++---
 src/cc/frontend/initializer.c | 10 ++++------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index a94bb8a..9effc84 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -70,12 +70,13 @@ static void eval_initial_value(Expr *expr, Expr **pvar, int64_t *poffset) {
 
 #ifndef __NO_BITFIELD
 static Fixnum calc_bitfield_initial_value(const StructInfo *sinfo, const Initializer *init, int *pi) {
-  assert(!sinfo->is_union);  // TODO
   assert(init == NULL || (init->kind == IK_MULTI && init->multi->len == sinfo->member_count));
   Fixnum x = 0;
   int i = *pi, n = sinfo->member_count;
   for (bool top = true; i < n; ++i, top = false) {
     const MemberInfo *member = &sinfo->members[i];
+    if (!top && sinfo->is_union)
+      break;
     if (member->bitfield.width <= 0 || (!top && member->bitfield.position == 0))
       break;
 
@@ -201,7 +202,8 @@ void construct_initial_value(const Type *type, const Initializer *init,
       Expr *e = strip_cast(init->single);
       if (e->kind == EX_STR && is_char_type(type->pa.ptrof, e->str.kind)) {
         assert(vtable->emit_string != NULL);
-        (*vtable->emit_string)(ud, e, type_size(type));
+        // Whole string is put to flexible array member.
+        (*vtable->emit_string)(ud, e, type_size(type->pa.length >= 0 ? type : e->type));
         break;
       }
     }
@@ -216,7 +218,8 @@ void construct_initial_value(const Type *type, const Initializer *init,
       for (int i = 0, n = sinfo->member_count; i < n; ++i) {
         const MemberInfo *member = &sinfo->members[i];
 #ifndef __NO_BITFIELD
-        if (member->bitfield.active) {
+        if (member->bitfield.active &&
+            (!sinfo->is_union || (init != NULL && init->multi->data[i] != NULL))) {
           i = construct_initial_value_bitfield(sinfo, init, i, &offset, vtable, ud);
           ++count;
           continue;
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index e6a6d41..a0114dd 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -255,7 +255,7 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
             }
             MemberInfo *member = &sinfo->members[last_index];
 #ifndef __NO_BITFIELD
-            if (member->bitfield.active && member->bitfield.width == 0) {  // Initializer not assigned to zero width bitfield.
+            if (member->bitfield.active && member->name == NULL) {  // Initializer not assigned to unnamed bitfield.
               ++last_index;
               indices->data[depth - 1] = INT2VOIDP(last_index);
               continue;
@@ -670,10 +670,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     if (init->kind == IK_SINGLE) {
       switch (init->single->kind) {
       case EX_FIXNUM:
-        {
-          Fixnum fixnum = init->single->fixnum;
-          init->single = new_expr_flolit(type, init->single->token, fixnum);
-        }
+        init->single = make_cast(type, init->single->token, init->single, false);
         // Fallthrough
       case EX_FLONUM:
         return init;
@@ -718,7 +715,8 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
       {
         Expr *e = strip_cast(init->single);
         if (e->kind == EX_STR && is_char_type(type->pa.ptrof, e->str.kind)) {
-          assert(type->pa.length > 0);
+          if (type->pa.length < 0)  // Flexible array member: Take whole string.
+            break;
           if ((ssize_t)e->str.len - 1 > type->pa.length) {  // Allow non-nul string.
             parse_error(PE_NOFATAL, init->single->token, "Array size shorter than initializer");
           }
-- 
2.43.0


From 4bb458caa7aeefecb0ade0d1f0523bc8b7a9cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:02 +0000
Subject: [PATCH 030/162] fix: brace-elided initializers and unnamed bit-fields
 of nested members and unions

---
 src/cc/frontend/initializer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index a0114dd..88ebcc4 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -257,7 +257,9 @@ static Initializer *find_next_indices(InitFlattener *flattener, Initializer *ele
 #ifndef __NO_BITFIELD
             if (member->bitfield.active && member->name == NULL) {  // Initializer not assigned to unnamed bitfield.
               ++last_index;
-              indices->data[depth - 1] = INT2VOIDP(last_index);
+              indices->data[indices->len - 1] = INT2VOIDP(last_index);
+              if (sinfo->is_union && member_count < sinfo->member_count)
+                ++member_count;
               continue;
             }
 #endif
-- 
2.43.0


From 6f2318d2a8e338fe98e2fce48ec4dac622a608ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:31 +0000
Subject: [PATCH 031/162] fix: va_start skipped struct parameters and the
 struct return pointer wrongly

---
 src/cc/builtin.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 8be2b3e..5c59b99 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -226,16 +226,18 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     return NULL;
   }
 
-  int gn = 0, fn = 0;
+  // A struct is returned through the pointer passed in the first register.
+  int gn = is_stack_param(curfunc->type->func.ret) ? 1 : 0;
+  int fn = 0;
+  int stack_offset = 0;
   for (int i = 0; i < params->len; ++i) {
     VarInfo *info = params->data[i];
     const Type *t = info->type;
-    if (t->kind != TY_STRUCT) {
-      if (is_flonum(t))
-        ++fn;
-      else
-        ++gn;
-    }
+    bool stack = is_stack_param(t);
+    if (!stack)
+      stack = is_flonum(t) ? fn++ >= MAX_FREG_ARGS : gn++ >= MAX_REG_ARGS;
+    if (stack)
+      stack_offset = ALIGN(stack_offset, align_size(t)) + ALIGN(type_size(t), TARGET_POINTER_SIZE);
   }
 
   // ap->gp_offset = gn * TARGET_POINTER_SIZE
@@ -261,11 +263,8 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     FuncBackend *fnbe = curfunc->extra;
     FrameInfo *fi = &fnbe->vaarg_frame_info;
     VReg *p = new_ir_bofs(fi)->dst;
-    int gs = MAX(gn - MAX_REG_ARGS, 0), fs = MAX(fn - MAX_FREG_ARGS, 0);
-    if (gs > 0 || fs > 0) {
-      p = new_ir_bop(IR_ADD, p, new_const_vreg((gs + fs) * TARGET_POINTER_SIZE, vsize), vsize,
-                     IRF_UNSIGNED);
-    }
+    if (stack_offset > 0)
+      p = new_ir_bop(IR_ADD, p, new_const_vreg(stack_offset, vsize), vsize, IRF_UNSIGNED);
     new_ir_store(overflow_arg_area, p, 0);
   }
 
-- 
2.43.0


From 6763037ac19f79a24e4a3cdee036f314c4b4d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 032/162] fix: a conversion of a bit-field to its declared type
 was dropped

(unsigned)s.m or (1 ? s.m : u) with 'unsigned m : 25' was afterwards promoted
to int.
---
 src/cc/frontend/fe_misc.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 3c925ec..4df11f1 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -343,9 +343,27 @@ bool check_cast(const Type *dst, const Type *src, bool zero, bool is_explicit, c
   return true;
 }
 
+// An unsigned bit-field narrower than int is promoted to int.
+static bool is_promoted_bitfield(const Expr *expr) {
+#ifndef __NO_BITFIELD
+  if (expr->kind == EX_MEMBER) {
+    const MemberInfo *minfo = expr->member.info;
+    const Type *type = minfo->type;
+    return minfo->bitfield.active && type->kind == TY_FIXNUM && type->fixnum.kind == FX_INT &&
+        type->fixnum.is_unsigned &&
+        minfo->bitfield.width < (int)type_size(&tyInt) * TARGET_CHAR_BIT;
+  }
+#else
+  UNUSED(expr);
+#endif
+  return false;
+}
+
 Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
   check_cast(type, sub->type, is_zero(sub), is_explicit, token);
   if (same_type(type, sub->type)) {
+    if (is_promoted_bitfield(sub))  // Converted value is no longer a subject of the promotion.
+      return new_expr_cast(type, token, sub);
     sub->type = type;
     return sub;
   }
@@ -451,22 +469,8 @@ const MemberInfo *search_from_anonymous(const Type *type, const Name *name, cons
   return NULL;
 }
 
-#ifndef __NO_BITFIELD
-// An unsigned bit-field narrower than int is promoted to int.
-static bool is_promoted_bitfield(const MemberInfo *minfo) {
-  const Type *type = minfo->type;
-  return minfo->bitfield.active && type->kind == TY_FIXNUM && type->fixnum.kind == FX_INT &&
-      type->fixnum.is_unsigned &&
-      minfo->bitfield.width < (int)type_size(&tyInt) * TARGET_CHAR_BIT;
-}
-#endif
-
 static Expr *promote_bitfield(Expr *expr) {
-#ifndef __NO_BITFIELD
-  if (expr->kind == EX_MEMBER && is_promoted_bitfield(expr->member.info))
-    return make_cast(&tyInt, expr->token, expr, false);
-#endif
-  return expr;
+  return is_promoted_bitfield(expr) ? make_cast(&tyInt, expr->token, expr, false) : expr;
 }
 
 // Order of integer types in usual arithmetic conversions.
@@ -1646,7 +1650,7 @@ static Expr *transform_assign_with_bitfield(const Token *tok, Expr *lhs, Expr *r
   Expr *src_assign = new_expr_bop(EX_ASSIGN, type, tok, src, dst);
 
   Expr *tmp = extract_bitfield_value(src, minfo);
-  if (is_promoted_bitfield(minfo))
+  if (is_promoted_bitfield(lhs))
     tmp = make_cast(&tyInt, tok, tmp, false);
   tmp = make_cast(minfo->type, tok, calc_assign_with(tok, tmp, rhs), false);
   Expr *store = assign_bitfield_member(tok, dst, src, tmp, minfo);
-- 
2.43.0


From 7ad01506f076324c52ddb4a6ca820e32245b7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:22 +0000
Subject: [PATCH 033/162] fix: #if computed unsigned operands as signed

Expressions in directives are intmax_t or uintmax_t; comparison, division,
shift etc. ignored the latter (and INTMAX_MIN / -1 trapped).
---
 src/cpp/pp_parser.c    | 82 ++++++++++++++++++++++++------------------
 src/cpp/pp_parser.h    |  7 +++-
 src/cpp/preprocessor.c |  4 +--
 3 files changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index a5651ee..1575312 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -140,6 +140,11 @@ Token *pp_consume(enum TokenKind kind, const char *error) {
   return tok;
 }
 
+static PpResult pp_result(int64_t value, bool is_unsigned) {
+  PpResult result = {.value = value, .is_unsigned = is_unsigned};
+  return result;
+}
+
 static PpResult parse_defined(void) {
   bool lpar = pp_match(TK_LPAR) != NULL;
 
@@ -153,7 +158,7 @@ static PpResult parse_defined(void) {
   if (lpar)
     pp_consume(TK_RPAR, "No close paren");
 
-  return macro_get(alloc_name(start, end, false)) != NULL;
+  return pp_result(macro_get(alloc_name(start, end, false)) != NULL, false);
 }
 
 static Token *match2(enum TokenKind kind) {
@@ -297,20 +302,24 @@ static PpResult parse_precedence(Precedence precedence) {
 static PpResult literal(Token *tok) {
   switch (tok->kind) {
   case TK_INTLIT:
-    return tok->fixnum.value;
+    {
+      Fixnum value = tok->fixnum.value;
+      int flag = tok->fixnum.flag;
+      return pp_result(value, !(flag & TKF_CHAR) && ((flag & TKF_UNSIGNED) || value < 0));
+    }
   // case TK_STR:     return string_expr(tok, tok->str.buf, tok->str.len, tok->str.kind);
 #ifndef __NO_FLONUM
   case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-    return tok->flonum;
+    return pp_result(tok->flonum, false);
 #endif
-  default: assert(false); return 0;  // Unreachable.
+  default: assert(false); return pp_result(0, false);  // Unreachable.
   }
 }
 
 static PpResult variable(Token *ident) {
   if (equal_name(ident->ident, alloc_name("defined", NULL, false)))
     return parse_defined();
-  return 0;  // Undefined identifier is 0.
+  return pp_result(0, false);  // Undefined identifier is 0.
 }
 
 static PpResult unary(Token *tok) {
@@ -319,10 +328,10 @@ static PpResult unary(Token *tok) {
   enum TokenKind kind = tok->kind;
   switch (kind) {
   case TK_ADD: return expr;
-  case TK_SUB: return -expr;
-  case TK_NOT: return expr ? 0 : 1;
-  case TK_TILDA: return ~expr;
-  default: assert(false); return 0;  // Unreachable.
+  case TK_SUB: return pp_result(-(uint64_t)expr.value, expr.is_unsigned);
+  case TK_NOT: return pp_result(expr.value == 0, false);
+  case TK_TILDA: return pp_result(~expr.value, expr.is_unsigned);
+  default: assert(false); return expr;  // Unreachable.
   }
 }
 
@@ -331,41 +340,44 @@ static PpResult binary(PpResult lhs, Token *tok) {
   assert(rule != NULL);
   PpResult rhs = parse_precedence(rule->precedence + 1);
 
+  // Calculate in uintmax_t, if either operand has it.
+  const bool uns = lhs.is_unsigned || rhs.is_unsigned;
+  const int64_t l = lhs.value, r = rhs.value;
+  const uint64_t ul = l, ur = r;
+
   enum TokenKind kind = tok->kind;
   switch (kind) {
-  case TK_ADD:  return lhs + rhs;
-  case TK_SUB:  return lhs - rhs;
-  case TK_MUL:  return lhs * rhs;
+  case TK_ADD:  return pp_result(ul + ur, uns);
+  case TK_SUB:  return pp_result(ul - ur, uns);
+  case TK_MUL:  return pp_result(ul * ur, uns);
   case TK_DIV:
-    if (rhs != 0) {
-      return lhs / rhs;
-    } else {
+    if (r == 0) {
       // pp_parse_error(tok, "Division by zero");
-      return lhs;
+      return pp_result(l, uns);
     }
+    return pp_result(uns ? (int64_t)(ul / ur) : r == -1 ? (int64_t)-ul : l / r, uns);
   case TK_MOD:
-    if (rhs != 0) {
-      return lhs % rhs;
-    } else {
+    if (r == 0) {
       // pp_parse_error(tok, "Modulo by zero");
-      return lhs;
+      return pp_result(l, uns);
     }
-  case TK_LSHIFT:  return lhs << rhs;
-  case TK_RSHIFT:  return lhs >> rhs;
-  case TK_AND:  return lhs & rhs;
-  case TK_OR:   return lhs | rhs;
-  case TK_HAT:  return lhs ^ rhs;
-  case TK_EQ:  return lhs == rhs;
-  case TK_NE:  return lhs != rhs;
-  case TK_LT:  return lhs < rhs;
-  case TK_LE:  return lhs <= rhs;
-  case TK_GE:  return lhs >= rhs;
-  case TK_GT:  return lhs > rhs;
-  case TK_LOGAND:  return lhs && rhs;
-  case TK_LOGIOR:  return lhs || rhs;
+    return pp_result(uns ? (int64_t)(ul % ur) : r == -1 ? 0 : l % r, uns);
+  case TK_LSHIFT:  return pp_result(ul << (r & 63), lhs.is_unsigned);
+  case TK_RSHIFT:  return pp_result(lhs.is_unsigned ? (int64_t)(ul >> (r & 63)) : l >> (r & 63), lhs.is_unsigned);
+  case TK_AND:  return pp_result(l & r, uns);
+  case TK_OR:   return pp_result(l | r, uns);
+  case TK_HAT:  return pp_result(l ^ r, uns);
+  case TK_EQ:  return pp_result(l == r, false);
+  case TK_NE:  return pp_result(l != r, false);
+  case TK_LT:  return pp_result(uns ? ul < ur : l < r, false);
+  case TK_LE:  return pp_result(uns ? ul <= ur : l <= r, false);
+  case TK_GE:  return pp_result(uns ? ul >= ur : l >= r, false);
+  case TK_GT:  return pp_result(uns ? ul > ur : l > r, false);
+  case TK_LOGAND:  return pp_result(l && r, false);
+  case TK_LOGIOR:  return pp_result(l || r, false);
   case TK_COMMA:  return rhs;
 
-  default: assert(false); return 0;  // Unreachable.
+  default: assert(false); return rhs;  // Unreachable.
   }
 }
 
@@ -377,7 +389,7 @@ static PpResult ternary(PpResult expr, Token *tok) {
   pp_consume(TK_COLON, "`:' expected");
   PpResult fval = parse_precedence(rule->precedence);
 
-  return expr ? tval : fval;
+  return pp_result(expr.value != 0 ? tval.value : fval.value, tval.is_unsigned || fval.is_unsigned);
 }
 
 static PpResult grouping(Token *tok) {
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 580020a..0d0c80b 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <stdbool.h>
 #include <stdint.h>  // int64_t
 #include <stdio.h>  // FILE
 
@@ -8,7 +9,11 @@
 typedef struct Macro Macro;
 typedef struct Vector Vector;
 
-typedef int64_t PpResult;
+// Value of an expression in a directive: intmax_t or uintmax_t.
+typedef struct {
+  int64_t value;
+  bool is_unsigned;
+} PpResult;
 
 typedef struct {
   const char *filename;
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 174ec2e..d1975e4 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -410,7 +410,7 @@ static void handle_line_directive(const char **pp, Stream *stream) {
     set_pp_stream(bak_stream);
     fclose(memfp);
   }
-  stream->lineno = num;
+  stream->lineno = num.value;
 
   const char *next = get_lex_p();
   if (next != NULL) {
@@ -656,7 +656,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     fclose(memfp);
     *pp = get_lex_p();
   }
-  return result != 0;
+  return result.value != 0;
 }
 
 static intptr_t cond_value(bool enable, enum Satisfy satisfy) {
-- 
2.43.0


From bde303c9f323be1866d30d9f8b6c3e2b01daee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:22 +0000
Subject: [PATCH 034/162] fix: ?: was not accepted in bit-field widths, case
 labels and enumerators

---
 src/cc/frontend/parser_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 4cc0840..bd6a946 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -826,7 +826,7 @@ Expr *parse_assign(void) {
 
 Expr *parse_const_fixnum(void) {
   parsing_stmt = false;
-  Expr *expr = parse_precedence(PREC_LOGIOR);
+  Expr *expr = parse_precedence(PREC_TERNARY);
   if (expr == NULL)
     return NULL;  // Error is already reported.
   if (is_const(expr) && is_fixnum(expr->type->kind))
-- 
2.43.0


From 0d31eccabef805491b63cf83763e7d5a0084d3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:13 +0000
Subject: [PATCH 035/162] fix: printf mishandled sign, flags, precision and
 large or small floating values

Padding was put between the sign and the digits, precision was taken as a
character limit for integers, '-' was ignored for %x, width for %c, flags
were accepted in one order only, negative '*' were not handled, '%.0f' gave
six digits, and %f/%g were wrong for large values and many roundings.
Use the exact decimal representation for floating values.
---
 libsrc/stdio/vfprintf.c | 362 ++++++++++++++++++++++------------------
 1 file changed, 203 insertions(+), 159 deletions(-)

diff --git a/libsrc/stdio/vfprintf.c b/libsrc/stdio/vfprintf.c
index 177faa9..b5aebf1 100644
--- a/libsrc/stdio/vfprintf.c
+++ b/libsrc/stdio/vfprintf.c
@@ -12,19 +12,11 @@
 
 #define PRINTF_BUFSIZ  (32)
 #define MIN(a, b)  ((a) < (b) ? (a) : (b))
-#define SIGN(p)  ((p) ? '+' : '-')
 #define STATIC_ASSERT(cond)  char __dummy[(cond) ? 0 : -1]; (void)__dummy
 
 static const char kHexDigits[] = "0123456789abcdef";
 static const char kUpperHexDigits[] = "0123456789ABCDEF";
 
-static int putnstr(FILE *fp, int n, const char *s) {
-  int i;
-  for (i = 0; i < n && s[i] != '\0'; ++i)
-    ;
-  return fwrite(s, 1, i, fp);
-}
-
 static void putpadding(FILE *fp, int m, char padding) {
   if (m <= 0)
     return;
@@ -38,25 +30,6 @@ static void putpadding(FILE *fp, int m, char padding) {
   } while (m > 0);
 }
 
-static int snprintullong(FILE *fp, unsigned long long x, int base, const char *digits, int order,
-                         int padding) {
-  char buf[32];
-  STATIC_ASSERT(sizeof(buf) >= (sizeof(long long) * CHAR_BIT + 2) / 3);
-  unsigned int i = 0, o = 0;
-
-  do {
-    buf[sizeof(buf) - (++i)] = digits[x % base];
-    x /= base;
-  } while (x != 0);
-
-  if (i < (unsigned int)order) {
-    unsigned int d = (unsigned int)order - i;
-    putpadding(fp, d, padding);
-    o += d;
-  }
-  return o + fwrite(&buf[sizeof(buf) - i], 1, i, fp);
-}
-
 static char *snprintullong2(char *bufend, unsigned long long x, int base, const char *digits) {
   char *p = bufend;
   *(--p) = '\0';
@@ -67,138 +40,209 @@ static char *snprintullong2(char *bufend, unsigned long long x, int base, const
   return p;
 }
 
-static int snprintstr(FILE *fp, const char *s, int order, int suborder, bool leftalign,
-                      char padding) {
-  size_t len = strlen(s);
-  if (suborder > 0)
-    len = MIN(len, (unsigned int)suborder);
-  if (order <= 0 || len >= (unsigned int)order) {
-    putnstr(fp, len, s);
-    return len;
-  } else {
-    if (leftalign) {
-      putnstr(fp, len, s);
-      putpadding(fp, order - len, padding);
-    } else {
-      putpadding(fp, order - len, padding);
-      putnstr(fp, len, s);
-    }
-    return order;
-  }
+static int putfield(FILE *fp, const char *prefix, int zeros, const char *s, int len, int order,
+                    bool leftalign, char padding) {
+  // Output: padding, prefix, zeros, string, padding
+  int plen = strlen(prefix);
+  int total = plen + zeros + len;
+  int pad = order > total ? order - total : 0;
+  if (!leftalign && padding != '0')
+    putpadding(fp, pad, ' ');
+  fwrite(prefix, 1, plen, fp);
+  if (!leftalign && padding == '0')
+    putpadding(fp, pad, '0');
+  putpadding(fp, zeros, '0');
+  fwrite(s, 1, len, fp);
+  if (leftalign)
+    putpadding(fp, pad, ' ');
+  return total + pad;
 }
 
-static int sprintsign(FILE *fp, bool negative, bool force, int *porder) {
-  int o = 0;
-  if (negative) {
-    _fputc('-', fp);
-    ++o;
-  } else if (force) {
-    _fputc('+', fp);
-    ++o;
+static int putinteger(FILE *fp, const char *prefix, const char *digits, int order, int suborder,
+                      bool leftalign, char padding) {
+  int len = strlen(digits), zeros = 0;
+  if (suborder >= 0) {
+    if (suborder == 0 && *digits == '0')
+      len = 0;
+    zeros = suborder > len ? suborder - len : 0;
+    padding = ' ';
   }
-  if (*porder > 1 && o > 0)
-    *porder -= o;
-  return o;
+  return putfield(fp, prefix, zeros, digits, len, order, leftalign, padding);
 }
 
 #ifndef __NO_FLONUM
 #include "math.h"  // isfinite, signbit
 
-static long double pow10(int order) {
-  long double a = 1, x = 10;
-  for (; order > 0; order >>= 1) {
-    if ((order & 1) != 0)
-      a *= x;
-    x *= x;
+// Decimal representation of a double value: DEC_INT * 9 digits of integer part, and the fraction.
+#define DEC_BASE   (1000000000)
+#define DEC_INT    (35)  // DBL_MAX < 10^(35 * 9)
+#define DEC_TOTAL  (DEC_INT + 120)  // The smallest value has 1074 digits in the fraction.
+#define DEC_POINT  (DEC_INT * 9)
+#define DEC_DIGITS (DEC_TOTAL * 9)
+
+static void todecimal(double x, char *digits) {
+  uint32_t d[DEC_TOTAL];
+  memset(d, 0, sizeof(d));
+  uint64_t bits;
+  memcpy(&bits, &x, sizeof(bits));
+  uint64_t m = bits & (((uint64_t)1 << 52) - 1);
+  int e = (int)(bits >> 52) & 0x7ff;
+  if (e != 0)
+    m |= (uint64_t)1 << 52;
+  else
+    e = 1;  // Subnormal.
+  e -= 1023 + 52;
+  d[DEC_INT - 1] = m % DEC_BASE;
+  d[DEC_INT - 2] = m / DEC_BASE;
+  while (e > 0) {
+    int sh = MIN(e, 29);
+    uint64_t carry = 0;
+    for (int i = DEC_INT; --i >= 0; ) {
+      carry += (uint64_t)d[i] << sh;
+      d[i] = carry % DEC_BASE;
+      carry /= DEC_BASE;
+    }
+    e -= sh;
+  }
+  while (e < 0) {
+    int sh = MIN(-e, 29);
+    uint64_t rem = 0;
+    for (int i = 0; i < DEC_TOTAL; ++i) {
+      rem = rem * DEC_BASE + d[i];
+      d[i] = rem >> sh;
+      rem &= (1 << sh) - 1;
+    }
+    e += sh;
+  }
+
+  for (int i = 0; i < DEC_TOTAL; ++i) {
+    uint32_t u = d[i];
+    for (int j = 9; --j >= 0; u /= 10)
+      digits[i * 9 + j] = '0' + u % 10;
+  }
+}
+
+// Round to nearest, ties to even.
+static void rounddecimal(char *digits, int pos) {
+  if (pos >= DEC_DIGITS)
+    return;
+  int d = digits[pos] - '0';
+  if (d == 5 && (digits[pos - 1] & 1) == 0) {
+    int i;
+    for (i = pos + 1; i < DEC_DIGITS && digits[i] == '0'; ++i)
+      ;
+    if (i >= DEC_DIGITS)
+      d = 0;
+  }
+  memset(&digits[pos], '0', DEC_DIGITS - pos);
+  if (d >= 5) {
+    while (digits[--pos] == '9')
+      digits[pos] = '0';
+    digits[pos] += 1;
   }
-  return a;
 }
 
-static int printnonfinite(FILE *fp, long double x, int order, int suborder, bool sign,
-                          bool leftalign) {
-  int o = sprintsign(fp, signbit(x), sign, &order);
-  return o + snprintstr(fp, isnan(x) ? "nan" : "inf", order, suborder, leftalign, ' ');
+static int printnonfinite(FILE *fp, double x, const char *prefix, int order, bool leftalign) {
+  return putfield(fp, prefix, 0, isnan(x) ? "nan" : "inf", 3, order, leftalign, ' ');
 }
 
-static int printfloat(FILE *fp, long double x, int order, int suborder, bool sign, bool leftalign,
+static int printfloat(FILE *fp, double x, int order, int suborder, bool sign, bool leftalign,
                       char padding) {
+  bool neg = signbit(x);
+  const char *prefix = neg ? "-" : sign ? "+" : "";
   if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+    return printnonfinite(fp, x, prefix, order, leftalign);
 
-  bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
+  char digits[DEC_DIGITS + 1];
+  char *p = digits + 1;
+  todecimal(neg ? -x : x, p);
+  if (suborder < 0)
+    suborder = 6;
+  int frac = MIN(suborder, DEC_DIGITS - DEC_POINT);
+  rounddecimal(p, DEC_POINT + frac);
+  int start;
+  for (start = 0; start < DEC_POINT - 1 && p[start] == '0'; ++start)
+    ;
+  int len = DEC_POINT - start;
+  // Make room for the decimal point.
+  memmove(&p[start - 1], &p[start], len);
+  --start;
+  p[DEC_POINT - 1] = '.';
+  if (suborder > 0)
+    len += 1 + frac;
 
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
+  int tail = suborder - frac;  // Digits which are always zero.
+  int o = putfield(fp, prefix, 0, &p[start], len, leftalign ? 0 : order - tail, leftalign, padding);
+  putpadding(fp, tail, '0');
+  o += tail;
+  if (o < order) {
+    putpadding(fp, order - o, ' ');
+    o = order;
   }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  _fputc('.', fp); ++o;
-  o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
   return o;
 }
 
-static int normalize_float(long double *px) {
-  long double x = *px;
-  int exp = 0;
-  if (x >= 1e6) {
-    do {
-      x /= 10;
-      ++exp;
-    } while (x >= 10);
-  }
-  if (x > 0 && x <= 1e-4) {
-    do {
-      x *= 10;
-      --exp;
-    } while (x < 1.0);
-  }
-  *px = x;
-  return exp;
-}
-
-static int printscientific(FILE *fp, long double x, int order, int suborder, bool sign,
+static int printscientific(FILE *fp, double x, int order, int suborder, bool sign,
                            bool leftalign, char padding) {
+  bool neg = signbit(x);
+  const char *prefix = neg ? "-" : sign ? "+" : "";
   if (!isfinite(x))
-    return printnonfinite(fp, x, order, suborder, sign, leftalign);
+    return printnonfinite(fp, x, prefix, order, leftalign);
 
-  bool neg = signbit(x);
-  if (neg)
-    x = -x;
-  int o = sprintsign(fp, neg, sign, &order);
+  char digits[DEC_DIGITS + 8];
+  char *p = digits + 1;
+  todecimal(neg ? -x : x, p);
+  if (suborder < 0)
+    suborder = 6;
+  else if (suborder == 0)
+    suborder = 1;
 
-  int e = normalize_float(&x);
-  unsigned long long int_part = x;
-  suborder = suborder > 0 ? suborder : 6;
-  long double one = pow10(suborder);
-  unsigned long long fraction = (x - int_part) * one + 0.5;
-  if (fraction >= one) {
-    ++int_part;
-    fraction -= one;
-  }
-  while (fraction % 10 == 0 && suborder > 0) {
-    fraction /= 10;
-    --suborder;
-  }
-  o += snprintullong(fp, int_part, 10, kHexDigits, order, padding);
-  if (fraction != 0) {
-    _fputc('.', fp); ++o;
-    o += snprintullong(fp, fraction, 10, kHexDigits, suborder, '0');
+  int start = DEC_POINT - 1;  // For zero.
+  if (x != 0) {
+    for (int i = 0; i < 2; ++i) {  // Rounding might carry to the upper digit.
+      for (start = 0; p[start] == '0'; ++start)
+        ;
+      if (suborder < DEC_DIGITS - start)
+        rounddecimal(p, start + suborder);
+    }
   }
+  int e = DEC_POINT - 1 - start;
+  int end;  // Trim trailing zeros.
+  for (end = DEC_DIGITS; end > start + 1 && p[end - 1] == '0'; --end)
+    ;
 
-  if (e != 0) {
-    _fputc('e', fp); ++o;
-    o += sprintsign(fp, e < 0, true, &order);
-    e = e < 0 ? -e : e;
-    o += snprintullong(fp, e, 10, kHexDigits, 2, '0');
+  int len;
+  if (e < -4 || e >= suborder) {
+    --p;
+    p[start] = p[start + 1];
+    len = 1;
+    if (end > start + 1) {
+      p[start + 1] = '.';
+      len = end + 1 - start;
+    }
+    p += start;
+    char *q = p + len;
+    *q++ = 'e';
+    *q++ = e < 0 ? '-' : '+';
+    if (e < 0)
+      e = -e;
+    if (e >= 100)
+      *q++ = '0' + e / 100;
+    *q++ = '0' + e / 10 % 10;
+    *q++ = '0' + e % 10;
+    len = q - p;
+  } else {
+    if (start >= DEC_POINT)
+      start = DEC_POINT - 1;
+    len = DEC_POINT - start;
+    memmove(&p[start - 1], &p[start], len);
+    --start;
+    p[DEC_POINT - 1] = '.';
+    if (end > DEC_POINT)
+      len = end - start;
+    p += start;
   }
-  return o;
+  return putfield(fp, prefix, 0, p, len, order, leftalign, padding);
 }
 #endif
 
@@ -221,23 +265,21 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
 
     // Handle '%'
     char padding = ' ';
-    int order = 0, suborder = 0;
+    int order = 0, suborder = -1;
     bool sign = false;
     bool leftalign = false;
     bool sizez = false;
     int nlong = 0;
-    c = fmt[++i];
-
-    if (c == '+') {
-      sign = true;
-      c = fmt[++i];
-    } else if (c == '-') {
-      leftalign = true;
-      c = fmt[++i];
-    }
-    if (c == '0') {
-      padding = '0';
+    for (;;) {
       c = fmt[++i];
+      if (c == '+')
+        sign = true;
+      else if (c == '-')
+        leftalign = true;
+      else if (c == '0')
+        padding = '0';
+      else
+        break;
     }
     if (c >= '1' && c <= '9') {
       order = c - '0';
@@ -245,16 +287,21 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         order = order * 10 + (c - '0');
     } else if (c == '*') {
       order = va_arg(ap, int);
+      if (order < 0) {
+        leftalign = true;
+        order = -order;
+      }
       c = fmt[++i];
     }
     if (c == '.') {
+      suborder = 0;
       c = fmt[++i];
       if (isdigit(c)) {
         do {
           suborder = suborder * 10 + (c - '0');
         } while (isdigit(c = fmt[++i]));
       } else if (c == '*') {
-        suborder = va_arg(ap, int);
+        suborder = va_arg(ap, int);  // Negative value means no precision is given.
         c = fmt[++i];
       }
     }
@@ -285,11 +332,9 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           }
         }
         bool negative = x < 0;
-        unsigned long long ux = negative ? -x : x;
-        if (negative || order > 0 || sign)
-          o += sprintsign(fp, negative, sign, &order);
+        unsigned long long ux = negative ? -(unsigned long long)x : (unsigned long long)x;
         char *p = snprintullong2(bufend, ux, 10, kHexDigits);
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += putinteger(fp, negative ? "-" : sign ? "+" : "", p, order, suborder, leftalign, padding);
       }
       break;
     case 'u':
@@ -305,9 +350,7 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           }
         }
         char *p = snprintullong2(bufend, x, 10, kHexDigits);
-        if (sign)
-          *(--p) = '+';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += putinteger(fp, "", p, order, suborder, leftalign, padding);
       }
       break;
     case 'x': case 'X':
@@ -323,17 +366,15 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
           default: x = va_arg(ap, unsigned long long); break;  // case 2:
           }
         }
-        o += snprintullong(fp, x, 16, digits, order, padding);
+        char *p = snprintullong2(bufend, x, 16, digits);
+        o += putinteger(fp, "", p, order, suborder, leftalign, padding);
       }
       break;
     case 'p':
       {
         void *ptr = va_arg(ap, void*);
         char *p = snprintullong2(bufend, (uintptr_t)ptr, 16, kHexDigits);
-        p -= 2;
-        p[0] = '0';
-        p[1] = 'x';
-        o += snprintstr(fp, p, order, suborder, leftalign, padding);
+        o += putfield(fp, "0x", 0, p, strlen(p), order, leftalign, padding);
       }
       break;
     case 's':
@@ -341,12 +382,15 @@ int vfprintf(FILE *fp, const char *fmt_, va_list ap) {
         const char *s = va_arg(ap, const char*);
         if (s == NULL)
           s = "(null)";
-        o += snprintstr(fp, s, order, suborder, leftalign, ' ');
+        size_t len = suborder >= 0 ? strnlen(s, suborder) : strlen(s);
+        o += putfield(fp, "", 0, s, len, order, leftalign, ' ');
       }
       break;
     case 'c':
-      _fputc(va_arg(ap, unsigned int), fp);
-      ++o;
+      {
+        char ch = va_arg(ap, int);
+        o += putfield(fp, "", 0, &ch, 1, order, leftalign, ' ');
+      }
       break;
     case '%':
       _fputc(c, fp);
-- 
2.43.0


From c7aabde2bf7a8f44b9279c9fe50439af89c51997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 036/162] fix: strtok_r read beyond the end of an exhausted
 string

---
 libsrc/string/strtok_r.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strtok_r.c b/libsrc/string/strtok_r.c
index 07a17d7..f7382ff 100644
--- a/libsrc/string/strtok_r.c
+++ b/libsrc/string/strtok_r.c
@@ -8,7 +8,8 @@ char *strtok_r(char *src, const char *delim, char **ptr) {
     return NULL;
   char *r = *ptr;
   size_t n = strcspn(r, delim);
-  r[n] = '\0';
-  *ptr += n + 1;
+  *ptr += n;
+  if (**ptr != '\0')
+    *(*ptr)++ = '\0';
   return r;
 }
-- 
2.43.0


From a118edf6c174ee1fe5acca4e2cbdb3ba05f95d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 037/162] fix: stpcpy, stpncpy, strncpy and memccpy results and
 padding

---
 libsrc/string/memccpy.c | 11 +++++++----
 libsrc/string/stpcpy.c  |  2 +-
 libsrc/string/stpncpy.c |  5 +++--
 libsrc/string/strncpy.c |  5 +++--
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/libsrc/string/memccpy.c b/libsrc/string/memccpy.c
index 427d8f7..7cb1fdd 100644
--- a/libsrc/string/memccpy.c
+++ b/libsrc/string/memccpy.c
@@ -1,8 +1,11 @@
 #include "string.h"
 
 void *memccpy(void *dst, const void *src, int c, size_t n) {
-  char *b = memchr(src, c, n);
-  if (b != NULL)
-    n = b - (char *)src;
-  return memcpy(dst, src, n);
+  const unsigned char *s = src;
+  unsigned char *d = dst;
+  while (n-- > 0) {
+    if ((*d++ = *s++) == (unsigned char)c)
+      return d;
+  }
+  return NULL;
 }
diff --git a/libsrc/string/stpcpy.c b/libsrc/string/stpcpy.c
index 0eb7f51..39127de 100644
--- a/libsrc/string/stpcpy.c
+++ b/libsrc/string/stpcpy.c
@@ -1,7 +1,7 @@
 #include "string.h"
 
 char *stpcpy(char *dst, const char *src) {
-  while ((*dst++ = *src++) != '\0')
+  for (; (*dst = *src) != '\0'; ++dst, ++src)
     ;
   return dst;
 }
diff --git a/libsrc/string/stpncpy.c b/libsrc/string/stpncpy.c
index a6d7894..f02141c 100644
--- a/libsrc/string/stpncpy.c
+++ b/libsrc/string/stpncpy.c
@@ -1,7 +1,8 @@
 #include "string.h"
 
 char *stpncpy(char *dst, const char *src, size_t n) {
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
+  for (; n > 0 && *src != '\0'; --n)
+    *dst++ = *src++;
+  memset(dst, '\0', n);
   return dst;
 }
diff --git a/libsrc/string/strncpy.c b/libsrc/string/strncpy.c
index 9dcceae..1c35e95 100644
--- a/libsrc/string/strncpy.c
+++ b/libsrc/string/strncpy.c
@@ -2,7 +2,8 @@
 
 char *strncpy(char *dst, const char *src, size_t n) {
   char *os = dst;
-  for (; n > 0 && (*dst++ = *src++) != '\0'; --n)
-    ;
+  for (; n > 0 && *src != '\0'; --n)
+    *dst++ = *src++;
+  memset(dst, '\0', n);
   return os;
 }
-- 
2.43.0


From 5775a77ebd689f7a3e5ea7972de973de29763dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 038/162] fix: memchr, strchr and strrchr missed bytes above
 127

---
 libsrc/string/memchr.c  | 4 ++--
 libsrc/string/strchr.c  | 2 +-
 libsrc/string/strrchr.c | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libsrc/string/memchr.c b/libsrc/string/memchr.c
index ab1e6e7..4123f02 100644
--- a/libsrc/string/memchr.c
+++ b/libsrc/string/memchr.c
@@ -1,8 +1,8 @@
 #include "string.h"
 
 void *memchr(const void *buf, int c, size_t n) {
-  for (const char *p = buf, *e = p + n; p < e; ++p) {
-    if (*p == c)
+  for (const unsigned char *p = buf; n > 0; --n, ++p) {
+    if (*p == (unsigned char)c)
       return (void*)p;
   }
   return NULL;
diff --git a/libsrc/string/strchr.c b/libsrc/string/strchr.c
index 296b9c0..3f80fbc 100644
--- a/libsrc/string/strchr.c
+++ b/libsrc/string/strchr.c
@@ -2,7 +2,7 @@
 
 char *strchr(const char *s, int c) {
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       return (char*)s;
     if (*s == '\0')
       return NULL;
diff --git a/libsrc/string/strrchr.c b/libsrc/string/strrchr.c
index b6bc79a..ae15d11 100644
--- a/libsrc/string/strrchr.c
+++ b/libsrc/string/strrchr.c
@@ -3,7 +3,7 @@
 char *strrchr(const char *s, int c) {
   char *last = NULL;
   for (;; ++s) {
-    if (*s == c)
+    if (*s == (char)c)
       last = (char*)s;
     if (*s == '\0')
       return last;
-- 
2.43.0


From f0e8f378920c3016458d305d563957725589979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 039/162] fix: strndup read beyond the terminator, strerror_r
 did not terminate

---
 libsrc/string/strerror_r.c | 11 +++++++++--
 libsrc/string/strndup.c    |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libsrc/string/strerror_r.c b/libsrc/string/strerror_r.c
index f1c0c5f..82704c4 100644
--- a/libsrc/string/strerror_r.c
+++ b/libsrc/string/strerror_r.c
@@ -1,6 +1,13 @@
 #include "string.h"
+#include "errno.h"  // ERANGE
 
 int strerror_r(int no, char *dst, size_t n) {
-  strncpy(dst, strerror(no), n);
-  return 0;
+  const char *msg = strerror(no);
+  size_t len = strlen(msg);
+  if (n > 0) {
+    size_t m = len < n ? len : n - 1;
+    memcpy(dst, msg, m);
+    dst[m] = '\0';
+  }
+  return len < n ? 0 : ERANGE;
 }
diff --git a/libsrc/string/strndup.c b/libsrc/string/strndup.c
index ce14001..f366b53 100644
--- a/libsrc/string/strndup.c
+++ b/libsrc/string/strndup.c
@@ -2,6 +2,7 @@
 #include "stdlib.h"  // malloc
 
 char *strndup(const char *str, size_t size) {
+  size = strnlen(str, size);
   char *dup = malloc(size + 1);
   if (dup != NULL) {
     memcpy(dup, str, size);
-- 
2.43.0


From a5dba372fd7e158d54987ebec9bcad317e61600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 040/162] fix: strstr did not find an empty string at the end,
 strcasecmp regarded case

---
 libsrc/string/strcasecmp.c | 6 +++---
 libsrc/string/strstr.c     | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libsrc/string/strcasecmp.c b/libsrc/string/strcasecmp.c
index ed94ec0..42bcdf2 100644
--- a/libsrc/string/strcasecmp.c
+++ b/libsrc/string/strcasecmp.c
@@ -3,9 +3,9 @@
 
 int strcasecmp(const char *p, const char *q) {
   for (;; ++p, ++q) {
-    unsigned char c1 = *(unsigned char*)p;
-    unsigned char c2 = *(unsigned char*)q;
-    int d = (int)c1 - (int)c2;
+    int c1 = tolower(*(unsigned char*)p);
+    int c2 = tolower(*(unsigned char*)q);
+    int d = c1 - c2;
     if (d != 0)
       return d;
     if (c1 == 0)
diff --git a/libsrc/string/strstr.c b/libsrc/string/strstr.c
index f8fa574..d542608 100644
--- a/libsrc/string/strstr.c
+++ b/libsrc/string/strstr.c
@@ -1,9 +1,10 @@
 #include "string.h"
 
 char *strstr(const char *s1, const char *s2) {
-  for (size_t len = strlen(s2); *s1 != '\0'; ++s1) {
+  for (size_t len = strlen(s2); ; ++s1) {
     if (strncmp(s1, s2, len) == 0)
       return (char*)s1;
+    if (*s1 == '\0')
+      return NULL;
   }
-  return NULL;
 }
-- 
2.43.0


From f24b296469ac39d71adb71314d43ef8384c481f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 041/162] fix: strtol family handles base 0, the 0x prefix,
 signs of unsigned conversions and ERANGE

---
 libsrc/stdlib/_strtoull_sub.c | 59 +++++++++++++++++++++--------------
 libsrc/stdlib/strtol.c        | 13 +++-----
 libsrc/stdlib/strtoll.c       | 13 +++-----
 libsrc/stdlib/strtoul.c       | 17 +++++++---
 libsrc/stdlib/strtoull.c      | 12 ++++---
 5 files changed, 65 insertions(+), 49 deletions(-)

diff --git a/libsrc/stdlib/_strtoull_sub.c b/libsrc/stdlib/_strtoull_sub.c
index 016c418..6c33446 100644
--- a/libsrc/stdlib/_strtoull_sub.c
+++ b/libsrc/stdlib/_strtoull_sub.c
@@ -1,34 +1,47 @@
-#include "ctype.h"  // isspace, tolower
+#include "errno.h"
+#include "stdbool.h"
+
+static int digit_value(char c) {
+  if ('0' <= c && c <= '9')
+    return c - '0';
+  if ('a' <= c && c <= 'z')
+    return c - 'a' + 10;
+  if ('A' <= c && c <= 'Z')
+    return c - 'A' + 10;
+  return 99;
+}
+
+unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max, bool *overflow) {
+  *overflow = false;
+  if (base < 0 || base == 1 || base > 36) {
+    errno = EINVAL;
+    *pp = (char*)p;
+    return 0;
+  }
+
+  bool prefix = p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digit_value(p[2]) < 16;
+  if (base == 0)
+    base = prefix ? 16 : *p == '0' ? 8 : 10;
+  if (base == 16 && prefix)
+    p += 2;
 
-unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max) {
-  char digimax = '0' + (base <= 10 ? base : 10);
-  char hexmax = 'a' - 10 + base;
   unsigned long long premax = max / base;
   unsigned long long result = 0;
   for (;; ++p) {
-    char c = *p;
-    unsigned int n;
-    if ('0' <= c && c < digimax)
-      n = c - '0';
-    else {
-      c = tolower(c);
-      if ('a' <= c && c < hexmax)
-        n = c - 'a' + 10;
-      else
-        break;
-    }
-    if (result > premax) {
+    int n = digit_value(*p);
+    if (n >= base)
+      break;
+    if (*overflow)
+      continue;
+    if (result > premax || (unsigned int)n > max - result * base) {
+      *overflow = true;
+      errno = ERANGE;
       result = max;
       continue;
     }
-
-    unsigned long long r = result * base;
-    unsigned long long d = max - r;
-    result = n < d ? r + n : max;
+    result = result * base + n;
   }
 
-  if (pp != 0)
-    *pp = (char*)p;
-
+  *pp = (char*)p;
   return result;
 }
diff --git a/libsrc/stdlib/strtol.c b/libsrc/stdlib/strtol.c
index e001b7d..07675ad 100644
--- a/libsrc/stdlib/strtol.c
+++ b/libsrc/stdlib/strtol.c
@@ -4,7 +4,7 @@
 #include "stdbool.h"
 
 extern bool _parse_sign(const char **pp);
-extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
+extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max, bool *overflow);
 
 long strtol(const char *p, char **pp, int base) {
   const char *orig = p;
@@ -13,14 +13,11 @@ long strtol(const char *p, char **pp, int base) {
     ;
 
   bool neg = _parse_sign(&p);
+  bool overflow;
   char *q;
-  long result;
-  if (!neg) {
-    result = (long)_strtoull_sub(p, &q, base, (1ULL << (sizeof(long) * CHAR_BIT - 1)) - 1);
-  } else {
-    result = -(long)_strtoull_sub(p, &q, base, 1ULL << (sizeof(long) * CHAR_BIT - 1));
-  }
+  unsigned long long max = (1ULL << (sizeof(long) * CHAR_BIT - 1)) - 1 + neg;
+  unsigned long long result = _strtoull_sub(p, &q, base, max, &overflow);
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
-  return result;
+  return (long)(neg ? -result : result);
 }
diff --git a/libsrc/stdlib/strtoll.c b/libsrc/stdlib/strtoll.c
index b76a6c9..ecac5c0 100644
--- a/libsrc/stdlib/strtoll.c
+++ b/libsrc/stdlib/strtoll.c
@@ -4,7 +4,7 @@
 #include "stdbool.h"
 
 extern bool _parse_sign(const char **pp);
-extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
+extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max, bool *overflow);
 
 long long strtoll(const char *p, char **pp, int base) {
   const char *orig = p;
@@ -13,14 +13,11 @@ long long strtoll(const char *p, char **pp, int base) {
     ;
 
   bool neg = _parse_sign(&p);
+  bool overflow;
   char *q;
-  long long result;
-  if (!neg) {
-    result = _strtoull_sub(p, &q, base, (1ULL << (sizeof(long long) * CHAR_BIT - 1)) - 1);
-  } else {
-    result = -_strtoull_sub(p, &q, base, 1ULL << (sizeof(long long) * CHAR_BIT - 1));
-  }
+  unsigned long long max = (1ULL << (sizeof(long long) * CHAR_BIT - 1)) - 1 + neg;
+  unsigned long long result = _strtoull_sub(p, &q, base, max, &overflow);
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
-  return result;
+  return (long long)(neg ? -result : result);
 }
diff --git a/libsrc/stdlib/strtoul.c b/libsrc/stdlib/strtoul.c
index d29abbf..28e3e40 100644
--- a/libsrc/stdlib/strtoul.c
+++ b/libsrc/stdlib/strtoul.c
@@ -1,14 +1,21 @@
 #include "stdlib.h"
+#include "ctype.h"  // isspace
+#include "stdbool.h"
 
-extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
+extern bool _parse_sign(const char **pp);
+extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max, bool *overflow);
 
 unsigned long strtoul(const char *p, char **pp, int base) {
   const char *orig = p;
-  if (*p == '+')
-    ++p;
+
+  for (; isspace(*p); ++p)
+    ;
+
+  bool neg = _parse_sign(&p);
+  bool overflow;
   char *q;
-  unsigned long result = _strtoull_sub(p, &q, base, -1UL);
+  unsigned long long result = _strtoull_sub(p, &q, base, (unsigned long)-1, &overflow);
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
-  return result;
+  return (unsigned long)(neg && !overflow ? -result : result);
 }
diff --git a/libsrc/stdlib/strtoull.c b/libsrc/stdlib/strtoull.c
index 5de6a7b..46b35d1 100644
--- a/libsrc/stdlib/strtoull.c
+++ b/libsrc/stdlib/strtoull.c
@@ -1,7 +1,9 @@
 #include "stdlib.h"
 #include "ctype.h"  // isspace
+#include "stdbool.h"
 
-extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max);
+extern bool _parse_sign(const char **pp);
+extern unsigned long long _strtoull_sub(const char *p, char **pp, int base, unsigned long long max, bool *overflow);
 
 unsigned long long strtoull(const char *p, char **pp, int base) {
   const char *orig = p;
@@ -9,11 +11,11 @@ unsigned long long strtoull(const char *p, char **pp, int base) {
   for (; isspace(*p); ++p)
     ;
 
-  if (*p == '+')
-    ++p;
+  bool neg = _parse_sign(&p);
+  bool overflow;
   char *q;
-  unsigned long long result = _strtoull_sub(p, &q, base, -1ULL);
+  unsigned long long result = _strtoull_sub(p, &q, base, (unsigned long long)-1, &overflow);
   if (pp != 0)
     *pp = q == p ? (char*)orig : q;
-  return result;
+  return neg && !overflow ? -result : result;
 }
-- 
2.43.0


From e28ad8ed0637baedf4790c0b2d9ae89fe8cf058f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 042/162] fix: strtod is correctly rounded and stops at the
 right character

---
 libsrc/stdlib/strtod.c | 336 +++++++++++++++++++++++++++++------------
 1 file changed, 240 insertions(+), 96 deletions(-)

diff --git a/libsrc/stdlib/strtod.c b/libsrc/stdlib/strtod.c
index 9957d7c..b2c5921 100644
--- a/libsrc/stdlib/strtod.c
+++ b/libsrc/stdlib/strtod.c
@@ -1,86 +1,257 @@
 #include "stdlib.h"
 #include "ctype.h"  // isspace, tolower
+#include "errno.h"
 #include "stdbool.h"
 #include "string.h"
 #include "stdint.h"
+#include "strings.h"  // strncasecmp
 #include "../math/_ieee.h"
 
 extern bool _parse_sign(const char **pp);
 
 #ifndef __NO_FLONUM
-static double ipow(double base, long x) {
-  double result = 1;
-  double a = base;
-  for (; x > 0; x >>= 1, a *= a) {
-    if ((x & 1) != 0)
-      result *= a;
-  }
-  return result;
+#define MAX_DIGITS  (800)  // Digits beyond this can only break ties.
+#define MAX_SHIFT   (57)
+#define MAX_ORDER   (100000)
+
+// 0.d[0]d[1]...d[nd-1] * 10^dp
+typedef struct {
+  int nd, dp;
+  bool trunc;  // Nonzero digits were dropped after d[nd-1].
+  unsigned char d[MAX_DIGITS + 20];
+} Decimal;
+
+static void trim(Decimal *a) {
+  while (a->nd > 0 && a->d[a->nd - 1] == 0)
+    --a->nd;
+  if (a->nd == 0)
+    a->dp = 0;
 }
 
-static double strtod_i(const char *p, const char **pp) {
-  double result = 0;
-  for (;; ++p) {
-    char c = *p;
-    if (!(c >= '0' && c <= '9'))
-      break;
-    result = result * 10 + (c - '0');
+static void shift_left(Decimal *a, int k) {
+  const int MARGIN = 20;
+  uint64_t acc = 0;
+  int w = a->nd + MARGIN;
+  for (int r = a->nd; --r >= 0; ) {
+    acc += (uint64_t)a->d[r] << k;
+    a->d[--w] = acc % 10;
+    acc /= 10;
   }
-  *pp = p;
-  return result;
+  for (; acc > 0; acc /= 10)
+    a->d[--w] = acc % 10;
+  int nd = a->nd + MARGIN - w;
+  a->dp += nd - a->nd;
+  memmove(a->d, &a->d[w], nd);
+  for (; nd > MAX_DIGITS; --nd) {
+    if (a->d[nd - 1] != 0)
+      a->trunc = true;
+  }
+  a->nd = nd;
+  trim(a);
 }
 
-static double strtod_i2(const char *p, const char **pp) {
-  const char *q = p, *r = p;
-  for (;;) {
-    char c = *q;
-    if (!(c >= '0' && c <= '9'))
+static void shift_right(Decimal *a, int k) {
+  int r = 0, w = 0;
+  uint64_t n = 0;
+  for (; n >> k == 0; ++r) {
+    if (r >= a->nd) {
+      if (n == 0) {
+        a->nd = 0;
+        return;
+      }
+      for (; n >> k == 0; ++r)
+        n *= 10;
       break;
-    ++q;
-    if (c != '0')
-      r = q;
+    }
+    n = n * 10 + a->d[r];
   }
+  a->dp -= r - 1;
 
-  double result = 0;
-  for (size_t order = r - p; r > p; --order) {
-    char c = *(--r);
-    result += (c - '0') / ipow(10, order);
+  uint64_t mask = ((uint64_t)1 << k) - 1;
+  for (; r < a->nd; ++r) {
+    unsigned char c = a->d[r];
+    a->d[w++] = n >> k;
+    n = (n & mask) * 10 + c;
+  }
+  for (; n > 0; n = (n & mask) * 10) {
+    if (w < MAX_DIGITS)
+      a->d[w++] = n >> k;
+    else if (n >> k != 0)
+      a->trunc = true;
   }
-  *pp = q;
-  return result;
+  a->nd = w;
+  trim(a);
 }
 
-#define strtod_h(p, pp)  strtoull(p, (char**)(pp), 16)
+static uint64_t rounded(const Decimal *a) {
+  uint64_t n = 0;
+  int i;
+  for (i = 0; i < a->dp && i < a->nd; ++i)
+    n = n * 10 + a->d[i];
+  for (; i < a->dp; ++i)
+    n *= 10;
+
+  int dp = a->dp;
+  if (dp < 0 || dp >= a->nd)
+    return n;
+  bool up = a->d[dp] >= 5;
+  if (a->d[dp] == 5 && dp + 1 == a->nd && !a->trunc)  // Halfway: to even.
+    up = n & 1;
+  return n + up;
+}
+
+// mant * 2^(expo - FRAC_BIT), 0 <= mant <= 2^(FRAC_BIT + 1), which is not below 2^FRAC_BIT unless expo is the minimum.
+static double pack(uint64_t mant, int expo, bool inexact) {
+  if (mant >> (FRAC_BIT + 1) != 0) {
+    mant >>= 1;
+    ++expo;
+  }
+  union { uint64_t u; double d; } u;
+  if (expo > EXPO_BIAS + 1) {
+    u.u = EXPO_MASK;
+    errno = ERANGE;
+  } else if (mant >> FRAC_BIT == 0) {
+    u.u = mant;
+    if (inexact)
+      errno = ERANGE;
+  } else {
+    u.u = ((uint64_t)(expo + (EXPO_BIAS + 1)) << EXPO_POS) | (mant & FRAC_MASK);
+  }
+  return u.d;
+}
+
+static double decimal_to_double(Decimal *a) {
+  static const unsigned char kShifts[] = {1, 3, 6, 9, 13, 16, 19, 23, 26};
+#define SHIFTS(n)  ((n) < (int)(sizeof(kShifts) / sizeof(*kShifts)) ? kShifts[n] : 27)
+  if (a->nd == 0 || a->dp < -330)
+    return pack(0, -EXPO_BIAS, a->nd != 0);
+  if (a->dp > 310)
+    return pack(0, EXPO_BIAS + 2, true);
+
+  int expo = -1;
+  while (a->dp > 0) {
+    int n = SHIFTS(a->dp);
+    shift_right(a, n);
+    expo += n;
+  }
+  while (a->dp < 0 || (a->dp == 0 && a->d[0] < 5)) {
+    int n = SHIFTS(-a->dp);
+    shift_left(a, n);
+    expo -= n;
+  }
+  while (expo < -EXPO_BIAS) {
+    int n = -EXPO_BIAS - expo;
+    if (n > MAX_SHIFT)
+      n = MAX_SHIFT;
+    shift_right(a, n);
+    expo += n;
+  }
+  if (a->nd > 0)
+    shift_left(a, FRAC_BIT + 1);
+  bool inexact = a->nd == 0 || a->nd > a->dp || a->trunc;
+  return pack(rounded(a), expo, inexact);
+#undef SHIFTS
+}
+
+// Exponent part: `e` or `p` with digits.
+static int parse_order(const char *p, char mark, const char **pp) {
+  *pp = p;
+  if (tolower(*p) != mark)
+    return 0;
+  ++p;
+  bool neg = _parse_sign(&p);
+  if (!isdigit(*p))
+    return 0;
+  int order = 0;
+  for (; isdigit(*p); ++p) {
+    if (order < MAX_ORDER)
+      order = order * 10 + (*p - '0');
+  }
+  *pp = p;
+  return neg ? -order : order;
+}
 
 static double strtod_hex(const char *p, const char **pp) {
-  double result = strtod_h(p, &p);
-  if (*p == '.') {
-    const char *q = p + 1;
-    unsigned long long frac = strtod_h(q, &p);
-    long order = p - q;
-    result += frac * ipow(1.0f / 16, order);
-  }
-  if (tolower(*p) == 'p') {
-    const char *q = p + 1;
-    bool neg2 = _parse_sign(&q);
-    double order = strtod_i(q, &p);
-    if (q == p) {
-      // Error.
+  uint64_t mant = 0;
+  int expo = 0;
+  bool sticky = false, frac = false;
+  for (;; ++p) {
+    if (*p == '.' && !frac) {
+      frac = true;
+      continue;
+    }
+    if (!isxdigit(*p))
+      break;
+    int n = isdigit(*p) ? *p - '0' : tolower(*p) - 'a' + 10;
+    if (mant >> 60 == 0) {
+      mant = mant << 4 | n;
+      if (frac)
+        expo -= 4;
     } else {
-      double k = ipow(2, order);
-      if (neg2)
-        result /= k;
-      else
-        result *= k;
+      sticky |= n != 0;
+      if (!frac)
+        expo += 4;
     }
   }
-  *pp = p;
-  return result;
+  expo += parse_order(p, 'p', pp);
+  if (mant == 0)
+    return 0;
+
+  for (; mant >> 63 == 0; mant <<= 1)
+    --expo;
+  expo += 63;
+  // mant * 2^(expo - 63)
+  int drop = 63 - FRAC_BIT;
+  if (expo < -EXPO_BIAS) {
+    drop += -EXPO_BIAS - expo;
+    expo = -EXPO_BIAS;
+  }
+  uint64_t m = 0, half = 0, rest = mant;
+  if (drop < 64) {
+    m = mant >> drop;
+    half = (uint64_t)1 << (drop - 1);
+    rest = mant & ((half << 1) - 1);
+  } else if (drop == 64) {
+    half = (uint64_t)1 << 63;
+  }
+  if (half != 0 && (rest > half || (rest == half && (sticky || (m & 1)))))
+    ++m;
+  return pack(m, expo, rest != 0 || sticky);
+}
+
+static double strtod_dec(const char *p, const char **pp) {
+  Decimal a;
+  a.nd = a.dp = 0;
+  a.trunc = false;
+  bool frac = false;
+  for (;; ++p) {
+    if (*p == '.' && !frac) {
+      frac = true;
+      continue;
+    }
+    if (!isdigit(*p))
+      break;
+    if (*p != '0' || a.nd > 0) {
+      if (a.nd < MAX_DIGITS)
+        a.d[a.nd++] = *p - '0';
+      else if (*p != '0')
+        a.trunc = true;
+    }
+    if (frac) {
+      if (a.nd == 0)
+        --a.dp;
+    } else {
+      if (a.nd > 0)
+        ++a.dp;
+    }
+  }
+  a.dp += parse_order(p, 'e', pp);
+  trim(&a);
+  return decimal_to_double(&a);
 }
 
 double strtod(const char * restrict p_, char ** restrict pp) {
   const char *p = p_;
-  const char *orig = p;
 
   for (; isspace(*p); ++p)
     ;
@@ -89,59 +260,32 @@ double strtod(const char * restrict p_, char ** restrict pp) {
 
   static const struct {
     const char *str;
-    double pos, neg;
+    double value;
   } CONST[] = {
-    {"infinity", 1.0 / 0.0, -1.0 / 0.0},
-    {"inf", 1.0 / 0.0, -1.0 / 0.0},
-    {"nan", 0.0 / 0.0, 0.0 / 0.0},
+    {"infinity", 1.0 / 0.0},
+    {"inf", 1.0 / 0.0},
+    {"nan", 0.0 / 0.0},
   };
   for (int i = 0; i < (int)(sizeof(CONST) / sizeof(*CONST)); ++i) {
     const char *str = CONST[i].str;
     size_t len = strlen(str);
-    if (strncmp(p, str, len) == 0) {
-      p += len;
-      if (pp != 0)
-        *pp = (char*)p;
-      return neg ? CONST[i].neg : CONST[i].pos;
+    if (strncasecmp(p, str, len) == 0) {
+      if (pp != NULL)
+        *pp = (char*)p + len;
+      return neg ? -CONST[i].value : CONST[i].value;
     }
   }
 
-  const char *op;
-  double result;
-  if (p[0] == '0' && tolower(p[1]) == 'x') {
-    op = p += 2;
-    result = strtod_hex(p, &p);
-  } else {
-    op = p;
-    result = strtod_i(p, &p);
-    if (*p == '.') {
-      const char *q = p + 1;
-      double frac = strtod_i2(q, &p);
-      result += frac;
-    }
-    if (tolower(*p) == 'e') {
-      const char *q = p + 1;
-      bool neg2 = _parse_sign(&q);
-      double order = strtod_i(q, &p);
-      if (q == p) {
-        // Error.
-      } else {
-        double k = ipow(10, order);
-        if (neg2)
-          result /= k;
-        else
-          result *= k;
-      }
-    }
-  }
-  if (p == op)
-    p = orig;
-  if (neg)
-    result = -result;
+  double result = 0;
+  if (p[0] == '0' && tolower(p[1]) == 'x' && isxdigit(p[2 + (p[2] == '.')]))
+    result = strtod_hex(p + 2, &p);
+  else if (isdigit(p[*p == '.']))
+    result = strtod_dec(p, &p);
+  else
+    p = p_, neg = false;
 
   if (pp != NULL)
     *pp = (char*)p;
-
-  return result;
+  return neg ? -result : result;
 }
 #endif
-- 
2.43.0


From 90add10717360062d4bfe8ae91576e9a36a137d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 043/162] fix: malloc, calloc and brk fail for requests that
 cannot be met

---
 libsrc/_wasm/unistd/brk.c | 9 ++++++---
 libsrc/stdlib/_malloc.h   | 4 +++-
 libsrc/stdlib/calloc.c    | 5 +++++
 libsrc/stdlib/malloc.c    | 6 ++++++
 libsrc/unistd/brk.c       | 7 ++++++-
 5 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/libsrc/_wasm/unistd/brk.c b/libsrc/_wasm/unistd/brk.c
index f32fdc7..c3c02a6 100644
--- a/libsrc/_wasm/unistd/brk.c
+++ b/libsrc/_wasm/unistd/brk.c
@@ -7,21 +7,24 @@ extern void *__curbrk;
 #define HEAP_ALIGN  (8)
 #define MEMORY_PAGE_BIT  (16)
 
-static void _growTo(void *ptr) {
+static int _growTo(void *ptr) {
   size_t page = (((size_t)ptr) + ((1 << MEMORY_PAGE_BIT) - 1)) >> MEMORY_PAGE_BIT;
   size_t count = __builtin_memory_size();
   if (page > count) {
     const size_t grow = page - count;
-    __builtin_memory_grow(grow);
+    if ((int)__builtin_memory_grow(grow) == -1)
+      return -1;
   }
+  return 0;
 }
 
 int brk(void *addr) {
   if (addr <= __curbrk)
     return EOF;
   void *p = (void*)((((intptr_t)addr) + (HEAP_ALIGN - 1)) & -HEAP_ALIGN);
+  if (_growTo(p) != 0)
+    return EOF;
   __curbrk = p;
-  _growTo(p);
   return 0;
 }
 
diff --git a/libsrc/stdlib/_malloc.h b/libsrc/stdlib/_malloc.h
index 1589908..af0f11a 100644
--- a/libsrc/stdlib/_malloc.h
+++ b/libsrc/stdlib/_malloc.h
@@ -1,11 +1,13 @@
 #pragma once
 
+#include "stddef.h"  // size_t
+
 typedef long Align;
 
 typedef union header {
   struct {
     union header *ptr;
-    unsigned int size;
+    size_t size;
   } s;
   Align x;
 } Header;
diff --git a/libsrc/stdlib/calloc.c b/libsrc/stdlib/calloc.c
index 5b53244..714fa99 100644
--- a/libsrc/stdlib/calloc.c
+++ b/libsrc/stdlib/calloc.c
@@ -1,7 +1,12 @@
 #include "stdlib.h"
+#include "errno.h"
 #include "string.h"  // memset
 
 void *calloc(size_t nmemb, size_t size) {
+  if (size != 0 && nmemb > (size_t)-1 / size) {
+    errno = ENOMEM;
+    return NULL;
+  }
   size_t nbytes = nmemb * size;
   void *adr = malloc(nbytes);
   if (adr != NULL)
diff --git a/libsrc/stdlib/malloc.c b/libsrc/stdlib/malloc.c
index 898482e..30147b6 100644
--- a/libsrc/stdlib/malloc.c
+++ b/libsrc/stdlib/malloc.c
@@ -1,4 +1,5 @@
 #include "_malloc.h"
+#include "errno.h"
 #include "stdlib.h"
 #include "unistd.h"  // for sbrk
 
@@ -52,6 +53,11 @@ void *malloc(size_t nbytes) {
   Header *p, *prevp;
   size_t nunits;
 
+  if (nbytes > (size_t)-1 / 2 - PAGESIZE * 2) {
+    errno = ENOMEM;
+    return 0;
+  }
+
   nunits = (nbytes + sizeof(Header) - 1) / sizeof(Header) + 1;
   prevp = freep;
   for (p = prevp->s.ptr; ; prevp = p, p = p->s.ptr) {
diff --git a/libsrc/unistd/brk.c b/libsrc/unistd/brk.c
index b6528be..190a69d 100644
--- a/libsrc/unistd/brk.c
+++ b/libsrc/unistd/brk.c
@@ -1,4 +1,5 @@
 #include "unistd.h"
+#include "errno.h"
 #include "stdio.h"  // EOF
 
 #if defined(__linux__)
@@ -19,7 +20,11 @@ static char *curbrk;
 int brk(void *addr) {
   void *result = _brk(addr);
   curbrk = result;
-  return result < addr ? EOF : 0;
+  if (addr != NULL && result != addr) {
+    errno = ENOMEM;
+    return EOF;
+  }
+  return 0;
 }
 
 void *sbrk(intptr_t increment) {
-- 
2.43.0


From ba48b559fa881e190c328b8422671968cf163a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 044/162] fix: getrandom reports that the device cannot be
 opened

---
 libsrc/stdlib/getrandom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/stdlib/getrandom.c b/libsrc/stdlib/getrandom.c
index f22cf13..bb5eb30 100644
--- a/libsrc/stdlib/getrandom.c
+++ b/libsrc/stdlib/getrandom.c
@@ -14,9 +14,9 @@ ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
 #include "unistd.h"  // close
 
 ssize_t getrandom(void *buf, size_t buflen, unsigned int flags) {
-  ssize_t size = 0;
+  ssize_t size = -1;
   int fd = open(flags & GRND_RANDOM ? "/dev/random" : "/dev/urandom", O_RDONLY);
-  if (fd != 1) {
+  if (fd != -1) {
     size = read(fd, buf, buflen);
     close(fd);
   }
-- 
2.43.0


From 46c1dbed90d07182904176c39fa4496757c50799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:55 +0000
Subject: [PATCH 045/162] fix: atexit takes 32 handlers, also ones added by
 handlers; fini functions run in reverse

---
 libsrc/crt0/_start.c         | 4 ++--
 libsrc/stdlib/__cxa_atexit.c | 6 +++---
 libsrc/stdlib/atexit.c       | 9 ++++-----
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/libsrc/crt0/_start.c b/libsrc/crt0/_start.c
index b156e3c..4460b34 100644
--- a/libsrc/crt0/_start.c
+++ b/libsrc/crt0/_start.c
@@ -12,8 +12,8 @@ extern void (*__fini_array_start []) (void);  // __attribute__((weak));
 extern void (*__fini_array_end []) (void);  // __attribute__((weak));
 
 static void call_fini_funcs(void) {
-  for (void (**pp)(void) = __fini_array_start; pp < __fini_array_end; ++pp)
-    (*pp)();
+  for (void (**pp)(void) = __fini_array_end; pp > __fini_array_start; )
+    (*--pp)();
 }
 
 static void start2(int argc, char *argv[], char *env[]) {
diff --git a/libsrc/stdlib/__cxa_atexit.c b/libsrc/stdlib/__cxa_atexit.c
index aab121a..7c49384 100644
--- a/libsrc/stdlib/__cxa_atexit.c
+++ b/libsrc/stdlib/__cxa_atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef struct {
   void (*dtor)(void*);
@@ -25,8 +25,8 @@ int __cxa_atexit(void (*func)(void*), void *arg, void *d) {
 }
 
 static void call_cxa_atexit_funcs(void) {
-  for (CxaAtexitBuf *p = &buf[count]; p > buf; ) {
-    --p;
+  while (count > 0) {
+    CxaAtexitBuf *p = &buf[--count];
     (*p->dtor)(p->arg);
   }
 }
diff --git a/libsrc/stdlib/atexit.c b/libsrc/stdlib/atexit.c
index 8bdc99c..0abf6eb 100644
--- a/libsrc/stdlib/atexit.c
+++ b/libsrc/stdlib/atexit.c
@@ -1,7 +1,7 @@
 #include "stdlib.h"
 #include "_exit.h"
 
-#define MAX  (8)
+#define MAX  (32)
 
 typedef void (*AtexitFunc)(void);
 
@@ -16,10 +16,9 @@ int atexit(void (*func)(void)) {
 }
 
 static void call_atexit_funcs(void) {
-  for (AtexitFunc *p = &buf[count]; p > buf; ) {
-    --p;
-    (*p)();
-  }
+  // A handler may register another one.
+  while (count > 0)
+    (*buf[--count])();
 }
 
 __attribute__((constructor))
-- 
2.43.0


From f9d1299f5491f3b5a25541f0371cbe61d2bb7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:26 +0000
Subject: [PATCH 046/162] fix: fread reads on after short transfers and
 push-back, survives errors, and sets EOF only when it meets it

---
 libsrc/stdio/_file.c | 111 +++++++++++++++----------------------------
 libsrc/stdio/_file.h |   3 +-
 libsrc/stdio/fgetc.c |   8 ----
 libsrc/stdio/fread.c |  14 +++++-
 4 files changed, 50 insertions(+), 86 deletions(-)

diff --git a/libsrc/stdio/_file.c b/libsrc/stdio/_file.c
index eb74f5d..bb96b88 100644
--- a/libsrc/stdio/_file.c
+++ b/libsrc/stdio/_file.c
@@ -1,89 +1,45 @@
 #include "stdio.h"
 
-#include "stdlib.h"  // free
+#include "stdbool.h"
 #include "string.h"  // memcpy
-#include "sys/stat.h"  // fstat
 #include "unistd.h"
 
 #include "./_file.h"
 
-// Normal: if actual read size is less than required size, it means EOF.
-// Pipe:   if subscriber is faster than publisher, it happens. len == 0 means EOF.
-#define FILE_IS_END(fp, readsize)  (!((fp)->flag & FF_FIFO) || (readsize) == 0)
-
-static void _finit(FILE *fp) {
-  if ((fp->flag & FF_INITIALIZED))
-    return;
-
-  struct stat st;
-  int r = fstat(fp->fd, &st);
-  if (r == 0) {
-    switch (st.st_mode & S_IFMT) {
-    case S_IFIFO:
-    case S_IFSOCK:
-      fp->flag |= FF_FIFO;
-      break;
-    default:
-      break;
-    }
-  } else {
-    // TODO: Retry.
-  }
-  fp->flag |= FF_INITIALIZED;
-}
-
 ssize_t _fread(void *cookie, char *buf, size_t total) {
   FILE *fp = cookie;
-  _finit(fp);
-  unsigned char *p = (unsigned char*)buf;
-  if (fp->rs > 0) {
-    size_t d = fp->rs - fp->rp;
-    if (total <= d) {
-      memcpy(p, &fp->rbuf[fp->rp], total);
-      fp->rp += total;
-      if (fp->rp >= fp->rs)
-        fp->rp = fp->rs = 0;
-      return total;
+  size_t done = 0;
+  while (done < total) {
+    if (fp->rp < fp->rs) {
+      size_t n = fp->rs - fp->rp;
+      if (n > total - done)
+        n = total - done;
+      memcpy(buf + done, &fp->rbuf[fp->rp], n);
+      fp->rp += n;
+      done += n;
+      continue;
     }
-    memcpy(p, &fp->rbuf[fp->rp], d);
-    total -= d;
-    p += d;
-  }
+    fp->rp = fp->rs = 0;
 
-  if (total < fp->rcapa * 3 / 4) {
-    // Read more than requested size and store them to the buffer.
-    ssize_t len = read(fp->fd, fp->rbuf, fp->rcapa);
-    fp->rs = len;
-    size_t n = len < 0 || (size_t)len < total ? (size_t)len : total;
-    fp->rp = n;
-    if (n > 0) {
-      memcpy(p, fp->rbuf, n);
-      p += n;
-    }
-    if (len < (ssize_t)fp->rcapa && (ssize_t)n == len) {
-      if (FILE_IS_END(fp, len))
+    // If much is required, read to the given buffer directly.
+    size_t rest = total - done;
+    bool direct = rest >= fp->rcapa * 3 / 4;
+    ssize_t len = direct ? read(fp->fd, buf + done, rest) : read(fp->fd, fp->rbuf, fp->rcapa);
+    if (len <= 0) {
+      if (len == 0)
         fp->flag |= FF_EOF;
+      break;
     }
-  } else {
-    // Read to the given buffer directly.
-    ssize_t len = read(fp->fd, p, total);
-    if (len >= 0) {
-      p += len;
-      fp->rp = fp->rs = 0;
-      if ((size_t)len < total) {
-        if (FILE_IS_END(fp, len))
-          fp->flag |= FF_EOF;
-      }
-    }
+    if (direct)
+      done += len;
+    else
+      fp->rs = len;
   }
-
-  // TODO: Align by size.
-  return (uintptr_t)(p - (unsigned char*)buf);
+  return done;
 }
 
 ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
-  _finit(fp);
   if (fp->wp >= fp->wcapa && (*fp->flush)(fp) != 0)
     return EOF;
 
@@ -101,20 +57,27 @@ ssize_t _fwrite(void *cookie, const char *buf, size_t size) {
 
 int _fflush(FILE *fp) {
   if (fp->flag & FF_WRITE) {
-    unsigned int wp = fp->wp;
-    if (wp > 0) {
-      size_t write_size = write(fp->fd, fp->wbuf, wp);
-      if (write_size != (size_t)wp)
+    for (unsigned int done = 0; done < fp->wp; ) {
+      ssize_t len = write(fp->fd, &fp->wbuf[done], fp->wp - done);
+      if (len <= 0) {
+        // Keep what is not written.
+        memmove(fp->wbuf, &fp->wbuf[done], fp->wp - done);
+        fp->wp -= done;
         return EOF;
-      fp->wp = 0;
+      }
+      done += len;
     }
+    fp->wp = 0;
   }
   return 0;
 }
 
 int _fseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
-  off_t result = lseek(fp->fd, *offset, origin);
+  off_t o = *offset;
+  if (origin == SEEK_CUR)  // Relative to the position in the stream.
+    o -= (fp->rs - fp->rp) + (fp->unget_char != EOF ? 1 : 0);
+  off_t result = lseek(fp->fd, o, origin);
   if (result == -1)
     return -1;
   fp->flag &= ~FF_EOF;
diff --git a/libsrc/stdio/_file.h b/libsrc/stdio/_file.h
index 20ff2c9..b09c3c8 100644
--- a/libsrc/stdio/_file.h
+++ b/libsrc/stdio/_file.h
@@ -8,8 +8,7 @@
 #define FF_WRITE        (1 << 2)
 #define FF_EOF          (1 << 3)
 #define FF_GROWMEM      (1 << 4)
-#define FF_FIFO         (1 << 5)
-#define FF_INITIALIZED  (1 << 15)
+#define FF_APPEND       (1 << 5)
 
 typedef ssize_t (*cookie_read_function_t)(void *cookie, char *buf, size_t size);
 typedef ssize_t (*cookie_write_function_t)(void *cookie, const char *buf, size_t size);
diff --git a/libsrc/stdio/fgetc.c b/libsrc/stdio/fgetc.c
index 6668520..00c53e5 100644
--- a/libsrc/stdio/fgetc.c
+++ b/libsrc/stdio/fgetc.c
@@ -1,14 +1,6 @@
 #include "stdio.h"
 
-#include "./_file.h"
-
 int fgetc(FILE *fp) {
-  int uc = fp->unget_char;
-  if (uc != EOF) {
-    fp->unget_char = EOF;
-    return uc;
-  }
-
   unsigned char c;
   size_t count = fread(&c, 1, 1, fp);
   return count == 1 ? c : EOF;
diff --git a/libsrc/stdio/fread.c b/libsrc/stdio/fread.c
index 67e0876..4a46128 100644
--- a/libsrc/stdio/fread.c
+++ b/libsrc/stdio/fread.c
@@ -5,6 +5,16 @@
 size_t fread(void *buffer, size_t size, size_t count, FILE *fp) {
   if (!(fp->flag & FF_READ))
     return 0;
-  ssize_t result = (fp->iof->read)(fp, buffer, size * count);
-  return result >= 0 ? result / size : 0;
+  size_t total = size * count, n = 0;
+  if (total == 0)
+    return 0;
+  if (fp->unget_char != EOF) {
+    *(unsigned char*)buffer = fp->unget_char;
+    fp->unget_char = EOF;
+    n = 1;
+  }
+  ssize_t result = n < total ? (fp->iof->read)(fp, (char*)buffer + n, total - n) : 0;
+  if (result > 0)
+    n += result;
+  return n / size;
 }
-- 
2.43.0


From 88f4a4c121a669982470116f193a4c9614ba7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:26 +0000
Subject: [PATCH 047/162] fix: memory streams keep their size, do not store
 into read-only buffers and fill gaps

---
 libsrc/stdio/fmemopen.c       | 74 ++++++++++++++++++++++++-----------
 libsrc/stdio/open_memstream.c | 11 ++++--
 2 files changed, 58 insertions(+), 27 deletions(-)

diff --git a/libsrc/stdio/fmemopen.c b/libsrc/stdio/fmemopen.c
index d962ffe..01b42c2 100644
--- a/libsrc/stdio/fmemopen.c
+++ b/libsrc/stdio/fmemopen.c
@@ -1,5 +1,6 @@
 #include "stdio.h"
 
+#include "errno.h"
 #include "fcntl.h"  // O_ACCMODE, etc.
 #include "stdbool.h"
 #include "stdlib.h"
@@ -9,10 +10,15 @@
 
 #define MINCAPA  (16)
 
-static bool _growmem(FILE *fp) {
-  int newsiz = fp->wcapa * 2;
-  if (newsiz < MINCAPA)
-    newsiz = MINCAPA;
+// wbuf[0..wcapa): buffer, wp: position, rs: size of the content
+
+static bool _growmem(FILE *fp, unsigned int required) {
+  unsigned int newsiz = fp->wcapa;
+  do {
+    newsiz *= 2;
+    if (newsiz < MINCAPA)
+      newsiz = MINCAPA;
+  } while (newsiz < required);
   void *newbuf = realloc(fp->wbuf, newsiz);
   if (newbuf == NULL)
     return false;
@@ -23,57 +29,69 @@ static bool _growmem(FILE *fp) {
 
 static ssize_t _memread(void *cookie, char *buf, size_t size) {
   FILE *fp = cookie;
-  unsigned char *p = (unsigned char*)buf;
-  unsigned int sz = fp->wcapa - fp->wp;
-  if (sz <= 0) {
+  size_t sz = fp->wp < fp->rs ? fp->rs - fp->wp : 0;
+  if (sz < size)
     fp->flag |= FF_EOF;
-    return 0;
-  }
-  if (sz > size)
+  else
     sz = size;
-
-  memcpy(p, &fp->wbuf[fp->wp], sz);
+  if (sz > 0)
+    memcpy(buf, &fp->wbuf[fp->wp], sz);
   fp->wp += sz;
   return sz;
 }
 
 static ssize_t _memwrite(void *cookie, const char *buf, size_t size) {
   FILE *fp = cookie;
+  if (fp->flag & FF_APPEND)
+    fp->wp = fp->rs;
   for (size_t i = 0; i < size; ++i) {
-    if (fp->wp + 1 >= fp->wcapa &&
-        !((fp->flag & FF_GROWMEM) && _growmem(fp))) {
+    // Keep room for the terminator, unless the content is overwritten.
+    if (fp->wp >= fp->rs && fp->wp + 1 >= fp->wcapa &&
+        !((fp->flag & FF_GROWMEM) && _growmem(fp, fp->wp + 2))) {
       break;
     }
+    if (fp->wp > fp->rs)
+      memset(&fp->wbuf[fp->rs], 0, fp->wp - fp->rs);
     fp->wbuf[fp->wp++] = *buf++;
+    if (fp->wp > fp->rs)
+      fp->rs = fp->wp;
   }
   return size;  // Returns size even if buffer filled.
 }
 
 static int _memflush(FILE *fp) {
-  unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
-    fp->wbuf[wp] = '\0';
-  }
+  if ((fp->flag & FF_WRITE) && fp->rs < fp->wcapa)
+    fp->wbuf[fp->rs] = '\0';
   return 0;
 }
 
 static int _memseek(void *cookie, off_t *offset, int origin) {
   FILE *fp = cookie;
   (*fp->flush)(fp);
+  off_t pos = *offset;
   switch (origin) {
   case SEEK_SET:
-    fp->wp = *offset;
     break;
   case SEEK_CUR:
-    // TODO: Check range.
-    fp->wp += *offset;
+    pos += fp->wp;
+    if (fp->unget_char != EOF)
+      --pos;
     break;
   case SEEK_END:
-    // TODO: Check range.
-    fp->wp = fp->wcapa + *offset;
+    pos += fp->rs;
     break;
+  default:
+    pos = -1;
+    break;
+  }
+  if (pos < 0 || (!(fp->flag & FF_GROWMEM) && pos > (off_t)fp->wcapa)) {
+    errno = EINVAL;
+    return -1;
   }
+  fp->wp = pos;
+  fp->flag &= ~FF_EOF;
   fp->unget_char = EOF;
+  *offset = pos;
   return 0;
 }
 
@@ -112,6 +130,16 @@ void _fmemopen2(void *buf, size_t size, const char *mode, FILE *fp) {
   }
   if (strchr(mode, 'b') != NULL)
     flag |= FF_BINARY;
+  if (!(oflag & O_CREAT))
+    fp->rs = size;
+  if (oflag & O_APPEND) {
+    flag |= FF_APPEND;
+    while (fp->rs < size && fp->wbuf[fp->rs] != '\0')
+      ++fp->rs;
+    fp->wp = fp->rs;
+  } else if ((oflag & O_TRUNC) && size > 0) {
+    fp->wbuf[0] = '\0';
+  }
   fp->flag = flag;
 
   _add_opened_file(fp);
diff --git a/libsrc/stdio/open_memstream.c b/libsrc/stdio/open_memstream.c
index 3572977..da4b1da 100644
--- a/libsrc/stdio/open_memstream.c
+++ b/libsrc/stdio/open_memstream.c
@@ -12,15 +12,18 @@ typedef struct MEMFILE {
 } MEMFILE;
 
 static int _memflush2(FILE *fp) {
-  unsigned int wp = fp->wp;
-  if (wp < fp->wcapa) {
-    fp->wbuf[wp] = '\0';
+  if (fp->wbuf == NULL) {
+    fp->wbuf = malloc(1);
+    if (fp->wbuf == NULL)
+      return EOF;
+    fp->wcapa = 1;
   }
+  fp->wbuf[fp->rs] = '\0';
   MEMFILE *memfp = (MEMFILE*)fp;
   if (memfp->pmem != NULL)
     *memfp->pmem = (char*)fp->wbuf;
   if (memfp->psize != NULL)
-    *memfp->psize = wp;
+    *memfp->psize = fp->wp < fp->rs ? fp->wp : fp->rs;
   return 0;
 }
 
-- 
2.43.0


From 311c86bdb1949fbc5f798ff76951bfa03f43eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:26 +0000
Subject: [PATCH 048/162] fix: ftell, fseek, fputs, fgets, fwrite, ungetc and
 fclose results at their edges

---
 libsrc/stdio/fdopen.c |  7 ++++---
 libsrc/stdio/fgets.c  |  2 +-
 libsrc/stdio/fputs.c  |  5 +++--
 libsrc/stdio/fseek.c  |  3 ++-
 libsrc/stdio/ftell.c  | 18 +++++++++++++++---
 libsrc/stdio/fwrite.c |  2 +-
 libsrc/stdio/stdin.c  |  8 +++++---
 libsrc/stdio/ungetc.c |  3 ++-
 8 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/libsrc/stdio/fdopen.c b/libsrc/stdio/fdopen.c
index 2d051a0..e199fbc 100644
--- a/libsrc/stdio/fdopen.c
+++ b/libsrc/stdio/fdopen.c
@@ -13,10 +13,11 @@
 static int _fclose(void *cookie) {
   FILE *fp = cookie;
   _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  if (close(fp->fd) != 0)
+    result = EOF;
   free(fp);
-  return 0;
+  return result;
 }
 
 FILE *fdopen(int fd, const char *mode) {
diff --git a/libsrc/stdio/fgets.c b/libsrc/stdio/fgets.c
index 8bfce2e..15ae562 100644
--- a/libsrc/stdio/fgets.c
+++ b/libsrc/stdio/fgets.c
@@ -11,7 +11,7 @@ char *fgets(char *s, int n, FILE *fp) {
     if (c == '\n')
       break;
   }
-  if (p == s)
+  if (p == s && n != 0)
     return NULL;
   *p = '\0';
   return s;
diff --git a/libsrc/stdio/fputs.c b/libsrc/stdio/fputs.c
index 0189ea1..f2c1f12 100644
--- a/libsrc/stdio/fputs.c
+++ b/libsrc/stdio/fputs.c
@@ -3,6 +3,7 @@
 
 // Result: Success => positive value, Failure => EOF
 int fputs(const char *s, FILE *fp) {
-  size_t result = fwrite(s, 1, strlen(s), fp);
-  return result != 0 ? result : EOF;
+  size_t len = strlen(s);
+  size_t result = fwrite(s, 1, len, fp);
+  return result == len ? 1 : EOF;
 }
diff --git a/libsrc/stdio/fseek.c b/libsrc/stdio/fseek.c
index 88f9c5a..f2786df 100644
--- a/libsrc/stdio/fseek.c
+++ b/libsrc/stdio/fseek.c
@@ -3,7 +3,8 @@
 #include "./_file.h"
 
 int fseek(FILE *fp, long offset, int origin) {
-  fflush(fp);
+  if (fflush(fp) != 0)
+    return -1;
   off_t o = offset;
   if ((fp->iof->seek)(fp, &o, origin) == -1)
     return -1;
diff --git a/libsrc/stdio/ftell.c b/libsrc/stdio/ftell.c
index a7cd849..590e792 100644
--- a/libsrc/stdio/ftell.c
+++ b/libsrc/stdio/ftell.c
@@ -1,9 +1,21 @@
 #include "stdio.h"
-#include "unistd.h"  // read
+#include "unistd.h"  // lseek
 
 #include "./_file.h"
 
 long ftell(FILE *fp) {
-  off_t result = lseek(fp->fd, 0, SEEK_CUR);
-  return result >= 0 ? result + fp->wp - (fp->rs - fp->rp) : result;
+  off_t pos;
+  if (fp->fd < 0) {  // Memory stream.
+    pos = fp->wp;
+  } else {
+    if (fflush(fp) != 0)
+      return -1;
+    pos = lseek(fp->fd, 0, SEEK_CUR);
+    if (pos < 0)
+      return -1;
+    pos -= fp->rs - fp->rp;
+  }
+  if (fp->unget_char != EOF)
+    --pos;
+  return pos;
 }
diff --git a/libsrc/stdio/fwrite.c b/libsrc/stdio/fwrite.c
index 29deac1..ac516c3 100644
--- a/libsrc/stdio/fwrite.c
+++ b/libsrc/stdio/fwrite.c
@@ -4,7 +4,7 @@
 #include "./_file.h"
 
 size_t fwrite(const void *buffer, size_t size, size_t count, FILE *fp) {
-  if (!(fp->flag & FF_WRITE))
+  if (!(fp->flag & FF_WRITE) || size == 0 || count == 0)
     return 0;
 
   ssize_t result = (fp->iof->write)(fp, buffer, size * count);
diff --git a/libsrc/stdio/stdin.c b/libsrc/stdio/stdin.c
index 6690272..6613f82 100644
--- a/libsrc/stdio/stdin.c
+++ b/libsrc/stdio/stdin.c
@@ -20,10 +20,12 @@ typedef struct OUTFILE {
 static int _fclose_std(void *cookie) {
   FILE *fp = cookie;
   // _remove_opened_file(fp);
-  (*fp->flush)(fp);
-  close(fp->fd);
+  int result = (*fp->flush)(fp);
+  fp->wp = 0;  // Not to be flushed again.
+  if (close(fp->fd) != 0)
+    result = EOF;
   // free(fp);
-  return 0;
+  return result;
 }
 
 static const cookie_io_functions_t kIof = {
diff --git a/libsrc/stdio/ungetc.c b/libsrc/stdio/ungetc.c
index dbc8a9a..2974dde 100644
--- a/libsrc/stdio/ungetc.c
+++ b/libsrc/stdio/ungetc.c
@@ -3,8 +3,9 @@
 #include "./_file.h"
 
 int ungetc(int c, FILE *fp) {
-  if (!(fp->flag & FF_READ))
+  if (!(fp->flag & FF_READ) || c == EOF)
     return EOF;
+  c = (unsigned char)c;
   fp->unget_char = c;
   fp->flag &= ~FF_EOF;
   return c;
-- 
2.43.0


From 7f8cb008bcd264223584608cb0d73f98f4c2b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:45 +0000
Subject: [PATCH 049/162] fix: exact math functions (floor, ceil, round, fmod,
 modf, frexp, ldexp, isnan, isinf) over their whole domain

---
 include/math.h      | 16 ++++++++--------
 libsrc/math/ceil.c  | 29 ++++++++++++-----------------
 libsrc/math/floor.c | 29 ++++++++++++-----------------
 libsrc/math/fmod.c  | 23 +++++++++++++++++++----
 libsrc/math/frexp.c |  8 +++++++-
 libsrc/math/isinf.c |  2 +-
 libsrc/math/isnan.c |  2 +-
 libsrc/math/ldexp.c | 23 ++++++++++++++++++++---
 libsrc/math/modf.c  |  4 ++--
 libsrc/math/round.c | 11 ++++++++++-
 10 files changed, 92 insertions(+), 55 deletions(-)

diff --git a/include/math.h b/include/math.h
index 9180869..00508cf 100644
--- a/include/math.h
+++ b/include/math.h
@@ -6,14 +6,14 @@
 #define M_PI_4      (0.78539816339744830962)
 #define M_1_PI      (1.0 / M_PI)
 #define M_2_PI      (2.0 / M_PI)
-#define M_2_SQRTPI  (1.128379167095513)
-#define M_SQRT2     (1.414213562373095)
-#define M_SQRT1_2   (0.707106781186548)
-#define M_E         (2.718281828459045)
-#define M_LOG2E     (1.442695040888963)
-#define M_LOG10E    (0.434294481903252)
-#define M_LN2       (0.693147180559945)
-#define M_LN10      (2.302585092994046)
+#define M_2_SQRTPI  (1.12837916709551257390)
+#define M_SQRT2     (1.41421356237309504880)
+#define M_SQRT1_2   (0.70710678118654752440)
+#define M_E         (2.71828182845904523536)
+#define M_LOG2E     (1.44269504088896340736)
+#define M_LOG10E    (0.43429448190325182765)
+#define M_LN2       (0.69314718055994530942)
+#define M_LN10      (2.30258509299404568402)
 #define NAN         (__builtin_nan("0x7ff8000000000000"))
 #define INFINITY    (1.0 / 0.0)
 #define HUGE_VAL    INFINITY
diff --git a/libsrc/math/ceil.c b/libsrc/math/ceil.c
index a064cdb..1840876 100644
--- a/libsrc/math/ceil.c
+++ b/libsrc/math/ceil.c
@@ -14,24 +14,19 @@ double ceil(double x) {
       S(OP_F64_CEIL));       // f64.ceil
 #else
   int64_t q = *(int64_t*)&x;
-  int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
-    if (e <= EXPO_BIAS)
-      return q > 0 ? 1.0 : 0.0;
+  int e = GET_BIASED_EXPO(q) - (EXPO_BIAS + 1);
+  if (e >= FRAC_BIT || x == 0)
+    return x;
+  if (e < 0)
+    return q >= 0 ? 1.0 : -0.0;
 
-    int64_t one = (int64_t)1 << ((EXPO_BIAS + FRAC_BIT + 1) - e);
-    if (q < 0) {
-      int64_t r = q & -one;
-      return *(double*)&r;
-    } else {
-      int64_t frac = q & (one - 1);
-      if (frac != 0) {
-        int64_t r = (q & -one) + one;
-        return *(double*)&r;
-      }
-    }
-  }
-  return x;
+  int64_t mask = FRAC_MASK >> e;
+  if ((q & mask) == 0)
+    return x;
+  if (q >= 0)
+    q += mask;
+  q &= ~mask;
+  return *(double*)&q;
 #endif
 }
 #endif
diff --git a/libsrc/math/floor.c b/libsrc/math/floor.c
index 3bca1e9..45845b6 100644
--- a/libsrc/math/floor.c
+++ b/libsrc/math/floor.c
@@ -14,24 +14,19 @@ double floor(double x) {
       S(OP_F64_FLOOR));      // f64.floor
 #else
   int64_t q = *(int64_t*)&x;
-  int e = GET_BIASED_EXPO(q);
-  if (e <= EXPO_BIAS + FRAC_BIT && e != 0) {
-    if (e <= EXPO_BIAS)
-      return q >= 0 ? 0.0 : -1.0;
+  int e = GET_BIASED_EXPO(q) - (EXPO_BIAS + 1);
+  if (e >= FRAC_BIT || x == 0)
+    return x;
+  if (e < 0)
+    return q >= 0 ? 0.0 : -1.0;
 
-    int64_t one = (int64_t)1 << ((EXPO_BIAS + FRAC_BIT + 1) - e);
-    if (q > 0) {
-      int64_t r = q & -one;
-      return *(double*)&r;
-    } else {
-      int64_t frac = q & (one - 1);
-      if (frac != 0) {
-        int64_t r = (q & -one) + one;
-        return *(double*)&r;
-      }
-    }
-  }
-  return x;
+  int64_t mask = FRAC_MASK >> e;
+  if ((q & mask) == 0)
+    return x;
+  if (q < 0)
+    q += mask;
+  q &= ~mask;
+  return *(double*)&q;
 #endif
 }
 #endif
diff --git a/libsrc/math/fmod.c b/libsrc/math/fmod.c
index 4c0c070..2835106 100644
--- a/libsrc/math/fmod.c
+++ b/libsrc/math/fmod.c
@@ -1,11 +1,26 @@
 #include "math.h"
+#include "_ieee.h"
+#include "stdint.h"
 
 #ifndef __NO_FLONUM
 double fmod(double x, double m) {
   m = fabs(m);
-  if (x >= 0)
-    return x - floor(x / m) * m;
-  else
-    return x - ceil(x / m) * m;
+  if (isnan(x) || isnan(m) || !isfinite(x) || m == 0)
+    return NAN;
+  double y = fabs(x);
+  if (y < m)
+    return x;
+
+  // Subtract shifted divisor, without rounding.
+  int ex, em;
+  int64_t a = (int64_t)ldexp(frexp(y, &ex), FRAC_BIT + 1);
+  int64_t b = (int64_t)ldexp(frexp(m, &em), FRAC_BIT + 1);
+  for (; ; --ex, a <<= 1) {
+    if (a >= b)
+      a -= b;
+    if (ex <= em)
+      break;
+  }
+  return copysign(ldexp((double)a, em - (FRAC_BIT + 1)), x);
 }
 #endif
diff --git a/libsrc/math/frexp.c b/libsrc/math/frexp.c
index 1884985..3b53597 100644
--- a/libsrc/math/frexp.c
+++ b/libsrc/math/frexp.c
@@ -1,4 +1,5 @@
 #include "math.h"
+#include "float.h"  // DBL_MIN
 #include "stdint.h"  // int64_t
 #include "_ieee.h"
 
@@ -8,8 +9,13 @@ double frexp(double x, int *p) {
     *p = 0;
     return x;
   }
+  int adjust = 0;
+  if (fabs(x) < DBL_MIN) {
+    adjust = FRAC_BIT + 2;
+    x *= (double)((int64_t)1 << (FRAC_BIT + 2));
+  }
   int64_t q = *(int64_t*)&x;
-  *p = GET_EXPO(q);
+  *p = GET_EXPO(q) - adjust;
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)EXPO_BIAS << EXPO_POS);
   return *(double*)&r;
 }
diff --git a/libsrc/math/isinf.c b/libsrc/math/isinf.c
index 329c407..08077e6 100644
--- a/libsrc/math/isinf.c
+++ b/libsrc/math/isinf.c
@@ -8,6 +8,6 @@ extern inline int isinf(double x);
 int __isinf(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == EXPO_MASK;
+  return (u.q & ~SIGN_MASK) == EXPO_MASK;
 }
 #endif
diff --git a/libsrc/math/isnan.c b/libsrc/math/isnan.c
index fc05fb1..5cd53e1 100644
--- a/libsrc/math/isnan.c
+++ b/libsrc/math/isnan.c
@@ -8,6 +8,6 @@ extern inline int isnan(double x);
 int __isnan(double x) {
   union { double d; int64_t q; } u;
   u.d = x;
-  return (u.q & NAN_MASK) == NAN_MASK;
+  return (u.q & ~SIGN_MASK) > EXPO_MASK;
 }
 #endif
diff --git a/libsrc/math/ldexp.c b/libsrc/math/ldexp.c
index 912dc18..78b5970 100644
--- a/libsrc/math/ldexp.c
+++ b/libsrc/math/ldexp.c
@@ -1,4 +1,5 @@
 #include "math.h"
+#include "stdbool.h"
 #include "stdint.h"  // int64_t
 #include "_ieee.h"
 
@@ -7,13 +8,29 @@ double ldexp(double x, int exp) {
   if (!isfinite(x) || x == 0) {
     return x;
   }
+  const int ADJUST = FRAC_BIT + 2;
+  const double SCALE = (double)((int64_t)1 << (FRAC_BIT + 2));
+  const int LIMIT = 1 << (EXPO_BIT + 1);  // Avoid overflow.
+  if (exp > LIMIT)
+    exp = LIMIT;
+  if (exp < -LIMIT)
+    exp = -LIMIT;
   int64_t q = *(int64_t*)&x;
+  if (GET_BIASED_EXPO(q) == 0) {  // Subnormal.
+    x *= SCALE;
+    q = *(int64_t*)&x;
+    exp -= ADJUST;
+  }
   exp += GET_BIASED_EXPO(q);
   if (exp >= ((1 << EXPO_BIT) - 1))
     return x < 0 ? -HUGE_VAL : HUGE_VAL;
-  else if (exp < 0)
-    return 0;
+  if (exp <= -ADJUST)
+    return copysign(0.0, x);
+  bool subnormal = exp <= 0;
+  if (subnormal)
+    exp += ADJUST;
   int64_t r = (q & (FRAC_MASK | SIGN_MASK)) | ((int64_t)exp << EXPO_POS);
-  return *(double*)&r;
+  double d = *(double*)&r;
+  return subnormal ? d / SCALE : d;
 }
 #endif
diff --git a/libsrc/math/modf.c b/libsrc/math/modf.c
index 07db9b4..4067b93 100644
--- a/libsrc/math/modf.c
+++ b/libsrc/math/modf.c
@@ -4,11 +4,11 @@
 double modf(double x, double *pint) {
   if (!isfinite(x)) {
     *pint = x;
-    return isnan(x) ? x : 0.0;
+    return isnan(x) ? x : copysign(0.0, x);
   }
 
   double i = x >= 0 ? floor(x) : ceil(x);
   *pint = i;
-  return x - i;
+  return copysign(x - i, x);
 }
 #endif
diff --git a/libsrc/math/round.c b/libsrc/math/round.c
index 1461ac9..631437b 100644
--- a/libsrc/math/round.c
+++ b/libsrc/math/round.c
@@ -4,6 +4,15 @@
 
 #ifndef __NO_FLONUM
 double round(double x) {
-  return x >= 0 ? floor(x + 0.5) : ceil(x - 0.5);
+  int64_t q = *(int64_t*)&x;
+  int e = GET_BIASED_EXPO(q) - (EXPO_BIAS + 1);
+  if (e >= FRAC_BIT)
+    return x;
+  if (e < 0)
+    return copysign(e == -1 ? 1.0 : 0.0, x);
+
+  q += (int64_t)1 << (FRAC_BIT - 1 - e);
+  q &= ~(FRAC_MASK >> e);
+  return *(double*)&q;
 }
 #endif
-- 
2.43.0


From 8f606b346099bbcf1abe57b58a1a77ea52548a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:45 +0000
Subject: [PATCH 050/162] fix: transcendental functions lose accuracy, overflow
 or miss special values outside a narrow range

---
 libsrc/math/_log1p.c            | 16 ++++++++++++
 libsrc/math/_normalize_radian.c | 38 ++++++++++++++++++++++-----
 libsrc/math/acos.c              |  2 ++
 libsrc/math/acosh.c             |  9 +++++--
 libsrc/math/asin.c              |  2 +-
 libsrc/math/asinh.c             |  6 ++++-
 libsrc/math/atan.c              |  6 ++---
 libsrc/math/atan2.c             | 26 +++++++++----------
 libsrc/math/atanh.c             |  8 ++++--
 libsrc/math/cos.c               | 35 +++++++++----------------
 libsrc/math/cosh.c              |  4 ++-
 libsrc/math/exp.c               | 33 ++++++++++++-----------
 libsrc/math/log.c               | 17 +++++++-----
 libsrc/math/log2.c              |  8 +++++-
 libsrc/math/pow.c               | 46 ++++++++++++++++++++++-----------
 libsrc/math/sin.c               | 34 +++++++++---------------
 libsrc/math/sinh.c              | 12 ++++++++-
 libsrc/math/tanh.c              |  2 ++
 18 files changed, 189 insertions(+), 115 deletions(-)
 create mode 100644 libsrc/math/_log1p.c

diff --git a/libsrc/math/_log1p.c b/libsrc/math/_log1p.c
new file mode 100644
index 0000000..4d0e2cc
--- /dev/null
+++ b/libsrc/math/_log1p.c
@@ -0,0 +1,16 @@
+#include "math.h"
+
+#ifndef __NO_FLONUM
+// log(1 + x), without loss for small x.
+double _log1p(double x) {
+  if (x > 0.4 || x < -0.3)
+    return log(1 + x);
+
+  double y = x / (2 + x);
+  double yy = y * y;
+  double total = 0;
+  for (int i = 13; i > 0; --i)
+    total = total * yy + 1.0 / (i * 2 - 1);
+  return 2 * y * total;
+}
+#endif
diff --git a/libsrc/math/_normalize_radian.c b/libsrc/math/_normalize_radian.c
index ed23a41..4799a0f 100644
--- a/libsrc/math/_normalize_radian.c
+++ b/libsrc/math/_normalize_radian.c
@@ -1,12 +1,36 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
-double _normalize_radian(double x) {
-  double y = fmod(x, 2 * M_PI);
-  if (y > M_PI)
-    return y - 2 * M_PI;
-  if (y < -M_PI)
-    return y + 2 * M_PI;
-  return y;
+// pi/2, divided into parts: the products with small integers are exact.
+#define PIO2_1  (1.57079632673412561417e+00)
+#define PIO2_2  (6.07710050630396597660e-11)
+#define PIO2_3  (2.02226624871116645580e-21)
+#define PIO2_4  (8.47842766036889956997e-32)
+
+// Returns remainder in [-pi/4, pi/4] by pi/2, and the lower bits of the quotient.
+double _normalize_radian(double x, int *quadrant) {
+  if (fabs(x) > 1000000)
+    x = fmod(x, 2 * M_PI);
+  double n = round(x * M_2_PI);
+  *quadrant = (int)n & 3;
+  if (n == 0)
+    return x;
+  return (((x - n * PIO2_1) - n * PIO2_2) - n * PIO2_3) - n * PIO2_4;
+}
+
+double _sin_kernel(double x) {
+  double xx = x * x;
+  double v = 1;
+  for (int i = 9; i > 0; --i)
+    v = 1 - v * xx / (2 * i * (2 * i + 1));
+  return x * v;
+}
+
+double _cos_kernel(double x) {
+  double xx = x * x;
+  double v = 1;
+  for (int i = 9; i > 0; --i)
+    v = 1 - v * xx / (2 * i * (2 * i - 1));
+  return v;
 }
 #endif
diff --git a/libsrc/math/acos.c b/libsrc/math/acos.c
index e5c1fc3..f708cc0 100644
--- a/libsrc/math/acos.c
+++ b/libsrc/math/acos.c
@@ -4,6 +4,8 @@
 double acos(double x) {
   if (x < -1 || x > 1 || !isfinite(x))
     return NAN;
+  if (x > 0.5)
+    return 2 * asin(sqrt((1 - x) * 0.5));
   return M_PI_2 - asin(x);
 }
 #endif
diff --git a/libsrc/math/acosh.c b/libsrc/math/acosh.c
index 125e2d9..168bc44 100644
--- a/libsrc/math/acosh.c
+++ b/libsrc/math/acosh.c
@@ -1,9 +1,14 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
+extern double _log1p(double x);
+
 double acosh(double x) {
-  if (x < 1)
+  if (!(x >= 1))
     return NAN;
-  return log(x + sqrt(x * x - 1));
+  if (x > 1e9)
+    return log(x) + M_LN2;
+  double t = x - 1;
+  return _log1p(t + sqrt(2 * t + t * t));
 }
 #endif
diff --git a/libsrc/math/asin.c b/libsrc/math/asin.c
index 554e7ff..bc1e211 100644
--- a/libsrc/math/asin.c
+++ b/libsrc/math/asin.c
@@ -11,7 +11,7 @@ double asin(double x) {
     double v = x;
     double k = x;
     double xx = x * x;
-    for (int i = 0; i < 12; ++i) {
+    for (int i = 0; i < 24; ++i) {
       int n = i + 1;
       k *= xx * (double)(2 * n - 1) / (double)(2 * n);
       v += k / (2 * n + 1);
diff --git a/libsrc/math/asinh.c b/libsrc/math/asinh.c
index 4f3b3ac..cfb1519 100644
--- a/libsrc/math/asinh.c
+++ b/libsrc/math/asinh.c
@@ -1,7 +1,11 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
+extern double _log1p(double x);
+
 double asinh(double x) {
-  return log(x + sqrt(x * x + 1));
+  double a = fabs(x);
+  double v = a > 1e9 ? log(a) + M_LN2 : _log1p(a + a * a / (1 + sqrt(a * a + 1)));
+  return copysign(v, x);
 }
 #endif
diff --git a/libsrc/math/atan.c b/libsrc/math/atan.c
index bb1cc81..97f3559 100644
--- a/libsrc/math/atan.c
+++ b/libsrc/math/atan.c
@@ -2,10 +2,10 @@
 #include "stdbool.h"
 
 #ifndef __NO_FLONUM
-#define TAN225  0.414213562373095  // tan(22.5 degree)
+#define TAN225  0.41421356237309503  // tan(22.5 degree)
 
 double atan(double x) {
-  bool neg = x < 0;
+  bool neg = signbit(x);
   x = fabs(x);
   bool inv = false;
   if (x > 1) {
@@ -22,7 +22,7 @@ double atan(double x) {
   {
     double _xx = -x * x;
     double k = x;
-    for (int i = 0; i < 16; ++i) {
+    for (int i = 0; i < 24; ++i) {
       t += k / (i * 2 + 1);
       k *= _xx;
     }
diff --git a/libsrc/math/atan2.c b/libsrc/math/atan2.c
index 5978dda..8ff9708 100644
--- a/libsrc/math/atan2.c
+++ b/libsrc/math/atan2.c
@@ -1,19 +1,19 @@
 #include "math.h"
-#include "stdbool.h"
 
 #ifndef __NO_FLONUM
 double atan2(double y, double x) {
-  if (fabs(x) >= fabs(y)) {
-    if (x == 0)
-      return signbit(x) == 0 ? y : copysign(M_PI, y);
-    double t = atan(y / x);
-    if (x < 0)
-      t = (t <= 0 ? M_PI : -M_PI) + t;
-    return t;
-  } else {
-    double t = atan(x / y);
-    t = (y >= 0 ? M_PI / 2 : -M_PI / 2) - t;
-    return t;
-  }
+  if (isnan(x) || isnan(y))
+    return NAN;
+  double ax = fabs(x), ay = fabs(y);
+  double t;
+  if (isinf(ax) && isinf(ay))
+    t = M_PI_4;
+  else if (ax >= ay)
+    t = ax == 0 ? 0 : atan(ay / ax);
+  else
+    t = M_PI_2 - atan(ax / ay);
+  if (signbit(x))
+    t = M_PI - t;
+  return copysign(t, y);
 }
 #endif
diff --git a/libsrc/math/atanh.c b/libsrc/math/atanh.c
index 49dac85..adc8460 100644
--- a/libsrc/math/atanh.c
+++ b/libsrc/math/atanh.c
@@ -1,9 +1,13 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
+extern double _log1p(double x);
+
 double atanh(double x) {
-  if (x > 1 || x < -1)
+  double a = fabs(x);
+  if (!(a <= 1))
     return NAN;
-  return 0.5 * log((1 + x) / (1 - x));
+  double v = a == 1 ? HUGE_VAL : 0.5 * _log1p(2 * a / (1 - a));
+  return copysign(v, x);
 }
 #endif
diff --git a/libsrc/math/cos.c b/libsrc/math/cos.c
index e06a8bb..e4bbe0f 100644
--- a/libsrc/math/cos.c
+++ b/libsrc/math/cos.c
@@ -1,31 +1,20 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
-extern double _normalize_radian(double x);
+extern double _normalize_radian(double x, int *quadrant);
+extern double _sin_kernel(double x);
+extern double _cos_kernel(double x);
 
 double cos(double x) {
-  static const double TABLE[] = {
-     1 / 1.0,
-    -1 / (2.0 * 1),
-     1 / (4.0 * 3 * 2 * 1),
-    -1 / (6.0 * 5 * 4 * 3 * 2 * 1),
-     1 / (8.0 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-    -1 / (10.0 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-     1 / (12.0 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-    -1 / (14.0 * 13 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-     1 / (16.0 * 15 * 14 * 13 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-    -1 / (18.0 * 17 * 16 * 15 * 14 * 13 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-  };
-
-  x = _normalize_radian(x);
-
-  double v = 0;
-  double xx = x * x;
-  x = 1;
-  for (int i = 0; i < (int)(sizeof(TABLE) / sizeof(*TABLE)); ++i) {
-    v += x * TABLE[i];
-    x *= xx;
+  if (!isfinite(x))
+    return NAN;
+  int quadrant;
+  double r = _normalize_radian(x, &quadrant);
+  switch ((quadrant + 1) & 3) {
+  case 0:  return _sin_kernel(r);
+  case 1:  return _cos_kernel(r);
+  case 2:  return -_sin_kernel(r);
+  default:  return -_cos_kernel(r);
   }
-  return v;
 }
 #endif
diff --git a/libsrc/math/cosh.c b/libsrc/math/cosh.c
index 8d39dd5..b19a87b 100644
--- a/libsrc/math/cosh.c
+++ b/libsrc/math/cosh.c
@@ -2,7 +2,9 @@
 
 #ifndef __NO_FLONUM
 double cosh(double x) {
+  double a = fabs(x);
   // (e^x + e^-x) / 2
-  return (exp(x) + exp(-x)) * 0.5;
+  double h = exp(a * 0.5);
+  return a > 40 ? h * 0.5 * h : (exp(a) + exp(-a)) * 0.5;
 }
 #endif
diff --git a/libsrc/math/exp.c b/libsrc/math/exp.c
index d758874..26049a3 100644
--- a/libsrc/math/exp.c
+++ b/libsrc/math/exp.c
@@ -1,25 +1,24 @@
 #include "math.h"
-#include "stdbool.h"
 
 #ifndef __NO_FLONUM
+#define LN2_HI  (6.93147180369123816490e-01)
+#define LN2_LO  (1.90821492927058770002e-10)
+
 double exp(double x) {
-  bool neg = x < 0;
-  x = fabs(x);
-  unsigned int n = x;  // TODO: Care about overflow
-  double r = (x - n) /* * log(base)*/;   // log(e) = 1
+  if (isnan(x))
+    return x;
+  if (x > 710)
+    return HUGE_VAL;
+  if (x < -746)
+    return 0;
 
-  double result = 1;
-  double y = 1;
-  for (int i = 1; i <= 15; ++i) {
-    y *= r / i;
-    result += y;
-  }
+  // x = k * ln2 + r
+  int k = (int)(x * (1.0 / M_LN2) + (x < 0 ? -0.5 : 0.5));
+  double r = (x - k * LN2_HI) - k * LN2_LO;
 
-  double poe = M_E;
-  for (; n > 0; n >>= 1, poe *= poe) {
-    if (n & 1)
-      result *= poe;
-  }
-  return neg ? 1.0 / result : result;
+  double result = 1;
+  for (int i = 15; i > 0; --i)
+    result = 1 + result * r / i;
+  return ldexp(result, k);
 }
 #endif
diff --git a/libsrc/math/log.c b/libsrc/math/log.c
index f368975..0551390 100644
--- a/libsrc/math/log.c
+++ b/libsrc/math/log.c
@@ -1,6 +1,9 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
+#define LN2_HI  (6.93147180369123816490e-01)
+#define LN2_LO  (1.90821492927058770002e-10)
+
 double log(double x) {
   if (x <= 0)
     return x < 0 ? NAN : -HUGE_VAL;
@@ -9,15 +12,17 @@ double log(double x) {
 
   int n;
   x = frexp(x, &n);
-  // 0.5 <= x < 1.0
+  if (x < M_SQRT1_2) {
+    x *= 2;
+    --n;
+  }
+  // sqrt(1/2) <= x < sqrt(2)
 
   double y = (x - 1) / (x + 1);
   double yy = y * y;
   double total = 0;
-  for (int i = 1; i <= 15; ++i) {
-    total += y / (i * 2 - 1);
-    y *= yy;
-  }
-  return 2 * total + n * M_LN2;
+  for (int i = 13; i > 0; --i)
+    total = total * yy + 1.0 / (i * 2 - 1);
+  return n * LN2_HI + (2 * y * total + n * LN2_LO);
 }
 #endif
diff --git a/libsrc/math/log2.c b/libsrc/math/log2.c
index 3e07126..41cdce9 100644
--- a/libsrc/math/log2.c
+++ b/libsrc/math/log2.c
@@ -7,6 +7,12 @@ double log2(double x) {
   if (!isfinite(x))
     return x;
 
-  return log(x) * (1.0 / M_LN2);
+  int n;
+  x = frexp(x, &n);
+  if (x < M_SQRT1_2) {
+    x *= 2;
+    --n;
+  }
+  return n + log(x) * (1.0 / M_LN2);
 }
 #endif
diff --git a/libsrc/math/pow.c b/libsrc/math/pow.c
index db840eb..86bc18c 100644
--- a/libsrc/math/pow.c
+++ b/libsrc/math/pow.c
@@ -3,23 +3,39 @@
 
 #ifndef __NO_FLONUM
 double pow(double base, double x) {
-  bool neg = x < 0;
-  x = fabs(x);
-  unsigned int n = x;  // TODO: Care about overflow
-  double r = (x - n) * log(base);
-
-  double result = 1;
-  double y = 1;
-  for (int i = 1; i <= 15; ++i) {
-    y *= r / i;
-    result += y;
+  if (x == 0 || base == 1)
+    return 1;
+  if (isnan(base) || isnan(x))
+    return NAN;
+  double b = fabs(base), ax = fabs(x);
+  if (isinf(x)) {
+    if (b == 1)
+      return 1;
+    return (b > 1) == (x > 0) ? HUGE_VAL : 0;
   }
 
-  double poe = base;
-  for (; n > 0; n >>= 1, poe *= poe) {
-    if (n & 1)
-      result *= poe;
+  bool integer = floor(ax) == ax;
+  bool neg = integer && signbit(base) && fmod(ax, 2) != 0;  // Odd power.
+  if (base < 0 && !integer && !isinf(base))
+    return NAN;
+  double result;
+  if (b == 0 || isinf(b)) {
+    result = (b == 0) == (x > 0) ? 0 : HUGE_VAL;
+  } else {
+    result = 0;
+    if (integer && ax <= 1024) {
+      result = 1;
+      double poe = b;
+      for (int n = (int)ax; n > 0; n >>= 1, poe *= poe) {
+        if (n & 1)
+          result *= poe;
+      }
+      if (x < 0)
+        result = 1.0 / result;
+    }
+    if (result == 0 || isinf(result))  // Not calculated yet, or out of range on the way.
+      result = exp(x * log(b));
   }
-  return neg ? 1.0 / result : result;
+  return neg ? -result : result;
 }
 #endif
diff --git a/libsrc/math/sin.c b/libsrc/math/sin.c
index c436981..3807174 100644
--- a/libsrc/math/sin.c
+++ b/libsrc/math/sin.c
@@ -1,30 +1,20 @@
 #include "math.h"
 
 #ifndef __NO_FLONUM
-extern double _normalize_radian(double x);
+extern double _normalize_radian(double x, int *quadrant);
+extern double _sin_kernel(double x);
+extern double _cos_kernel(double x);
 
 double sin(double x) {
-  static const double TABLE[] = {
-     1 / 1.0,
-    -1 / (3.0 * 2 * 1),
-     1 / (5.0 * 4 * 3 * 2 * 1),
-    -1 / (7.0 * 6 * 5 * 4 * 3 * 2 * 1),
-     1 / (9.0 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-    -1 / (11.0 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-     1 / (13.0 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-    -1 / (15.0 * 14 * 13 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-     1 / (17.0 * 16 * 15 * 14 * 13 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-    -1 / (19.0 * 18 * 17 * 16 * 15 * 14 * 13 * 12 * 11 * 10 * 9 * 8 * 7 * 6 * 5 * 4 * 3 * 2 * 1),
-  };
-
-  x = _normalize_radian(x);
-
-  double v = 0;
-  double xx = x * x;
-  for (int i = 0; i < (int)(sizeof(TABLE) / sizeof(*TABLE)); ++i) {
-    v += x * TABLE[i];
-    x *= xx;
+  if (!isfinite(x))
+    return NAN;
+  int quadrant;
+  double r = _normalize_radian(x, &quadrant);
+  switch (quadrant) {
+  case 0:  return _sin_kernel(r);
+  case 1:  return _cos_kernel(r);
+  case 2:  return -_sin_kernel(r);
+  default:  return -_cos_kernel(r);
   }
-  return v;
 }
 #endif
diff --git a/libsrc/math/sinh.c b/libsrc/math/sinh.c
index 2100ea8..73b0369 100644
--- a/libsrc/math/sinh.c
+++ b/libsrc/math/sinh.c
@@ -2,7 +2,17 @@
 
 #ifndef __NO_FLONUM
 double sinh(double x) {
+  double a = fabs(x);
+  if (a < 1) {
+    double xx = x * x;
+    double v = 1;
+    for (int i = 9; i > 0; --i)
+      v = 1 + v * xx / (2 * i * (2 * i + 1));
+    return x * v;
+  }
   // (e^x - e^-x) / 2
-  return (exp(x) - exp(-x)) * 0.5;
+  double h = exp(a * 0.5);
+  double v = a > 40 ? h * 0.5 * h : (exp(a) - exp(-a)) * 0.5;
+  return x < 0 ? -v : v;
 }
 #endif
diff --git a/libsrc/math/tanh.c b/libsrc/math/tanh.c
index 58b2a7c..fee1e98 100644
--- a/libsrc/math/tanh.c
+++ b/libsrc/math/tanh.c
@@ -2,6 +2,8 @@
 
 #ifndef __NO_FLONUM
 double tanh(double x) {
+  if (fabs(x) > 20)
+    return x < 0 ? -1 : 1;
   return sinh(x) / cosh(x);
 }
 #endif
-- 
2.43.0


From ee091419c6f08ae87dec6e11ce6ba47dfd73a48d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:35:29 +0000
Subject: [PATCH 051/162] fix: values living across setjmp are lost at its
 second return

---
 src/cc/backend/regalloc.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/cc/backend/regalloc.c b/src/cc/backend/regalloc.c
index 488762c..f2b9d33 100644
--- a/src/cc/backend/regalloc.c
+++ b/src/cc/backend/regalloc.c
@@ -7,6 +7,7 @@
 #include <string.h>
 
 #include "ir.h"
+#include "table.h"
 #include "util.h"
 
 // Register allocator
@@ -224,6 +225,15 @@ static void occupy_regs(RegAlloc *ra, Vector *actives, unsigned long ioccupy,
   }
 }
 
+// `setjmp` returns more than once, so values living across it must stay in memory:
+// neither caller save registers nor their save area survive until the second return.
+static bool is_returns_twice(IR *ir) {
+  const Name *label = ir->call->label;
+  static const char kSetjmp[] = "setjmp";
+  const int len = sizeof(kSetjmp) - 1;
+  return label != NULL && label->bytes == len && strncmp(label->chars, kSetjmp, len) == 0;
+}
+
 static void detect_live_interval_flags(RegAlloc *ra, BBContainer *bbcon, int vreg_count,
                                        LiveInterval **sorted_intervals) {
   Vector *inactives = new_vector();
@@ -283,6 +293,17 @@ static void detect_live_interval_flags(RegAlloc *ra, BBContainer *bbcon, int vre
         const unsigned long fbroken = (1UL << settings->fphys_temporary_count) - 1;
         occupy_regs(ra, actives, ibroken, fbroken);
         iargset = fargset = 0;
+
+        if (is_returns_twice(ir)) {
+          for (int k = 0; k < actives->len; ++k) {
+            LiveInterval *li = actives->data[k];
+            VReg *vreg = ra->vregs->data[li->virt];
+            if (li->state == LI_NORMAL && !(vreg->flag & VRF_NO_SPILL)) {
+              li->state = LI_SPILL;
+              li->phys = settings->phys_max;
+            }
+          }
+        }
       }
 
       // Activate registers after usage checked.
-- 
2.43.0


From 6fe5014aac472dcd9b2903859bb40fc978caeb48 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:35:29 +0000
Subject: [PATCH 052/162] fix: write, fork and getcwd report the error in
 errno; isatty asks the kernel; S_ISFIFO compiles

---
 include/sys/stat.h     | 2 +-
 libsrc/unistd/fork.c   | 1 +
 libsrc/unistd/getcwd.c | 3 +--
 libsrc/unistd/isatty.c | 3 +++
 libsrc/unistd/write.c  | 1 +
 5 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 2251b3b..457b198 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -122,7 +122,7 @@ int fchmodat(int dirfd, const char *pathname, mode_t mode, int flags);
 #define S_ISBLK(m)   (((m) & S_IFMT) == S_IFBLK)
 #define S_ISLNK(m)   (((m) & S_IFMT) == S_IFLNK)
 #define S_ISSOCK(m)  (((m) & S_IFMT) == S_IFSOCK)
-#define S_ISFIFO(m)  (((m) & S_IFMT) == S_IFFIFO)
+#define S_ISFIFO(m)  (((m) & S_IFMT) == S_IFIFO)
 
 int stat(const char *pathname, struct stat *buf);
 int fstat(int fd, struct stat *buf);
diff --git a/libsrc/unistd/fork.c b/libsrc/unistd/fork.c
index db29f05..35844e5 100644
--- a/libsrc/unistd/fork.c
+++ b/libsrc/unistd/fork.c
@@ -5,6 +5,7 @@
 pid_t fork(void) {
   pid_t ret;
   SYSCALL_RET(__NR_fork, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
diff --git a/libsrc/unistd/getcwd.c b/libsrc/unistd/getcwd.c
index c76c12e..bd20968 100644
--- a/libsrc/unistd/getcwd.c
+++ b/libsrc/unistd/getcwd.c
@@ -11,7 +11,6 @@ extern int _getcwd(char *, size_t);
 static int _getcwd(char *buffer, size_t size) {
   int ret;
   SYSCALL_RET(__NR_getcwd, ret);
-  SET_ERRNO(ret);
   return ret;
 }
 #endif
@@ -20,7 +19,7 @@ char *getcwd(char *buffer, size_t size) {
   void *allocated = NULL;
   if (buffer == NULL) {
     if (size == 0) {
-      size = 512;  // PATH_MAX
+      size = 4096;  // PATH_MAX
     }
     buffer = allocated = malloc(size + 1);
     if (buffer == NULL)
diff --git a/libsrc/unistd/isatty.c b/libsrc/unistd/isatty.c
index a365021..f36be56 100644
--- a/libsrc/unistd/isatty.c
+++ b/libsrc/unistd/isatty.c
@@ -1,5 +1,8 @@
 #include "unistd.h"
 #include "sys/ioctl.h"  // termio
+#if defined(__linux__)
+#include "_syscall.h"
+#endif
 
 int isatty(int fd) {
 #if defined(__NR_ioctl)
diff --git a/libsrc/unistd/write.c b/libsrc/unistd/write.c
index 2cab80d..547be69 100644
--- a/libsrc/unistd/write.c
+++ b/libsrc/unistd/write.c
@@ -6,6 +6,7 @@
 ssize_t write(int fd, const void *str, size_t len) {
   ssize_t ret;
   SYSCALL_RET(__NR_write, ret);
+  SET_ERRNO(ret);
   return ret;
 }
 
-- 
2.43.0


From 574a8fe71d2db87f28d90e55ab1043e568d8f58f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:35:29 +0000
Subject: [PATCH 053/162] fix: execvp does not search PATH

---
 libsrc/unistd/execvp.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/libsrc/unistd/execvp.c b/libsrc/unistd/execvp.c
index d520c5b..024af57 100644
--- a/libsrc/unistd/execvp.c
+++ b/libsrc/unistd/execvp.c
@@ -1,4 +1,9 @@
 #include "unistd.h"
+#include "errno.h"
+#include "stdlib.h"  // getenv
+#include "string.h"
+
+#define PATH_SIZE  (4096)
 
 int execvp(const char *path, char *const args[]) {
 #ifdef __APPLE__
@@ -8,5 +13,36 @@ int execvp(const char *path, char *const args[]) {
   extern char **environ;
 #endif
 
-  return execve(path, args, environ);
+  if (strchr(path, '/') != NULL)
+    return execve(path, args, environ);
+
+  size_t len = strlen(path);
+  if (len == 0) {
+    errno = ENOENT;
+    return -1;
+  }
+
+  const char *dirs = getenv("PATH");
+  if (dirs == NULL)
+    dirs = "/bin:/usr/bin";
+  int err = ENOENT;
+  for (const char *p = dirs; p != NULL; ) {
+    const char *q = strchr(p, ':');
+    size_t n = q != NULL ? (size_t)(q - p) : strlen(p);
+    char buf[PATH_SIZE];
+    if (n + len + 2 <= sizeof(buf)) {
+      memcpy(buf, p, n);
+      if (n > 0)  // Empty element means the current directory.
+        buf[n++] = '/';
+      memcpy(buf + n, path, len + 1);
+      execve(buf, args, environ);
+      if (errno == EACCES)
+        err = EACCES;
+      else if (errno != ENOENT && errno != ENOTDIR)
+        return -1;
+    }
+    p = q != NULL ? q + 1 : NULL;
+  }
+  errno = err;
+  return -1;
 }
-- 
2.43.0


From 821e950b029298b3b3fe21efd1c160e27383bd08 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:42:10 +0000
Subject: [PATCH 054/162] fix: skipped groups are evaluated, copied or rejected
 by the preprocessor

---
 src/cpp/preprocessor.c | 56 ++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index d1975e4..e283c1b 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -545,23 +545,6 @@ static void handle_undef(const char **pp) {
   *pp = end;
 }
 
-static const char *find_double_quote_end(const char *p) {
-  const char *start = p;
-  for (;;) {
-    switch (*p++) {
-    case '\0':
-      lex_error(start, "Quote not closed");
-    case '"':
-      return p;
-    case '\\':
-      ++p;
-      break;
-    default:
-      break;
-    }
-  }
-}
-
 static const char *find_block_comment_end(const char *comment_start, Stream *stream) {
   const char *p = comment_start;
   for (;;) {
@@ -586,21 +569,16 @@ static void process_disabled_line(const char *p, Stream *stream) {
     case '\0':
       return;
     case '"':
-      p = find_double_quote_end(p);
-      break;
     case '\'':
-      for (bool closed = false; !closed;) {
-        switch (*p++) {
-        case '\0':
+      // The quote may not be closed in a skipped line.
+      for (char quote = p[-1];;) {
+        char c = *p++;
+        if (c == '\0')
           return;
-        case '\\':
-          if (*p != '\0')
-            ++p;
-          break;
-        case '\'':
-          closed = true;
+        if (c == quote)
           break;
-        }
+        if (c == '\\' && *p != '\0')
+          ++p;
       }
       break;
     case '/':
@@ -630,7 +608,7 @@ static bool handle_ifdef(const char **pp) {
   return macro_get(name) != NULL;
 }
 
-static bool handle_if(const char **pp, Stream *stream, bool enable) {
+static bool handle_if(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
 
@@ -649,7 +627,7 @@ static bool handle_if(const char **pp, Stream *stream, bool enable) {
     result = pp_expr();
 
     const char *p = get_lex_p();
-    if (p != NULL && enable)
+    if (p != NULL)
       error("illegal expression");
 
     set_pp_stream(bak_stream);
@@ -694,6 +672,8 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
     return line;
 
   if (isdigit(*directive)) {
+    if (!ppf->enable)
+      return directive;
     // Assume linemarkers: output as is.
     OUTPUT_PPLINE("%s\n", line);
     return NULL;
@@ -702,17 +682,17 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   const char *next;
   if ((next = keyword(directive, "ifdef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable ? handle_ifdef(&next) : false;
     ppf->satisfy = defined ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "ifndef")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool defined = handle_ifdef(&next);
+    bool defined = ppf->enable ? handle_ifdef(&next) : false;
     ppf->satisfy = defined ? NotSatisfied : Satisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "if")) != NULL) {
     vec_push(ppf->condstack, INT2VOIDP(cond_value(ppf->enable, ppf->satisfy)));
-    bool cond = handle_if(&next, &ppf->stream, ppf->enable);
+    bool cond = ppf->enable ? handle_if(&next, &ppf->stream) : false;
     ppf->satisfy = cond ? Satisfied : NotSatisfied;
     ppf->enable = ppf->enable && ppf->satisfy == Satisfied;
   } else if ((next = keyword(directive, "else")) != NULL) {
@@ -733,9 +713,9 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
       error("Illegal #elif");
 
     bool cond = false;
-    bool cond2 = handle_if(&next, &ppf->stream, ppf->enable);
-    if (ppf->satisfy == NotSatisfied) {
-      cond = cond2;
+    // The condition is evaluated only if it decides whether the group is taken.
+    if ((flag & CF_ENABLE) != 0 && ppf->satisfy == NotSatisfied) {
+      cond = handle_if(&next, &ppf->stream);
       if (cond)
         ppf->satisfy = Satisfied;
     }
@@ -777,6 +757,8 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
         error("unknown directive: [%s]", directive);
       next = NULL;
     }
+  } else {
+    next = directive;
   }
   return next;
 }
-- 
2.43.0


From 993b6c941e4388605b92d7ad03d79f466ef59005 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:49:46 +0000
Subject: [PATCH 055/162] fix: macro arguments, stringizing, pasting,
 rescanning and line numbers in the preprocessor

---
 src/cpp/macro.c        | 104 +++++++++++++++++++++++++++----------
 src/cpp/pp_parser.c    | 114 ++++++++++++++++++++++++++++++++++++-----
 src/cpp/pp_parser.h    |   5 ++
 src/cpp/preprocessor.c |  81 +++++++++++++++++++++--------
 4 files changed, 241 insertions(+), 63 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 793fcc8..3931049 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -4,6 +4,7 @@
 #include <alloca.h>
 #include <assert.h>
 #include <limits.h>  // INT_MAX
+#include <stdbool.h>
 #include <stdlib.h>  // malloc
 #include <string.h>
 
@@ -118,9 +119,21 @@ static void intersection_hideset(HideSet *hs, HideSet *hs2) {
   }
 }
 
+// Empty token: Placemarker, or the place which tokens must not be joined.
+static Token *boundary_token(void) {
+  static Token *tok;
+  if (tok == NULL)
+    tok = alloc_token(PPTK_SPACE, NULL, "", NULL);
+  return tok;
+}
+
 static void glue1(Vector *ls, const Token *tok2) {
   if (ls->len > 0) {
     const Token *tok1 = ls->data[ls->len - 1];
+    if (tok1->begin == tok1->end) {  // Placemarker.
+      ls->data[ls->len - 1] = (Token*)tok2;
+      return;
+    }
     // TODO: Check whether the concatenated is ident.
     size_t len1 = tok1->end - tok1->begin;
     size_t len2 = tok2->end - tok2->begin;
@@ -152,23 +165,43 @@ static void glue(Vector *ls, const Vector *rs) {
 static Token *stringize(const Vector *arg) {
   StringBuffer sb;
   sb_init(&sb);
+  static const char DQUOTE[] = "\"";
+  sb_append(&sb, DQUOTE, NULL);
+  bool space = false;
   for (int i = 0; i < arg->len; ++i) {
     const Token *tok = arg->data[i];
-    sb_append(&sb, tok->begin, tok->end);
-  }
-  const char *str = sb_to_string(&sb);
-  size_t len = strlen(str);
+    if (tok->kind == PPTK_SPACE) {
+      if (tok->begin < tok->end)
+        space = true;
+      continue;
+    }
+    // Inner white spaces become one space, and the last ones are deleted.
+    if (space) {
+      sb_append(&sb, " ", NULL);
+      space = false;
+    }
 
-  sb_clear(&sb);
-  static const char DQUOTE[] = "\"";
-  sb_append(&sb, DQUOTE, NULL);
-  escape_string(str, len, &sb);
+    const char *s = tok->begin;
+    size_t len = tok->end - s;
+    if (memchr(s, '"', len) != NULL || memchr(s, '\'', len) != NULL) {  // String or character literal.
+      for (const char *p = s; p < tok->end; ++p) {
+        if (*p == '"' || *p == '\\') {
+          if (p > s)
+            sb_append(&sb, s, p);
+          sb_append(&sb, "\\", NULL);
+          s = p;
+        }
+      }
+    }
+    if (s < tok->end)
+      sb_append(&sb, s, tok->end);
+  }
   sb_append(&sb, DQUOTE, NULL);
   const char *escaped = sb_to_string(&sb);
 
   Token *tok = alloc_token(TK_STR, NULL, escaped, NULL);
-  tok->str.buf = str + 1;
-  tok->str.len = len + (-2 /*for ""*/ + 1 /*for \0*/);
+  tok->str.buf = escaped + 1;
+  tok->str.len = strlen(escaped) + (-2 /*for ""*/ + 1 /*for \0*/);
   return tok;
 }
 
@@ -176,13 +209,13 @@ static void hsadd(HideSet *hs, Vector *ts) {
   for (int i = 0; i < ts->len; ++i) {
     const Token *tok = ts->data[i];
     if (tok->kind == TK_IDENT || tok->kind == TK_RPAR) {
-      HideSet *h = get_hideset(tok);
-      if (h == NULL) {
-        h = clone_hideset(hs);
-        set_token_hideset(tok, h);
-      } else {
-        union_hideset(h, hs);
-      }
+      // The token may be shared with the macro body or other arguments, so it is copied.
+      HideSet *h = clone_hideset(get_hideset(tok));
+      union_hideset(h, hs);
+      Token *copied = alloc_token(tok->kind, tok->line, tok->begin, tok->end);
+      *copied = *tok;
+      set_token_hideset(copied, h);
+      ts->data[i] = copied;
     }
   }
 }
@@ -229,6 +262,17 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
     case PPTK_CONCAT:
       if (os->len > 0 && i + 1 < body->len) {
         const Token *next = body->data[i + 1];
+        if (next->kind == PPTK_STRINGIFY && i + 2 < body->len) {
+          const Token *param = body->data[i + 2];
+          intptr_t j;
+          if (param->kind == TK_IDENT &&
+              param_table != NULL && table_try_get(param_table, param->ident, (void**)&j)) {
+            assert(j < args->len);
+            glue1(os, stringize(args->data[j]));
+            i += 2;
+            continue;
+          }
+        }
         if (next->kind == TK_IDENT) {
           intptr_t j;
           if (param_table != NULL && table_try_get(param_table, next->ident, (void**)&j)) {
@@ -253,18 +297,11 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
           assert(j < args->len);
           const Vector *arg = args->data[j];
           if (arg->len == 0) {  // only if actuals can be empty
-            intptr_t k;
-            if (body->len > i + 2 && ((Token*)body->data[i + 2])->kind == TK_IDENT &&
-                table_try_get(param_table, ((Token*)body->data[i + 2])->ident, (void**)&k)) {
-              assert(k < args->len);
-              const Vector *arg2 = args->data[k];
-              vec_concat(os, arg2);
-            }
-            i += 2;
+            vec_push(os, boundary_token());  // Placemarker.
           } else {
             vec_concat(os, arg);
-            // Handle `##` at next iteration.
           }
+          // Handle `##` at next iteration.
           continue;
         }
       }
@@ -278,10 +315,17 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
             Vector *arg = args->data[j];
             expanded = new_vector();
             vec_concat(expanded, arg);
+            // An argument is expanded as if it formed the rest of the file.
+            bool bak = pp_set_fetch(false);
             macro_expand(expanded);
+            pp_set_fetch(bak);
             expanded_args[j] = expanded;
           }
+          // Identifiers adjacent in the body (comment between them) are concatenated.
+          if (i == 0 || ((Token*)body->data[i - 1])->kind != TK_IDENT)
+            vec_push(os, boundary_token());
           vec_concat(os, expanded);
+          vec_push(os, boundary_token());
           continue;
         }
       }
@@ -380,6 +424,8 @@ void macro_expand(Vector *tokens) {
       if (args != NULL) {
         int count = macro->params_len +
                     (macro->vaargs_ident != NULL);  // variadic argument is concatenated.
+        if (count == 0 && args->len == 1 && ((Vector*)args->data[0])->len == 0)
+          args->len = 0;  // No parameter, and nothing between parentheses.
         if (count != args->len) {
           const char *cmp = args->len > count ? "many" : "few";
           pp_parse_error(tok, "Too %s arguments for macro `%.*s'", cmp, NAMES(tok->ident));
@@ -397,8 +443,12 @@ void macro_expand(Vector *tokens) {
     if (replaced != NULL) {
       for (int n = next - i; n > 0; --n)
         vec_remove_at(tokens, i);
-      for (int j = 0; j < replaced->len; ++j)
+      int len = replaced->len;
+      for (int j = 0; j < len; ++j)
         vec_insert(tokens, i + j, replaced->data[j]);
+      // Keep the result separated from its neighbors.
+      vec_insert(tokens, i + len, boundary_token());
+      vec_insert(tokens, i, boundary_token());
       --i;
     }
   }
diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 1575312..1429a21 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -23,6 +23,68 @@ Stream *set_pp_stream(Stream *stream) {
   return old;
 }
 
+typedef struct {
+  char *line;
+  int lineno;
+} UnreadLine;
+
+ssize_t stream_getline(char **pline, size_t *pcapa, Stream *stream) {
+  Vector *unread = stream->unread;
+  if (unread != NULL && unread->len > 0) {
+    UnreadLine *u = unread->data[0];
+    vec_remove_at(unread, 0);
+    stream->lineno = u->lineno;
+    *pline = u->line;
+    *pcapa = strlen(u->line) + 1;
+    return *pcapa - 1;
+  }
+  return getline_cont(pline, pcapa, stream->fp, &stream->lineno);
+}
+
+// Is the next token in the following lines `('?  Lines are kept unread.
+static bool peek_lpar(Stream *stream) {
+  Vector *lines = new_vector();
+  int lineno = stream->lineno;
+  bool found = false, comment = false;
+  for (bool end = false; !end;) {
+    char *line = NULL;
+    size_t capa = 0;
+    if (stream_getline(&line, &capa, stream) == -1)
+      break;
+    UnreadLine *u = malloc_or_die(sizeof(*u));
+    u->line = line;
+    u->lineno = stream->lineno;
+    vec_push(lines, u);
+
+    const char *p = line;
+    for (;;) {
+      if (comment) {
+        p = block_comment_end(p);
+        if (p == NULL)
+          break;  // Continues to the next line.
+        comment = false;
+      }
+      p = skip_whitespaces(p);
+      if (*p == '\0' || (*p == '/' && p[1] == '/'))
+        break;
+      if (*p == '/' && p[1] == '*') {
+        p += 2;
+        comment = true;
+        continue;
+      }
+      found = *p == '(';
+      end = true;
+      break;
+    }
+  }
+
+  if (stream->unread != NULL)
+    vec_concat(lines, stream->unread);
+  stream->unread = lines;
+  stream->lineno = lineno;
+  return found;
+}
+
 static void pp_parse_error_valist(const Token *token, const char *fmt, va_list ap) {
   if (fmt != NULL) {
     if (token == NULL)
@@ -120,7 +182,7 @@ Token *pp_match(enum TokenKind kind) {
 
         char *line = NULL;
         size_t capa = 0;
-        ssize_t len = getline_cont(&line, &capa, pp_stream->fp, &pp_stream->lineno);
+        ssize_t len = stream_getline(&line, &capa, pp_stream);
         if (len == -1) {
           lex_error(comment_start, "Block comment not closed");
         }
@@ -161,8 +223,28 @@ static PpResult parse_defined(void) {
   return pp_result(macro_get(alloc_name(start, end, false)) != NULL, false);
 }
 
+static bool fetch_enabled = true;
+
+bool pp_set_fetch(bool enable) {
+  bool old = fetch_enabled;
+  fetch_enabled = enable;
+  return old;
+}
+
+static bool fetch_line_enabled = true;
+
+bool pp_set_fetch_line(bool enable) {
+  bool old = fetch_line_enabled;
+  fetch_line_enabled = enable;
+  return old;
+}
+
 static Token *match2(enum TokenKind kind) {
+  if (!fetch_enabled)
+    return NULL;
   while (pp_match(TK_EOF)) {
+    if (!fetch_line_enabled)
+      return NULL;
     const char *line = get_processed_next_line();
     if (line == NULL)
       return NULL;
@@ -191,15 +273,24 @@ static Token *match3(enum TokenKind kind, Vector *tokens, int *pindex) {
   return tok;
 }
 
+static void push_arg(Vector *args, Vector *arg) {
+  // Trailing spaces are not part of the argument.
+  while (arg->len > 0 && ((Token*)arg->data[arg->len - 1])->kind == PPTK_SPACE)
+    --arg->len;
+  vec_push(args, arg);
+}
+
 Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
   Vector *args = NULL;
-  while (match3(PPTK_SPACE, tokens, pindex))
+  while (*pindex < tokens->len && match3(PPTK_SPACE, tokens, pindex))
     ;
+  if (*pindex >= tokens->len && fetch_enabled && pp_match(TK_EOF) &&
+      (!fetch_line_enabled || !peek_lpar(pp_stream)))
+    return NULL;
   if (match3(TK_LPAR, tokens, pindex)) {
     args = new_vector();
-    Vector *arg = NULL;
+    Vector *arg = new_vector();
     int paren = 0;
-    bool need_space = false;
     const Token *tok_space = NULL;
     for (;;) {
       const char *start = get_lex_p();
@@ -217,27 +308,22 @@ Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg) {
         --paren;
       }
 
-      if (arg == NULL)
-        arg = new_vector();
-
       if (tok->kind == TK_COMMA && paren <= 0 && args->len < vaarg) {
-        vec_push(args, arg);
+        push_arg(args, arg);
         arg = new_vector();
         continue;
       }
-      if (need_space || (fetched && tok->begin != start)) {
+      if (fetched && tok->begin != start) {
         if (arg->len > 0) {
           if (tok_space == NULL)
             tok_space = alloc_token(PPTK_SPACE, NULL, " ", NULL);
           vec_push(arg, tok_space);
         }
-        need_space = false;
       }
       if (tok->kind != PPTK_SPACE || arg->len > 0)
         vec_push(arg, tok);
     }
-    if (arg != NULL)
-      vec_push(args, arg);
+    push_arg(args, arg);
 
     if (args->len == vaarg)
       vec_push(args, new_vector());
@@ -403,7 +489,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
   static const ParseRule kRules[] = {
     [TK_LPAR]          = {grouping},
 
-    [TK_MUL]           = {unary,    binary,    PREC_FACTOR},
+    [TK_MUL]           = {NULL,     binary,    PREC_FACTOR},
     [TK_DIV]           = {NULL,     binary,    PREC_FACTOR},
     [TK_MOD]           = {NULL,     binary,    PREC_FACTOR},
 
@@ -421,7 +507,7 @@ static const ParseRule *get_rule(enum TokenKind kind) {
     [TK_EQ]            = {NULL,     binary,    PREC_EQ},
     [TK_NE]            = {NULL,     binary,    PREC_EQ},
 
-    [TK_AND]           = {unary,    binary,    PREC_BITAND},
+    [TK_AND]           = {NULL,     binary,    PREC_BITAND},
     [TK_HAT]           = {NULL,     binary,    PREC_BITXOR},
     [TK_OR]            = {NULL,     binary,    PREC_BITOR},
 
diff --git a/src/cpp/pp_parser.h b/src/cpp/pp_parser.h
index 0d0c80b..1dd6c8a 100644
--- a/src/cpp/pp_parser.h
+++ b/src/cpp/pp_parser.h
@@ -19,10 +19,15 @@ typedef struct {
   const char *filename;
   FILE *fp;
   int lineno;
+  Vector *unread;  // <UnreadLine*> Lines which are read but given back.
 } Stream;
 
+ssize_t stream_getline(char **pline, size_t *pcapa, Stream *stream);
+
 Stream *set_pp_stream(Stream *stream);
 PpResult pp_expr(void);
+bool pp_set_fetch(bool enable);  // Whether tokens follow. Returns old value
+bool pp_set_fetch_line(bool enable);  // Whether lines follow. Returns old value
 Vector *pp_funargs(Vector *tokens, int *pindex, int vaarg);  // <Vector*<Token*>>
 
 Token *pp_match(enum TokenKind kind);
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index e283c1b..7757ee2 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -125,7 +125,7 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
 
     char *line = NULL;
     size_t capa = 0;
-    ssize_t len = getline_cont(&line, &capa, stream->fp, &stream->lineno);
+    ssize_t len = stream_getline(&line, &capa, stream);
     if (len == -1) {
       lex_error(comment_start, "Block comment not closed");
     }
@@ -134,10 +134,22 @@ static bool handle_block_comment(const char **pp, Stream *stream) {
   return true;
 }
 
+// Are adjacent characters read as a part of one token?
+static bool may_be_joined(int c1, int c2) {
+  if (c1 == '\0' || c2 == '\0')
+    return false;
+  if (isalnum_(c1) || c1 == '.' || (c1 & 0x80))
+    return isalnum_(c2) || c2 == '.' || (c2 & 0x80) || c2 == '"' || c2 == '\'' ||
+           ((c2 == '+' || c2 == '-') && c1 != '.' && strchr("eEpP", c1) != NULL);
+  static const char kOps[] = "+-*/%&|^<>=!#:";
+  return strchr(kOps, c1) != NULL && strchr(kOps, c2) != NULL;
+}
+
 static void process_line(const char *line, Stream *stream) {
   set_source_string(line, stream->filename, stream->lineno);
 
   const char *begin = get_lex_p();
+  int last = '\0';  // Last character which is output.
 
   const Name *defined = alloc_name("defined", NULL, false);
   for (;;) {
@@ -147,16 +159,20 @@ static void process_line(const char *line, Stream *stream) {
       if (begin < p) {
         OUTPUT_PPLINE("%.*s", (int)(p - begin), begin);
         --curpf->out_lineno;
+        last = p[-1];
         begin = p;
       }
 
       if (handle_block_comment(&p, stream)) {
+        if (!preserve_comment)  // A comment is a white space.
+          fputc(' ', pp_ofp);
+        last = ' ';
         begin = p;
         set_source_string(begin, stream->filename, stream->lineno);
         continue;
       }
       if (*p == '/' && p[1] == '/') {
-        OUTPUT_COMMENT("%s\n", p);
+        OUTPUT_PPLINE("%s\n", preserve_comment ? p : "");
         return;
       }
     }
@@ -180,19 +196,31 @@ static void process_line(const char *line, Stream *stream) {
         vec_push(tokens, ident);
         macro_expand(tokens);
 
-        if (ident->begin != p)
+        if (ident->begin != p) {
           fwrite(p, ident->begin - p, 1, pp_ofp);
+          last = ident->begin[-1];
+        }
 
         // Everything should have been expanded, so output
+        bool boundary = true;
         for (int i = 0; i < tokens->len; ++i) {
           const Token *tok = tokens->data[i];
+          if (tok->begin >= tok->end) {
+            boundary = true;
+            continue;
+          }
+          // Put whitespace to avoid unexpected concatenation.
+          if (boundary && may_be_joined(last, *tok->begin))
+            fputc(' ', pp_ofp);
           fwrite(tok->begin, tok->end - tok->begin, 1, pp_ofp);
+          last = tok->end[-1];
+          boundary = false;
         }
-        if (macro->params_len >= 0) {
-          // Put whitespace to avoid unexpected concatenation.
+        begin = get_lex_p();
+        if (macro->params_len >= 0 || (begin != NULL && may_be_joined(last, *begin))) {
           fputc(' ', pp_ofp);
+          last = ' ';
         }
-        begin = get_lex_p();
       }
       continue;
     }
@@ -200,8 +228,7 @@ static void process_line(const char *line, Stream *stream) {
     match(-1);
   }
 
-  if (begin != NULL)
-    OUTPUT_PPLINE("%s\n", begin);
+  OUTPUT_PPLINE("%s\n", begin != NULL ? begin : "");
 }
 
 // Preprocess one line and receive result into memory.
@@ -215,7 +242,10 @@ static char *preprocess_one_line(const char *line, Stream *stream, size_t *psize
   int bak_lineno = curpf->out_lineno;
   pp_ofp = memfp;
 
+  // A directive ends at the end of the line.
+  bool bak_fetch = pp_set_fetch_line(false);
   process_line(line, stream);
+  pp_set_fetch_line(bak_fetch);
   pp_ofp = bak_fp;
   curpf->out_lineno = bak_lineno;
   fclose(memfp);
@@ -375,6 +405,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
 
   // Put linemarker to restore line and filename.
   fprintf(pp_ofp, "# %d \"%s\" 2\n", stream->lineno + 1, stream->filename);
+  curpf->out_lineno = stream->lineno;
 }
 
 static void handle_pragma(const char **pp, const char *filename) {
@@ -404,6 +435,7 @@ static void handle_line_directive(const char **pp, Stream *stream) {
     tmp_stream.fp = memfp;
     tmp_stream.filename = stream->filename;
     tmp_stream.lineno = stream->lineno;
+    tmp_stream.unread = NULL;
     Stream *bak_stream = set_pp_stream(&tmp_stream);
     set_source_file(memfp, stream->filename);
     num = pp_expr();
@@ -453,7 +485,7 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
         char *line = NULL;
         if (stream != NULL) {
           size_t capa = 0;
-          len = getline_cont(&line, &capa, stream->fp, &stream->lineno);
+          len = stream_getline(&line, &capa, stream);
         }
         if (len == -1) {
           lex_error(comment_start, "Block comment not closed");
@@ -554,7 +586,7 @@ static const char *find_block_comment_end(const char *comment_start, Stream *str
 
     char *line = NULL;
     size_t capa = 0;
-    ssize_t len = getline_cont(&line, &capa, stream->fp, &stream->lineno);
+    ssize_t len = stream_getline(&line, &capa, stream);
     if (len == -1) {
       lex_error(comment_start, "Block comment not closed");
     }
@@ -622,6 +654,7 @@ static bool handle_if(const char **pp, Stream *stream) {
     tmp_stream.fp = memfp;
     tmp_stream.filename = stream->filename;
     tmp_stream.lineno = stream->lineno;
+    tmp_stream.unread = NULL;
     Stream *bak_stream = set_pp_stream(&tmp_stream);
     set_source_file(memfp, stream->filename);
     result = pp_expr();
@@ -730,7 +763,6 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   } else if (ppf->enable) {
     if ((next = keyword(directive, "include")) != NULL) {
       handle_include(next, &ppf->stream, false);
-      ++ppf->out_lineno;
       next = NULL;
     } else if ((next = keyword(directive, "include_next")) != NULL) {
       handle_include(next, &ppf->stream, true);
@@ -763,28 +795,31 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   return next;
 }
 
-static void adjust_output_lineno(PreprocessFile *ppf) {
-  assert(ppf->out_lineno <= ppf->stream.lineno);
-  int d = ppf->stream.lineno - ppf->out_lineno;
+static void adjust_output_lineno(PreprocessFile *ppf, int lineno) {
+  assert(ppf->out_lineno <= lineno);
+  int d = lineno - ppf->out_lineno;
   if (d > 0) {
     if (d >= 5) {
-      fprintf(pp_ofp, "# %d \"%s\"\n", ppf->stream.lineno, ppf->stream.filename);
+      fprintf(pp_ofp, "# %d \"%s\"\n", lineno + 1, ppf->stream.filename);
     } else {
       for (int i = 0; i < d; ++i)
         fprintf(pp_ofp, "\n");
     }
-    ppf->out_lineno = ppf->stream.lineno;
+    ppf->out_lineno = lineno;
   }
 }
 
-const char *get_processed_next_line(void) {
+static const char *get_next_line(bool adjust) {
   PreprocessFile *ppf = curpf;
   for (;;) {
     char *line = NULL;
     size_t capa = 0;
-    ssize_t len = getline_cont(&line, &capa, ppf->stream.fp, &ppf->stream.lineno);
+    int lineno = ppf->stream.lineno;
+    ssize_t len = stream_getline(&line, &capa, &ppf->stream);
     if (len == -1)
       return NULL;
+    if (adjust)
+      adjust_output_lineno(ppf, lineno);
 
     int ln = snprintf(ppf->linenobuf, sizeof(ppf->linenobuf), "%d", ppf->stream.lineno);
     ppf->tok_lineno->end = ppf->tok_lineno->begin + ln;
@@ -795,11 +830,14 @@ const char *get_processed_next_line(void) {
         return next;
       process_disabled_line(next, &ppf->stream);
     }
-
-    adjust_output_lineno(ppf);
   }
 }
 
+// Get the line following the one being output, so the line number is not adjusted here.
+const char *get_processed_next_line(void) {
+  return get_next_line(false);
+}
+
 void preprocess(FILE *fp, const char *filename) {
   Macro *old_file_macro = macro_get(key_file);
   Macro *old_line_macro = macro_get(key_line);
@@ -825,9 +863,8 @@ void preprocess(FILE *fp, const char *filename) {
 
   fprintf(pp_ofp, "# 1 \"%s\" 1\n", filename);
 
-  for (const char *line; (line = get_processed_next_line()) != NULL;) {
+  for (const char *line; (line = get_next_line(true)) != NULL;) {
     process_line(line, &pf.stream);
-    adjust_output_lineno(&pf);
   }
 
   if (pf.condstack->len > 0)
-- 
2.43.0


From a6c92b6c6f22a7943dc4a9ea895316c12a80ede9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:11:24 +0000
Subject: [PATCH 056/162] fix: wrong #if operands and #include operands crash
 or hang the preprocessor

---
 src/cpp/pp_parser.c    | 19 +++++++++----------
 src/cpp/preprocessor.c | 31 +++----------------------------
 2 files changed, 12 insertions(+), 38 deletions(-)

diff --git a/src/cpp/pp_parser.c b/src/cpp/pp_parser.c
index 1429a21..44c91f0 100644
--- a/src/cpp/pp_parser.c
+++ b/src/cpp/pp_parser.c
@@ -210,11 +210,14 @@ static PpResult pp_result(int64_t value, bool is_unsigned) {
 static PpResult parse_defined(void) {
   bool lpar = pp_match(TK_LPAR) != NULL;
 
-  const char *start = skip_whitespaces(get_lex_p());
-  const char *end = read_ident(start);
-  if (end == NULL) {
-    lex_error(start, "ident expected");
+  const char *start = get_lex_p();
+  const char *end = NULL;
+  if (start != NULL) {
+    start = skip_whitespaces(start);
+    end = read_ident(start);
   }
+  if (end == NULL)
+    pp_parse_error(NULL, "ident expected");
 
   set_source_string(end, pp_stream->filename, pp_stream->lineno);
   if (lpar)
@@ -393,12 +396,8 @@ static PpResult literal(Token *tok) {
       int flag = tok->fixnum.flag;
       return pp_result(value, !(flag & TKF_CHAR) && ((flag & TKF_UNSIGNED) || value < 0));
     }
-  // case TK_STR:     return string_expr(tok, tok->str.buf, tok->str.len, tok->str.kind);
-#ifndef __NO_FLONUM
-  case TK_FLOATLIT: case TK_DOUBLELIT: case TK_LDOUBLELIT:
-    return pp_result(tok->flonum, false);
-#endif
-  default: assert(false); return pp_result(0, false);  // Unreachable.
+  default:
+    pp_parse_error(tok, "Integer expected");
   }
 }
 
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 7757ee2..611b0e9 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -318,34 +318,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
   char close;
   bool sys = false;
 
-  for (;;) {
-    p = skip_whitespaces(p);
-    char c = *p;
-    if (c == '"' || c == '<' || c == '\0' || !isalnum_(c))
-      break;
-
-    set_source_string(p, stream->filename, stream->lineno);
-    Token *ident = match(TK_IDENT);
-    assert(ident != NULL);
-    if (can_expand_ident(ident->ident)) {
-      Vector *tokens = new_vector();
-      vec_push(tokens, ident);
-      macro_expand(tokens);
-      StringBuffer sb;
-      sb_init(&sb);
-      for (int i = 0; i < tokens->len; ++i) {
-        const Token *tok = tokens->data[i];
-        sb_append(&sb, tok->begin, tok->end);
-      }
-
-      char *expanded = sb_to_string(&sb);
-      set_source_string(expanded, NULL, -1);
-      p = expanded;
-
-      // TODO: Recursive back.
-    }
-  }
-
+  p = skip_whitespaces(p);
   switch (*p++) {
   case '"':
     close = '"';
@@ -475,6 +448,8 @@ static Vector *parse_macro_body(const char *p, Stream *stream) {
     const char *q = block_comment_start(start);
     if (q != NULL) {
       const char *comment_start = q;
+      if (q > start)
+        need_space = true;
       q += 2;
       for (;;) {
         q = block_comment_end(q);
-- 
2.43.0


From 66ab7ea3dece0dacee8e58af7691b03249ded80a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 057/162] fix: x86-64 memory operands and several operand forms
 are encoded wrongly or rejected by the assembler

---
 src/as/arch/x64/asm_code.c  | 803 +++++++++---------------------------
 src/as/arch/x64/parse_x64.c |   4 +-
 2 files changed, 203 insertions(+), 604 deletions(-)

diff --git a/src/as/arch/x64/asm_code.c b/src/as/arch/x64/asm_code.c
index 33ca14d..d328a55 100644
--- a/src/as/arch/x64/asm_code.c
+++ b/src/as/arch/x64/asm_code.c
@@ -35,7 +35,7 @@ static inline char opr_regno(const Reg *reg) {
 
 static inline bool opr_reg8(const Reg *reg) {
   assert(reg->size == REG8);
-  return opr_regno(reg) < 4;
+  return opr_regno(reg) < 8;
 }
 
 static inline bool assemble_error(ParseInfo *info, const char *message) {
@@ -55,9 +55,7 @@ static unsigned char *put_rex0(unsigned char *p, enum RegSize size, int sno, int
 
 #define MAKE_REX0(size, sno, dno, opcode) \
   (size) == REG16 ? 0x66 : -1, \
-  ((sno) >= 8 || (dno) >= 8 || \
-      ((size) == REG8 && ((sno) >= 4 || (dno) >= 4)) || \
-      (size) == REG64) \
+  ((sno) >= 8 || (dno) >= 8 || (size) == REG64) \
     ? (0x40 | (((dno) & 8) >> 3) | (((sno) & 8) >> 1) | ((size) != REG64 ? 0 : 8)) : -1, \
   opcode
 
@@ -75,18 +73,6 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
   return p;
 }
 
-#define MAKE_REX_INDIRECT(size, reg, indirect_reg, opcode, op2, offset) \
-  MAKE_REX0(size, reg, indirect_reg, \
-            (size) == REG8 ? opcode : (unsigned char)((opcode) + 1)), \
-  (((offset) == 0 && indirect_reg != RBP - RAX) ? op2 : is_im8(offset) ? 0x40 : 0x80) | (indirect_reg & 7) | ((reg & 7) << 3), \
-  indirect_reg == RSP - RAX ? 0x24 : -1
-
-#define MAKE_OFFSET(offset, no) \
-  ((offset) == 0 && no) ? -1 : (offset) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >>  8) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >> 16) & 0xff, \
-  ((offset) == 0 && no) || is_im8(offset) ? -1 : ((offset) >> 24) & 0xff
-
 #define MAKE_IM(size, value) \
   (value) & 0xff, \
   size < REG16 ? -1 : ((value) >>  8) & 0xff, \
@@ -97,6 +83,93 @@ static unsigned char *put_rex2(unsigned char *p, enum RegSize size, int sno, int
   size < REG64 ? -1 : ((value) >>  48) & 0xff, \
   size < REG64 ? -1 : ((value) >>  56) & 0xff
 
+// Memory operand.
+typedef struct {
+  int base;   // -1: absolute
+  int index;  // -1: none
+  int scale;  // 0~3
+  int64_t offset;
+} Mem;
+
+static bool get_const_offset(const Expr *expr, int64_t *value) {
+  if (expr == NULL) {
+    *value = 0;
+    return true;
+  }
+  *value = expr->fixnum;
+  return expr->kind == EX_FIXNUM && is_im32(expr->fixnum);
+}
+
+static bool get_mem(const Operand *opr, Mem *mem) {
+  mem->index = -1;
+  mem->scale = 0;
+  switch (opr->type) {
+  case DIRECT:
+    mem->base = -1;
+    return get_const_offset(opr->direct.expr, &mem->offset);
+  case INDIRECT:
+  case DEREF_INDIRECT:
+    if (opr->indirect.reg.no == RIP)
+      return false;
+    mem->base = opr_regno(&opr->indirect.reg);
+    return get_const_offset(opr->indirect.offset.expr, &mem->offset);
+  case INDIRECT_WITH_INDEX:
+  case DEREF_INDIRECT_WITH_INDEX:
+    {
+      mem->base = opr_regno(&opr->indirect_with_index.base_reg);
+      mem->index = opr_regno(&opr->indirect_with_index.index_reg);
+      if (mem->index == RSP - RAX)
+        return false;
+      Expr *scale = opr->indirect_with_index.scale;
+      if (scale != NULL) {
+        if (scale->kind != EX_FIXNUM || !IS_POWER_OF_2(scale->fixnum) || scale->fixnum > 8)
+          return false;
+        mem->scale = most_significant_bit(scale->fixnum);
+      }
+      return get_const_offset(opr->indirect_with_index.offset, &mem->offset);
+    }
+  default:
+    return false;
+  }
+}
+
+// Put opcode with a register (or an extension of the opcode) and a memory operand,
+// or returns NULL if the memory operand cannot be encoded.
+static unsigned char *put_mem(unsigned char *p, enum RegSize size, short prefix, short escape,
+                              unsigned char opcode, int rno, const Operand *opr) {
+  Mem mem;
+  if (!get_mem(opr, &mem))
+    return NULL;
+
+  bool sib = mem.index >= 0 || mem.base < 0 || (mem.base & 7) == RSP - RAX;
+  bool disp0 = mem.base >= 0 && mem.offset == 0 && (mem.base & 7) != RBP - RAX;
+  bool disp8 = mem.base >= 0 && !disp0 && is_im8(mem.offset);
+
+  if (size == REG16)
+    *p++ = 0x66;
+  if (prefix >= 0)
+    *p++ = prefix;
+  int rex = (size == REG64 ? 8 : 0) | ((rno & 8) >> 1) | (mem.index >= 0 ? (mem.index & 8) >> 2 : 0) |
+            (mem.base >= 0 ? (mem.base & 8) >> 3 : 0);
+  if (rex != 0 || rno >= 16)
+    *p++ = 0x40 | rex;
+  if (escape >= 0)
+    *p++ = escape;
+  *p++ = opcode;
+  *p++ = (mem.base < 0 || disp0 ? 0x00 : disp8 ? 0x40 : 0x80) | ((rno & 7) << 3) |
+         (sib ? 4 : mem.base & 7);
+  if (sib)
+    *p++ = (mem.scale << 6) | ((mem.index >= 0 ? mem.index & 7 : 4) << 3) |
+           (mem.base >= 0 ? mem.base & 7 : 5);
+  if (disp8) {
+    *p++ = IM8(mem.offset);
+  } else if (!disp0) {
+    PUT_CODE(p, IM32(mem.offset));
+    p += 4;
+  }
+  return p;
+}
+
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -132,236 +205,55 @@ static unsigned char *asm_mov_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_mov_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
-      long offset = inst->opr[0].indirect.offset.expr->fixnum;
-      enum RegSize size = inst->opr[1].reg.size;
-      int sno = opr_regno(&inst->opr[0].indirect.reg);
-      int dno = opr_regno(&inst->opr[1].reg);
-      bool ofszero = offset == 0 && ((sno & 7) != RBP - RAX);
-      short buf[] = {
-        size == REG16 ? 0x66 : -1,
-        (size == REG64 || sno >= 8 || dno >= 8) ?  0x40 | (size == REG64 ? 0x08 : 0) | ((dno & 8) >> 1) | ((sno & 8) >> 3) : -1,
-        0x8a | (size == REG8 ? 0 : 0x01),
-        ((dno & 7) << 3) | (sno & 7) | (ofszero ? 0 : is_im8(offset) ? 0x40: 0x80),
-        (sno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (ofszero) {
-        // Nothing.
-      } else if (is_im8(offset)) {
-        *p++ = offset;
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  } else {
+  enum RegSize size = inst->opr[1].reg.size;
+  if (inst->opr[0].type == INDIRECT && inst->opr[0].indirect.reg.no == RIP) {
     if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
-      int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
-      int d = inst->opr[1].reg.no;
-      MAKE_CODE(inst, code, pre, 0x8b, 0x05 | (d << 3), IM32(0));
-      return code->buf;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long offset = inst->opr[1].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[0].reg.size;
-    if (inst->opr[1].indirect.reg.no != RIP) {
-      int sno = opr_regno(&inst->opr[0].reg);
-      int dno = opr_regno(&inst->opr[1].indirect.reg);
-      bool ofszero = offset == 0 && ((dno & 7) != RBP - RAX);
+      int d = opr_regno(&inst->opr[1].reg);
       short buf[] = {
-        size == REG16 ? 0x66 : -1,
-        (size == REG64 || sno >= 8 || dno >= 8) ? 0x40 | (size == REG64 ? 0x08 : 0) | ((sno & 8) >> 1) | ((dno & 8) >> 3) : -1,
-        0x88 | (size == REG8 ? 0 : 0x01),
-        ((sno & 7) << 3) | (dno & 7) | (ofszero ? 0 : is_im8(offset) ? 0x40: 0x80),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
+        MAKE_REX0(size, d, 0, size == REG8 ? 0x8a : 0x8b),
+        0x05 | ((d & 7) << 3),
+        IM32(0),
       };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (ofszero) {
-        // Nothing.
-      } else if (is_im8(offset)) {
-        *p++ = offset;
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_mov_iir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM) {
-    long offset = inst->opr[0].indirect_with_index.offset->fixnum;
-    assert(is_im32(offset));
-    short offset_bit = offset == 0 ? 0x04 : is_im8(offset) ? 0x44 : 0x84;
-    enum RegSize size = inst->opr[1].reg.size;
-    assert(inst->opr[0].indirect_with_index.base_reg.no != RIP);
-    int bno = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-    int ino = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-    int dno = opr_regno(&inst->opr[1].reg);
-    Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-    char scale_bit = 0;
-    if (scale_expr != NULL) {
-      scale_bit = most_significant_bit(scale_expr->fixnum);
-      assert(IS_POWER_OF_2(scale_expr->fixnum) && scale_bit < 4);
-    }
-    short x = ((bno & 8) >> 3) | ((ino & 8) >> 2) | ((dno & 8) >> 1);
-    short prefix = size == REG16 ? 0x66 : size == REG64 || x != 0 ? 0x48 | x : -1;
-    short buf[] = {
-      prefix,
-      size == REG8 ? 0x8a : 0x8b,
-      ((dno & 7) << 3) | offset_bit,
-      (scale_bit << 6) | ((ino & 7) << 3) | (bno & 7),
-    };
-    unsigned char *p = code->buf;
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-    if (offset != 0) {
-      if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
+      return put_code_filtered(code->buf, buf, ARRAY_SIZE(buf));
     }
-    return p;
+    return NULL;
   }
-  return NULL;
-}
-
-static unsigned char *asm_mov_dr(Inst *inst, Code *code) {
-  enum RegSize size = inst->opr[1].reg.size;
-  int dno = opr_regno(&inst->opr[1].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
-  short buf[] = {
-    prefix,
-    size == REG8 ? 0x8a : 0x8b,
-    ((dno & 7) << 3) | 0x04,
-    0x25,
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-  PUT_CODE(p, IM32(0));
-  p += 4;
-  return p;
+  return put_mem(code->buf, size, -1, -1, size == REG8 ? 0x8a : 0x8b, opr_regno(&inst->opr[1].reg), &inst->opr[0]);
 }
 
-static unsigned char *asm_mov_rd(Inst *inst, Code *code) {
+static unsigned char *asm_mov_ri(Inst *inst, Code *code) {
   enum RegSize size = inst->opr[0].reg.size;
-  int sno = opr_regno(&inst->opr[0].reg);
-  short prefix = size == REG16 ? 0x66 : size == REG64 ? 0x48 : -1;
-  short buf[] = {
-    prefix,
-    size == REG8 ? 0x88 : 0x89,
-    ((sno & 7) << 3) | 0x04,
-    0x25,
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-  PUT_CODE(p, IM32(0));
-  p += 4;
-  return p;
+  return put_mem(code->buf, size, -1, -1, size == REG8 ? 0x88 : 0x89, opr_regno(&inst->opr[0].reg), &inst->opr[1]);
 }
 
 static unsigned char *asm_mov_sr(Inst *inst, Code *code) {
   if (inst->opr[0].segment.reg == FS && inst->opr[1].reg.size == REG64) {
-    Expr *offset = inst->opr[0].segment.offset;
-    if (offset == NULL || offset->kind == EX_FIXNUM) {
-      uint64_t value = offset == NULL ? 0 : offset->fixnum;
-      short buf[] = {
-        0x64, 0x48, 0x8b, 0x04, 0x25,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      PUT_CODE(p, IM32(value));
-      p += 4;
-      return p;
-    }
+    Operand mem = {.type = DIRECT, .direct.expr = inst->opr[0].segment.offset};
+    code->buf[0] = 0x64;
+    return put_mem(code->buf + 1, REG64, -1, -1, 0x8b, opr_regno(&inst->opr[1].reg), &mem);
   }
   return NULL;
 }
 
-static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) {
-  long offset = inst->opr[1].indirect.offset.expr->fixnum;
-  unsigned char sno = 0;
-  unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-  unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-  short buf[] = {
-    inst->op == MOVW_IMI ? 0x66 : -1,
-    (inst->op == MOVQ_IMI || dno >= 8) ? 0x40 | (inst->op == MOVQ_IMI ? 0x08 : 0) | ((dno & 8) >> 3) | ((sno & 8) >> 1) : -1,
-    0xc6 | (inst->op == MOVB_IMI ? 0 : 1),
-    op | (dno & 7) | ((sno & 7) << 3),
-    (dno & 7) == RSP - RAX ? 0x24 : -1,
-  };
-
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  if (offset == 0 && (dno & 7) != RBP - RAX) {
-    ;
-  } else if (is_im8(offset)) {
-    *p++ = IM8(offset);
-  } else if (is_im32(offset)) {
-    PUT_CODE(p, IM32(offset));
-    p += 4;
-  }
-
+static unsigned char *asm_movbwlq_im(Inst *inst, Code *code, enum RegSize size) {
   long value = inst->opr[0].immediate;
-  switch (inst->op) {
-  case MOVB_IMI: *p++ = IM8(value); break;
-  case MOVW_IMI: PUT_CODE(p, IM16(value)); p += 2; break;
-  case MOVL_IMI: case MOVQ_IMI:
-    PUT_CODE(p, IM32(value));
-    p += 4;
-    break;
-  default: assert(false); break;
-  }
-  return p;
-}
-
-static unsigned char *asm_movbwlq_imd(Inst *inst, Code *code) {
-  assert(inst->opr[1].direct.expr->kind == EX_FIXNUM);
-  int64_t dst = inst->opr[1].direct.expr->fixnum;
-  assert(is_im32(dst));
-
-  short buf[] = {
-    inst->op == MOVW_IMD ? 0x66 : -1,
-    inst->op == MOVQ_IMD ? 0x48 : -1,
-    0xc6 | (inst->op == MOVB_IMD ? 0 : 1),
-    0x04, 0x25,
-  };
-
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  PUT_CODE(p, IM32(dst));
-  p += 4;
-
-  long value = inst->opr[0].immediate;
-  switch (inst->op) {
-  case MOVB_IMD: *p++ = IM8(value); break;
-  case MOVW_IMD: PUT_CODE(p, IM16(value)); p += 2; break;
-  case MOVL_IMD: case MOVQ_IMD:
+  if (size == REG64 && !is_im32(value))
+    return NULL;
+  unsigned char *p = put_mem(code->buf, size, -1, -1, size == REG8 ? 0xc6 : 0xc7, 0, &inst->opr[1]);
+  if (p == NULL)
+    return NULL;
+  switch (size) {
+  case REG8:  *p++ = IM8(value); break;
+  case REG16: PUT_CODE(p, IM16(value)); p += 2; break;
+  case REG32: case REG64:
     PUT_CODE(p, IM32(value));
     p += 4;
     break;
-  default: assert(false); break;
   }
   return p;
 }
+static unsigned char *asm_movbwlq_imi(Inst *inst, Code *code) { return asm_movbwlq_im(inst, code, inst->op + (REG8 - MOVB_IMI)); }
+static unsigned char *asm_movbwlq_imd(Inst *inst, Code *code) { return asm_movbwlq_im(inst, code, inst->op + (REG8 - MOVB_IMD)); }
 
 static unsigned char *asm_movszx_rr(Inst *inst, Code *code) {
   int s = inst->opr[0].reg.no;
@@ -450,83 +342,13 @@ static unsigned char *asm_movsd_xx(Inst *inst, Code *code) { return asm_movsds_x
 static unsigned char *asm_movss_xx(Inst *inst, Code *code) { return asm_movsds_xx(inst, code, true); }
 
 static unsigned char *asm_movsds_ix(Inst *inst, Code *code, bool single) {
-  long offset;
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM &&
-      (offset = inst->opr[0].indirect.offset.expr->fixnum, is_im32(offset))) {
-    if (inst->opr[0].indirect.reg.no != RIP) {
-      unsigned char prefix = single ? 0xf3 : 0xf2;
-      unsigned char sno = opr_regno(&inst->opr[0].indirect.reg);
-      unsigned char dno = inst->opr[1].regxmm - XMM0;
-      int d = dno & 7;
-      int s = sno & 7;
-      unsigned char op = (offset == 0 && s != RBP - RAX) ? (unsigned char)0x00
-                         : is_im8(offset)                ? (unsigned char)0x40
-                                                         : (unsigned char)0x80;
-
-      short buf[] = {
-        prefix,
-        sno >= 8 || dno >= 8 ? (unsigned char)0x40 | ((sno & 8) >> 3) | ((dno & 8) >> 1) : -1,
-        0x0f,
-        0x10,
-        op | s | (d << 3),
-        s == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (offset == 0 && s != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {  // is_im32(offset)
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return put_mem(code->buf, REG32, single ? 0xf3 : 0xf2, 0x0f, 0x10, inst->opr[1].regxmm - XMM0, &inst->opr[0]);
 }
 static unsigned char *asm_movsd_ix(Inst *inst, Code *code) { return asm_movsds_ix(inst, code, false); }
 static unsigned char *asm_movss_ix(Inst *inst, Code *code) { return asm_movsds_ix(inst, code, true); }
 
 static unsigned char *asm_movsds_xi(Inst *inst, Code *code, bool single) {
-  long offset;
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM &&
-      (offset = inst->opr[1].indirect.offset.expr->fixnum, is_im32(offset))) {
-    if (inst->opr[1].indirect.reg.no != RIP) {
-      unsigned char prefix = single ? 0xf3 : 0xf2;
-      unsigned char sno = inst->opr[0].regxmm - XMM0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      int d = dno & 7;
-      int s = sno & 7;
-      unsigned char op = (offset == 0 && d != RBP - RAX) ? (unsigned char)0x00
-                         : is_im8(offset)                ? (unsigned char)0x40
-                                                         : (unsigned char)0x80;
-
-      short buf[] = {
-        prefix,
-        sno >= 8 || dno >= 8 ? (unsigned char)0x40 | ((dno & 8) >> 3) | ((sno & 8) >> 1) : -1,
-        0x0f,
-        0x11,
-        op | d | (s << 3),
-        d == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-
-      if (offset == 0 && d != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else {  // is_im32(offset)
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return put_mem(code->buf, REG32, single ? 0xf3 : 0xf2, 0x0f, 0x11, inst->opr[0].regxmm - XMM0, &inst->opr[1]);
 }
 static unsigned char *asm_movsd_xi(Inst *inst, Code *code) { return asm_movsds_xi(inst, code, false); }
 static unsigned char *asm_movss_xi(Inst *inst, Code *code) { return asm_movsds_xi(inst, code, true); }
@@ -694,70 +516,16 @@ static long signed_immediate(long value, enum RegSize size) {
 }
 
 static unsigned char *asm_lea_ir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect.offset.expr != NULL);
-  unsigned char *p = code->buf;
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM) {
-      long offset = inst->opr[0].indirect.offset.expr->fixnum;
-      enum RegSize size = inst->opr[1].reg.size;
-      short buf[] = {
-        MAKE_REX_INDIRECT(
-          size,
-          opr_regno(&inst->opr[1].reg),
-          opr_regno(&inst->opr[0].indirect.reg),
-          0x8c, 0x00, offset),
-        MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-      };
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      return p;
-    }
-  } else {
+  if (inst->opr[0].type == INDIRECT && inst->opr[0].indirect.reg.no == RIP) {
     if (inst->opr[0].indirect.offset.expr->kind != EX_FIXNUM) {
       int pre = !inst->opr[1].reg.x ? 0x48 : 0x4c;
       int d = inst->opr[1].reg.no;
       MAKE_CODE(inst, code, pre, 0x8d, 0x05 | (d << 3), IM32(0));
-      return p;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_lea_iir(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
-  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
-      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
-      int breg = opr_regno(&inst->opr[0].indirect_with_index.base_reg);
-      int ireg = opr_regno(&inst->opr[0].indirect_with_index.index_reg);
-      int dreg = opr_regno(&inst->opr[1].reg);
-      bool noofs = offset == 0 && breg != RBP - RAX;
-      int pow = most_significant_bit(scale);
-      assert(IS_POWER_OF_2(scale) && pow < 4);
-      short buf[] = {
-        0x48 | ((breg & 8) >> 3) | ((ireg & 8) >> 2) | ((dreg & 8) >> 1),
-        0x8d,
-        (noofs ? 0x00 : is_im8(offset) ? 0x40 : 0x80) | ((dreg & 7) << 3) | 0x04,
-        (breg & 7) | ((ireg & 7) << 3) | (pow << 6),
-        breg == RSP - RAX ? 0x24 : -1,
-      };
-
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (noofs) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-      return p;
+      return code->buf;
     }
+    return NULL;
   }
-  return NULL;
+  return put_mem(code->buf, REG64, -1, -1, 0x8d, opr_regno(&inst->opr[1].reg), &inst->opr[0]);
 }
 
 static unsigned char *asm_add_rr(Inst *inst, Code *code) {
@@ -769,9 +537,9 @@ static unsigned char *asm_add_rr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_add_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
+  enum RegSize size = inst->opr[1].reg.size;
+  long value = signed_immediate(inst->opr[0].immediate, size);
   if (is_im32(value)) {
-    enum RegSize size = inst->opr[1].reg.size;
     bool im8 = is_im8(value) || size == REG8;
     int d = opr_regno(&inst->opr[1].reg);
     unsigned char *p = code->buf;
@@ -799,83 +567,24 @@ static unsigned char *asm_add_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_add_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[1].reg.size;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        opr_regno(&inst->opr[1].reg),
-        opr_regno(&inst->opr[0].indirect.reg),
-        0x02, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
-}
-
-static unsigned char *asm_add_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x03,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  enum RegSize size = inst->opr[1].reg.size;
+  return put_mem(code->buf, size, -1, -1, size == REG8 ? 0x02 : 0x3, opr_regno(&inst->opr[1].reg), &inst->opr[0]);
 }
 
 static unsigned char *asm_addq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
-      long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x00 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-      short buf[] = {
-        (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
-        (is_im8(value) ? 0x83 : 0x81),
-        op | (dno & 7) | ((sno & 7) << 3),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset == 0 && (dno & 7) != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-
-      if (is_im8(value)) {
-        *p++ = IM8(value);
-      } else {
-        PUT_CODE(p, IM32(value));
-        p += 4;
-      }
-      return p;
-    }
+  long value = inst->opr[0].immediate;
+  if (!is_im32(value))
+    return NULL;
+  unsigned char *p = put_mem(code->buf, REG64, -1, -1, is_im8(value) ? 0x83 : 0x81, 0, &inst->opr[1]);
+  if (p == NULL)
+    return NULL;
+  if (is_im8(value)) {
+    *p++ = IM8(value);
+  } else {
+    PUT_CODE(p, IM32(value));
+    p += 4;
   }
-  return NULL;
+  return p;
 }
 
 static unsigned char *asm_sub_rr(Inst *inst, Code *code) {
@@ -887,9 +596,9 @@ static unsigned char *asm_sub_rr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_sub_imr(Inst *inst, Code *code) {
-  long value = inst->opr[0].immediate;
+  enum RegSize size = inst->opr[1].reg.size;
+  long value = signed_immediate(inst->opr[0].immediate, size);
   if (is_im32(value)) {
-    enum RegSize size = inst->opr[1].reg.size;
     bool im8 = is_im8(value) || size == REG8;
     int d = opr_regno(&inst->opr[1].reg);
     unsigned char *p = code->buf;
@@ -917,83 +626,24 @@ static unsigned char *asm_sub_imr(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_sub_ir(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.offset.expr->kind == EX_FIXNUM && inst->opr[0].indirect.reg.no != RIP) {
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    enum RegSize size = inst->opr[1].reg.size;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        opr_regno(&inst->opr[1].reg),
-        opr_regno(&inst->opr[0].indirect.reg),
-        0x2a, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
-}
-
-static unsigned char *asm_sub_iir(Inst *inst, Code *code) {
-  assert(inst->opr[0].indirect_with_index.offset->kind == EX_FIXNUM && inst->opr[0].indirect_with_index.offset->fixnum == 0);  // TODO
-  unsigned char scale = 0;
-  if (inst->opr[0].indirect_with_index.scale != NULL) {
-    assert(inst->opr[0].indirect_with_index.scale->kind == EX_FIXNUM);
-    int s = inst->opr[0].indirect_with_index.scale->fixnum;
-    scale = most_significant_bit(s);
-    assert(IS_POWER_OF_2(scale) && scale < 4);
-  }
-
-  unsigned char bno = inst->opr[0].indirect_with_index.base_reg.no;
-  unsigned char ino = inst->opr[0].indirect_with_index.index_reg.no;
-  unsigned char dno = inst->opr[1].reg.no;
-  short buf[] = {
-    (unsigned char)0x48 | (inst->opr[0].indirect_with_index.base_reg.x) | (inst->opr[0].indirect_with_index.index_reg.x << 1) | (inst->opr[1].reg.x << 2),
-    0x2b,
-    0x04 | (dno << 3),
-    bno | (ino << 3) | (scale << 6),
-  };
-  unsigned char *p = code->buf;
-  p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-  return p;
+  enum RegSize size = inst->opr[1].reg.size;
+  return put_mem(code->buf, size, -1, -1, size == REG8 ? 0x2a : 0x2b, opr_regno(&inst->opr[1].reg), &inst->opr[0]);
 }
 
 static unsigned char *asm_subq_imi(Inst *inst, Code *code) {
-  if (inst->opr[1].indirect.offset.expr->kind == EX_FIXNUM) {
-    long value = inst->opr[0].immediate;
-    if (is_im32(value)) {
-      long offset = inst->opr[1].indirect.offset.expr->fixnum;
-      unsigned char sno = 0;
-      unsigned char dno = opr_regno(&inst->opr[1].indirect.reg);
-      unsigned char op = (offset == 0 && (dno & 7) != RBP - RAX) ? 0x28 : is_im8(offset) ? (unsigned char)0x40 : (unsigned char)0x80;
-      short buf[] = {
-        (unsigned char)0x48 | ((dno & 8) >> 3) | ((sno & 8) >> 1),
-        (is_im8(value) ? 0x83 : 0x81),
-        op | (dno & 7) | ((sno & 7) << 3),
-        (dno & 7) == RSP - RAX ? 0x24 : -1,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset == 0 && (dno & 7) != RBP - RAX) {
-        ;
-      } else if (is_im8(offset)) {
-        *p++ = IM8(offset);
-      } else if (is_im32(offset)) {
-        PUT_CODE(p, IM32(offset));
-        p += 4;
-      }
-
-      if (is_im8(value)) {
-        *p++ = IM8(value);
-      } else {
-        PUT_CODE(p, IM32(value));
-        p += 4;
-      }
-      return p;
-    }
+  long value = inst->opr[0].immediate;
+  if (!is_im32(value))
+    return NULL;
+  unsigned char *p = put_mem(code->buf, REG64, -1, -1, is_im8(value) ? 0x83 : 0x81, 5, &inst->opr[1]);
+  if (p == NULL)
+    return NULL;
+  if (is_im8(value)) {
+    *p++ = IM8(value);
+  } else {
+    PUT_CODE(p, IM32(value));
+    p += 4;
   }
-  return NULL;
+  return p;
 }
 
 static unsigned char *asm_mul_r(Inst *inst, Code *code) {
@@ -1038,14 +688,16 @@ static unsigned char *asm_idiv_r(Inst *inst, Code *code) {
 static unsigned char *asm_neg_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd8, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd8, opr_regno(&inst->opr[0].reg),
+               inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
 static unsigned char *asm_not_r(Inst *inst, Code *code) {
   unsigned char *p = code->buf;
   p = put_rex1(p, inst->opr[0].reg.size,
-               0xd0, opr_regno(&inst->opr[0].reg), 0xf7);
+               0xd0, opr_regno(&inst->opr[0].reg),
+               inst->opr[0].reg.size == REG8 ? 0xf6 : 0xf7);
   return p;
 }
 
@@ -1058,21 +710,8 @@ static unsigned char *asm_inc_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_incbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    enum RegSize size = inst->op + (REG8 - INCB);
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        0, opr_regno(&inst->opr[0].indirect.reg),
-        0xfe, 0x00, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  enum RegSize size = inst->op + (REG8 - INCB);
+  return put_mem(code->buf, size, -1, -1, size == REG8 ? 0xfe : 0xff, 0, &inst->opr[0]);
 }
 
 static unsigned char *asm_dec_r(Inst *inst, Code *code) {
@@ -1084,21 +723,8 @@ static unsigned char *asm_dec_r(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_decbwlq_i(Inst *inst, Code *code) {
-  if (inst->opr[0].indirect.reg.no != RIP) {
-    enum RegSize size = inst->op + (REG8 - DECB);
-    long offset = inst->opr[0].indirect.offset.expr->fixnum;
-    unsigned char *p = code->buf;
-    short buf[] = {
-      MAKE_REX_INDIRECT(
-        size,
-        1, opr_regno(&inst->opr[0].indirect.reg),
-        0xfe, 0x08, offset),
-      MAKE_OFFSET(offset, inst->opr[0].indirect.reg.no != RBP - RAX),
-    };
-    p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-    return p;
-  }
-  return NULL;
+  enum RegSize size = inst->op + (REG8 - DECB);
+  return put_mem(code->buf, size, -1, -1, size == REG8 ? 0xfe : 0xff, 1, &inst->opr[0]);
 }
 
 static unsigned char *asm_and_rr(Inst *inst, Code *code) {
@@ -1428,66 +1054,7 @@ static unsigned char *asm_jmp_der(Inst *inst, Code *code) {
 }
 
 static unsigned char *asm_jmp_dei(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect.offset.expr;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    if (is_im32(offset)) {
-      short offset_bit = offset == 0 ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
-      short b = inst->opr[0].indirect.reg.no;
-      short buf[] = {
-        inst->opr[0].indirect.reg.x ? 0x41 : -1,
-        0xff, offset_bit | b,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0) {
-        if (is_im8(offset)) {
-          *p++ = IM8(offset);
-        } else {
-          PUT_CODE(p, IM32(offset));
-          p += 4;
-        }
-      }
-      return p;
-    }
-  }
-  return NULL;
-}
-
-static unsigned char *asm_jmp_deii(Inst *inst, Code *code) {
-  Expr *offset_expr = inst->opr[0].indirect_with_index.offset;
-  Expr *scale_expr = inst->opr[0].indirect_with_index.scale;
-  if ((offset_expr == NULL || offset_expr->kind == EX_FIXNUM) &&
-      (scale_expr == NULL || scale_expr->kind == EX_FIXNUM)) {
-    long offset = offset_expr != NULL ? offset_expr->fixnum : 0;
-    long scale = scale_expr != NULL ? scale_expr->fixnum : 1;
-    if (is_im32(offset) && 1 <= scale && scale <= 8 && IS_POWER_OF_2(scale)) {
-      short b = inst->opr[0].indirect_with_index.base_reg.no;
-      short scale_bit = most_significant_bit(scale);
-      assert(IS_POWER_OF_2(scale) && scale_bit < 4);
-      short i = inst->opr[0].indirect_with_index.index_reg.no;
-      short prefix = inst->opr[0].indirect_with_index.base_reg.x | (inst->opr[0].indirect_with_index.index_reg.x << 1);
-      short offset_bit = offset == 0 && b != RBP - RAX ? 0x20 : is_im8(offset) ? 0x60 : 0xa0;
-      short buf[] = {
-        prefix != 0 ? 0x40 | prefix : -1,
-        0xff,
-        offset_bit | 0x04,
-        (scale_bit << 6) | (i << 3) | b,
-      };
-      unsigned char *p = code->buf;
-      p = put_code_filtered(p, buf, ARRAY_SIZE(buf));
-      if (offset != 0 || b == RBP - RAX) {
-        if (is_im8(offset)) {
-          *p++ = IM8(offset);
-        } else {
-          PUT_CODE(p, IM32(offset));
-          p += 4;
-        }
-      }
-      return p;
-    }
-  }
-  return NULL;
+  return put_mem(code->buf, REG32, -1, -1, 0xff, 4, &inst->opr[0]);
 }
 
 static unsigned char *asm_jxx_d(Inst *inst, Code *code) {
@@ -1536,9 +1103,9 @@ static const AsmInstFunc table[] = {
   [MOV_IMR] = asm_mov_imr,
   [MOV_IR] = asm_mov_ir,
   [MOV_RI] = asm_mov_ri,
-  [MOV_IIR] = asm_mov_iir,
-  [MOV_DR] = asm_mov_dr,
-  [MOV_RD] = asm_mov_rd,
+  [MOV_IIR] = asm_mov_ir,
+  [MOV_DR] = asm_mov_ir,
+  [MOV_RD] = asm_mov_ri,
   [MOV_SR] = asm_mov_sr,
   [MOVB_IMI] = asm_movbwlq_imi,
   [MOVW_IMI] = asm_movbwlq_imi,
@@ -1550,16 +1117,16 @@ static const AsmInstFunc table[] = {
   [MOVQ_IMD] = asm_movbwlq_imd,
   [MOVSX] = asm_movszx_rr,  [MOVZX] = asm_movszx_rr,
   [LEA_IR] = asm_lea_ir,
-  [LEA_IIR] = asm_lea_iir,
+  [LEA_IIR] = asm_lea_ir,
   [ADD_RR] = asm_add_rr,
   [ADD_IMR] = asm_add_imr,
   [ADD_IR] = asm_add_ir,
-  [ADD_IIR] = asm_add_iir,
+  [ADD_IIR] = asm_add_ir,
   [ADDQ] = asm_addq_imi,
   [SUB_RR] = asm_sub_rr,
   [SUB_IMR] = asm_sub_imr,
   [SUB_IR] = asm_sub_ir,
-  [SUB_IIR] = asm_sub_iir,
+  [SUB_IIR] = asm_sub_ir,
   [SUBQ] = asm_subq_imi,
   [MUL] = asm_mul_r,
   [DIV] = asm_div_r,
@@ -1595,7 +1162,7 @@ static const AsmInstFunc table[] = {
   [JMP_D] = asm_jmp_d,
   [JMP_DER] = asm_jmp_der,
   [JMP_DEI] = asm_jmp_dei,
-  [JMP_DEII] = asm_jmp_deii,
+  [JMP_DEII] = asm_jmp_dei,
   [JO] = asm_jxx_d,  [JNO] = asm_jxx_d,  [JB] = asm_jxx_d,  [JAE] = asm_jxx_d,
   [JE] = asm_jxx_d,  [JNE] = asm_jxx_d,  [JBE] = asm_jxx_d,  [JA] = asm_jxx_d,
   [JS] = asm_jxx_d,  [JNS] = asm_jxx_d,  [JP] = asm_jxx_d,  [JNP] = asm_jxx_d,
@@ -1632,10 +1199,42 @@ static const AsmInstFunc table[] = {
   [ENDBR64] = asm_endbr64,
 };
 
+// AH~BH cannot be used with REX prefix.
+static bool check_high_reg8(const Inst *inst) {
+  bool high = false, rex = false;
+  for (int i = 0; i < (int)ARRAY_SIZE(inst->opr); ++i) {
+    const Operand *opr = &inst->opr[i];
+    switch (opr->type) {
+    case REG:
+      if (opr->reg.size == REG8 && opr->reg.x == 0 && opr->reg.no >= 4)
+        high = true;
+      if (opr->reg.x != 0 || opr->reg.size == REG64)
+        rex = true;
+      break;
+    case INDIRECT:
+      if (opr->indirect.reg.x != 0)
+        rex = true;
+      break;
+    case INDIRECT_WITH_INDEX:
+      if (opr->indirect_with_index.base_reg.x != 0 || opr->indirect_with_index.index_reg.x != 0)
+        rex = true;
+      break;
+    default:
+      break;
+    }
+  }
+  return !(high && rex);
+}
+
 void assemble_inst(Inst *inst, ParseInfo *info, Code *code) {
   code->flag = 0;
   code->len = 0;
 
+  if (!check_high_reg8(inst)) {
+    assemble_error(info, "Illegal operand");
+    return;
+  }
+
   const AsmInstFunc *func = NULL;
   if (inst->op < (enum Opcode)ARRAY_SIZE(table)) {
     func = &table[inst->op];
diff --git a/src/as/arch/x64/parse_x64.c b/src/as/arch/x64/parse_x64.c
index 4b3043a..390db3f 100644
--- a/src/as/arch/x64/parse_x64.c
+++ b/src/as/arch/x64/parse_x64.c
@@ -306,7 +306,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, ExprWithFlag *offse
     if (*info->p == ',') {
       info->p = skip_whitespaces(info->p + 1);
       scale = parse_expr(info);
-      if (scale->kind != EX_FIXNUM)
+      if (scale == NULL || scale->kind != EX_FIXNUM)
         parse_error(info, "constant value expected");
       info->p = skip_whitespaces(info->p);
     }
@@ -387,7 +387,7 @@ static unsigned int parse_deref_indirect(ParseInfo *info, Operand *operand) {
     if (*info->p == ',') {
       info->p = skip_whitespaces(info->p + 1);
       scale = parse_expr(info);
-      if (scale->kind != EX_FIXNUM)
+      if (scale == NULL || scale->kind != EX_FIXNUM)
         parse_error(info, "constant value expected");
       info->p = skip_whitespaces(info->p);
     }
-- 
2.43.0


From 8414bc2edca2e10cf4eab152af968b6da494b732 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 058/162] fix: assembler expressions, literals, escapes and
 directive operands are parsed wrongly

---
 src/as/ir_asm.h    |   2 +-
 src/as/parse_asm.c | 195 +++++++++++++++++++++++++++++++--------------
 src/as/parse_asm.h |   1 +
 3 files changed, 137 insertions(+), 61 deletions(-)

diff --git a/src/as/ir_asm.h b/src/as/ir_asm.h
index 365e401..760a6b8 100644
--- a/src/as/ir_asm.h
+++ b/src/as/ir_asm.h
@@ -43,7 +43,7 @@ typedef struct {
   const Name *label;
   uintptr_t offset;
   SectionInfo *src_section;
-  int add;
+  int64_t add;
   enum UnresolvedKind kind;
 } UnresolvedInfo;
 
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 3f9d160..9a5ec5e 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -300,13 +300,9 @@ static Token *new_token(enum TokenKind kind) {
 static Token *read_flonum(ParseInfo *info, int base) {
   const char *start = info->p;
   char *next;
-#ifdef __XCC
-  // long double in XCC is same as double, and if the target platform uses
-  // system library, it makes discrepancy.
+  // `strtold` makes discrepancy: long double in XCC is same as double,
+  // and converting its result to double rounds the value twice.
   Flonum val = strtod(start, &next);
-#else
-  Flonum val = strtold(start, &next);
-#endif
   Token *tok = new_token(TK_FLONUM);
   tok->flonum = val;
   info->p = next;
@@ -347,6 +343,12 @@ static const Token *fetch_token(ParseInfo *info) {
           p += 2;
           base = 16;
         }
+      } else if (c == '0') {
+        const char *r = p;
+        while (isdigit(*r))
+          ++r;
+        if (*r != '.' && tolower(*r) != 'e')
+          base = 8;
       }
       char *q;
       unsigned long long v = strtoull(p, &q, base);
@@ -372,7 +374,13 @@ static const Token *fetch_token(ParseInfo *info) {
       }
     }
     break;
-  case '+': case '-': case '*': case '/':
+  case '/':
+    if (p[1] == '*' || p[1] == '/') {  // Comment.
+      info->p = p;
+      return &kTokEOF;
+    }
+    // Fallthrough
+  case '+': case '-': case '*':
     {
       enum TokenKind kind;
       switch (c) {
@@ -412,14 +420,19 @@ static const Token *fetch_token(ParseInfo *info) {
 
 static const Token *match(ParseInfo *info, enum TokenKind kind) {
   const Token *token = info->prefetched;
-  if (token == NULL)
+  if (token == NULL) {
+    // Keep the position until the token is consumed.
+    const char *p = info->p;
     token = fetch_token(info);
-
-  if (token->kind != kind) {
     info->prefetched = token;
-    return NULL;
+    info->prefetched_end = info->p;
+    info->p = p;
   }
+
+  if (token->kind != kind)
+    return NULL;
   info->prefetched = NULL;
+  info->p = info->prefetched_end;
   return token;
 }
 
@@ -509,7 +522,12 @@ static Expr *parse_mul(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
-      case TK_DIV:  lhs->fixnum += rhs->fixnum; break;
+      case TK_DIV:
+        if (rhs->fixnum == 0)
+          parse_error(info, "divide by zero");
+        else
+          lhs->fixnum /= rhs->fixnum;
+        break;
       default:  assert(false); break;
       }
     } else {
@@ -539,7 +557,7 @@ static Expr *parse_add(ParseInfo *info) {
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
       case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum += rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
@@ -672,25 +690,42 @@ Line *parse_line(ParseInfo *info) {
     if (label == NULL) {
       parse_error(info, "Illegal label");
     } else {
-      info->p = p;
       line->label = label;
-      info->p = r + 1;
     }
-  } else {
-    if (*p == '.') {
-      enum DirectiveType dir = find_directive(p + 1, q - p - 1);
-      if (dir == NODIRECTIVE) {
-        parse_error(info, "Unknown directive");
-        return NULL;
-      }
-      line->dir = dir;
-      info->p = r;
-    } else if (*p != '\0') {
-      info->p = p;
-      parse_inst(info, line);
+
+    // An instruction or a directive can follow the label.
+    info->p = p = skip_whitespaces(r + 1);
+    if (*p == '\0' || *p == '/') {
       check_line_end(info);
+      return line;
+    }
+    q = get_label_end(info);
+    if (q == NULL)
+      return line;
+    r = skip_whitespaces(q);
+    if (*r == ':') {
+      parse_error(info, "Syntax error");
+      return line;
     }
   }
+
+  if (*p == '.') {
+    enum DirectiveType dir = find_directive(p + 1, q - p - 1);
+    if (dir == NODIRECTIVE) {
+      parse_error(info, "Unknown directive");
+      return line;
+    }
+    line->dir = dir;
+    info->p = r;
+  } else if (*p != '\0') {
+    info->p = p;
+    int error_count = info->error_count;
+    parse_inst(info, line);
+    check_line_end(info);
+    bool comment = *p == '/' && (p[1] == '/' || p[1] == '*');
+    if (line->inst.op == NOOP && !comment && info->error_count == error_count)
+      parse_error(info, "Illegal operand");
+  }
   return line;
 }
 
@@ -703,18 +738,24 @@ static char unescape_char(ParseInfo *info) {
   const char *p = info->p;
   char c = *p++;
   switch (c) {
-  case '0':  return '\0';
+  case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7':
+    {
+      int value = c - '0';
+      for (int i = 1; i < 3 && *p >= '0' && *p <= '7'; ++i, ++p)
+        value = (value << 3) | (*p - '0');
+      info->p = p - 1;
+      return value;
+    }
   case 'x':
     {
-      c = 0;
-      for (int i = 0; i < 2; ++i, ++p) {
-        int v = xvalue(*p);
-        if (v < 0)
-          break;  // TODO: Error
-        c = (c << 4) | v;
-      }
+      int value = 0;
+      int v;
+      if (xvalue(*p) < 0)
+        parse_error(info, "Illegal escape");
+      for (; (v = xvalue(*p)) >= 0; ++p)
+        value = ((value << 4) | v) & 0xff;
       info->p = p - 1;
-      return c;
+      return value;
     }
   case 'a':  return '\a';
   case 'b':  return '\b';
@@ -736,8 +777,10 @@ static size_t unescape_string(ParseInfo *info, char *dst) {
   size_t len = 0;
   for (; *info->p != '"'; ++info->p, ++len) {
     char c = *info->p;
-    if (c == '\0')
+    if (c == '\0' || (c == '\\' && info->p[1] == '\0')) {
       parse_error(info, "string not closed");
+      return len;
+    }
     if (c == '\\') {
       ++info->p;
       c = unescape_char(info);
@@ -787,6 +830,16 @@ static uint32_t parse_section_flag(ParseInfo *info) {
 }
 #endif
 
+// Data directives take a list of items.
+static bool next_item(ParseInfo *info) {
+  const char *p = skip_whitespaces(info->p);
+  if (*p != ',')
+    return false;
+  info->p = skip_whitespaces(p + 1);
+  info->prefetched = NULL;
+  return true;
+}
+
 void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   SectionInfo *section = info->current_section;
   Vector *irs = section->irs;
@@ -796,9 +849,11 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
     break;
   case DT_ASCII:
   case DT_STRING:
-    {
-      if (*info->p != '"')
+    do {
+      if (*info->p != '"') {
         parse_error(info, "`\"' expected");
+        break;
+      }
       ++info->p;
       const char *p = info->p;
       size_t len = unescape_string(info, NULL);
@@ -809,7 +864,8 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       unescape_string(info, str);
 
       vec_push(irs, new_ir_data(str, len));
-    }
+    } while (next_item(info));
+    check_line_end(info);
     break;
 
   case DT_COMM:
@@ -859,14 +915,18 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       label->size = size;
       label->align = align;
       label->flag |= LF_COMM;
+      check_line_end(info);
     }
     break;
 
   case DT_ZERO:
     {
       int64_t num;
-      if (!immediate(&info->p, &num))
+      if (!immediate(&info->p, &num) || num < 0) {
         parse_error(info, ".zero: number expected");
+        break;
+      }
+      check_line_end(info);
       vec_push(irs, new_ir_zero(num));
     }
     break;
@@ -886,16 +946,23 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_ALIGN:
     {
       int64_t align;
-      if (!immediate(&info->p, &align))
+      if (!immediate(&info->p, &align) || align < 0 || align > (1 << 30) || !IS_POWER_OF_2(align)) {
         parse_error(info, ".align: number expected");
-      vec_push(irs, new_ir_align(align));
+        break;
+      }
+      check_line_end(info);
+      if (align > 1)
+        vec_push(irs, new_ir_align(align));
     }
     break;
   case DT_P2ALIGN:
     {
       int64_t align;
-      if (!immediate(&info->p, &align))
-        parse_error(info, ".align: number expected");
+      if (!immediate(&info->p, &align) || align < 0 || align > 30) {
+        parse_error(info, ".p2align: number expected");
+        break;
+      }
+      check_line_end(info);
       vec_push(irs, new_ir_align(1 << align));
     }
     break;
@@ -933,14 +1000,13 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   case DT_SHORT:
   case DT_LONG:
   case DT_QUAD:
-    {
+    do {
       Expr *expr = parse_expr(info);
-      if (expr == NULL) {
+      if (expr == NULL || expr->kind == EX_FLONUM) {
         parse_error(info, "expression expected");
         break;
       }
 
-      assert(expr->kind != EX_FLONUM);
       if (expr->kind == EX_FIXNUM) {
         // TODO: Target endian.
         long value = expr->fixnum;
@@ -952,13 +1018,14 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       } else {
         vec_push(irs, new_ir_expr((enum IrKind)(IR_EXPR_BYTE + (dir - DT_BYTE)), expr));
       }
-    }
+    } while (next_item(info));
+    check_line_end(info);
     break;
 
 #ifndef __NO_FLONUM
   case DT_FLOAT:
   case DT_DOUBLE:
-    {
+    do {
       Expr *expr = parse_expr(info);
       if (expr == NULL) {
         parse_error(info, "expression expected");
@@ -970,7 +1037,7 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
       case EX_FIXNUM:  value = expr->fixnum; break;
       case EX_FLONUM:  value = expr->flonum; break;
       default:
-        assert(false);
+        parse_error(info, "constant expected");
         value = -1;
         break;
       }
@@ -989,14 +1056,15 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         memcpy(buf, (void*)&dval, sizeof(dval));  // TODO: Endian
       }
       vec_push(irs, new_ir_data(buf, size));
-    }
+    } while (next_item(info));
+    check_line_end(info);
     break;
 #endif
 
   case DT_GLOBL:
   case DT_LOCAL:
   case DT_WEAK:
-    {
+    do {
       const Name *name = parse_label(info);
       if (name == NULL) {
         char buf[32];
@@ -1012,7 +1080,8 @@ void handle_directive(ParseInfo *info, enum DirectiveType dir) {
         if (dir == DT_WEAK)
           label->flag |= LF_WEAK;
       }
-    }
+    } while (next_item(info));
+    check_line_end(info);
     break;
 
   case DT_SECTION:
@@ -1093,8 +1162,9 @@ Value calc_expr(Table *label_table, const Expr *expr) {
         if (expr->kind == EX_SUB && lhs.label != NULL) {
           LabelInfo *llabel, *rlabel;
           if (table_try_get(label_table, lhs.label, (void**)&llabel) &&
-              table_try_get(label_table, rhs.label, (void**)&rlabel)) {
-            return (Value){.label = NULL, .offset = llabel->address - rlabel->address};
+              table_try_get(label_table, rhs.label, (void**)&rlabel) &&
+              (llabel->flag & rlabel->flag & LF_DEFINED) && llabel->section == rlabel->section) {
+            return (Value){.label = NULL, .offset = llabel->address - rlabel->address + lhs.offset - rhs.offset};
           } else {
             error("Unresolved");
           }
@@ -1106,11 +1176,12 @@ Value calc_expr(Table *label_table, const Expr *expr) {
         return (Value){.label = rhs.label, .offset = lhs.offset + rhs.offset};
       }
       if (lhs.label != NULL) {
-        if (expr->kind != EX_ADD) {
+        if (expr->kind != EX_ADD && expr->kind != EX_SUB) {
           error("Illegal expression");
         }
-        // label + offset
-        return (Value){.label = lhs.label, .offset = lhs.offset + rhs.offset};
+        // label +/- offset
+        int64_t offset = expr->kind == EX_ADD ? rhs.offset : -rhs.offset;
+        return (Value){.label = lhs.label, .offset = lhs.offset + offset};
       }
 
       assert(lhs.label == NULL && rhs.label == NULL);
@@ -1118,7 +1189,11 @@ Value calc_expr(Table *label_table, const Expr *expr) {
       case EX_ADD:  lhs.offset += rhs.offset; break;
       case EX_SUB:  lhs.offset -= rhs.offset; break;
       case EX_MUL:  lhs.offset *= rhs.offset; break;
-      case EX_DIV:  lhs.offset /= rhs.offset; break;
+      case EX_DIV:
+        if (rhs.offset == 0)
+          error("divide by zero");
+        lhs.offset /= rhs.offset;
+        break;
       default: assert(false); break;
       }
       return lhs;
diff --git a/src/as/parse_asm.h b/src/as/parse_asm.h
index 1e2a78b..e5f786e 100644
--- a/src/as/parse_asm.h
+++ b/src/as/parse_asm.h
@@ -72,6 +72,7 @@ typedef struct ParseInfo {
   int error_count;
 
   const Token *prefetched;
+  const char *prefetched_end;
 
   Table *section_infos;  // <SectionInfo*>
   Table *label_table;
-- 
2.43.0


From d069befdcdc413968977414dd382396b301a637b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 059/162] fix: object files lose sections and undefined
 symbols, and their section order depends on addresses

---
 src/as/as.c       |  7 ++++---
 src/as/emit_elf.c | 18 +++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/as/as.c b/src/as/as.c
index 30f02a6..24aa0b9 100644
--- a/src/as/as.c
+++ b/src/as/as.c
@@ -78,8 +78,6 @@ static void fix_section_size(Vector *sections, uintptr_t start_address) {
   uintptr_t addr = start_address;
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
-      continue;
     section->start_address = addr = ALIGN(addr, section->align);
     addr += (section->flag & SF_BSS) ? section->bss_size : section->ds->len;
   }
@@ -109,7 +107,10 @@ static int cmp_section(const void *pa, const void *pb) {
   int d = ka - kb;
   if (d != 0)
     return d;
-  return pa < pb ? -1 : 1;
+  // The order must not depend on the sorting algorithm.
+  const Name *na = sa->name, *nb = sb->name;
+  d = memcmp(na->chars, nb->chars, MIN(na->bytes, nb->bytes));
+  return d != 0 ? d : na->bytes - nb->bytes;
 }
 
 static Vector *sort_sections(Table *section_infos) {
diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 5e28cdd..8d02654 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -96,7 +96,7 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
   // SECTION
   for (int i = 0; i < sections->len; ++i) {
     SectionInfo *section = sections->data[i];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (section->irs->len <= 0)
       continue;
     sym = symtab_add(symtab, nulname);
     sym->st_info = ELF64_ST_INFO(STB_LOCAL, STT_SECTION);
@@ -127,9 +127,9 @@ static int construct_symtab(Symtab *symtab, Vector *sections, Table *label_table
     sym->st_info = ELF64_ST_INFO(bind, type);
     sym->st_value = (info->flag & LF_DEFINED) ? info->address - info->section->start_address : 0;
     sym->st_size = info->size;
-    assert(info->section == NULL || info->section->index > 0);
     Elf64_Section shndx = SHN_UNDEF;
-    if (info->section != NULL) {
+    if (info->flag & LF_DEFINED) {
+      assert(info->section->index > 0);
       if ((info->flag & (LF_COMM | LF_GLOBAL)) == (LF_COMM | LF_GLOBAL))
         shndx = SHN_COMMON;
       else
@@ -324,7 +324,7 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   int out_section_count = 0;
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    if ((section->flag & SF_BSS ? section->bss_size : section->ds->len) <= 0)
+    if (section->irs->len <= 0)
       continue;
     section->index = ++out_section_count;
   }
@@ -340,11 +340,11 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   uint64_t addr = sizeof(Elf64_Ehdr);
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    size_t size;
-    if (section->ds == NULL || (size = section->ds->len) <= 0)
+    if (section->irs->len <= 0)
       continue;
     section->offset = addr = ALIGN(addr, ELF_MIN_ALIGN);
-    addr += size;
+    if (section->ds != NULL)
+      addr += section->ds->len;
   }
 
   for (int sec = 0; sec < sections->len; ++sec) {
@@ -386,9 +386,9 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   const Name *fini_array_name = alloc_name(".fini_array", NULL, false);
   for (int sec = 0; sec < sections->len; ++sec) {
     SectionInfo *section = sections->data[sec];
-    size_t size = section->ds != NULL ? section->ds->len : section->bss_size;
-    if (size <= 0)
+    if (section->irs->len <= 0)
       continue;
+    size_t size = section->ds != NULL ? section->ds->len : section->bss_size;
     Elf64_Xword flags = SHF_ALLOC;
     if (section->flag & SF_EXECUTABLE)
       flags |= SHF_EXECINSTR;
-- 
2.43.0


From 1f2ed04083b1c19b5a1ad99dc2a56e741089792c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 060/162] fix: assembler emits wrong relocations for labels in
 data and jumps, and pads code with zeros

---
 src/as/arch/aarch64/ir_asm_aarch64.c | 28 ++++++++++----
 src/as/arch/riscv64/ir_asm_riscv64.c | 26 ++++++++++---
 src/as/arch/x64/ir_asm_x64.c         | 55 +++++++++++++++++-----------
 3 files changed, 74 insertions(+), 35 deletions(-)

diff --git a/src/as/arch/aarch64/ir_asm_aarch64.c b/src/as/arch/aarch64/ir_asm_aarch64.c
index 4f28143..65ff4ae 100644
--- a/src/as/arch/aarch64/ir_asm_aarch64.c
+++ b/src/as/arch/aarch64/ir_asm_aarch64.c
@@ -26,10 +26,19 @@ static void sec_align_size(SectionInfo *section, size_t align) {
   if (align > section->align)
     section->align = align;
 
-  if (section->flag & SF_BSS)
+  if (section->flag & SF_BSS) {
     section->bss_size = ALIGN(section->bss_size, align);
-  else
-    data_align(section->ds, align);
+    return;
+  }
+
+  if (section->flag & SF_EXECUTABLE) {
+    // The padding might be executed, so fill it with nops.
+    static const unsigned char kNop[] = {0x1f, 0x20, 0x03, 0xd5};
+    size_t end = ALIGN(section->ds->len, align);
+    while (end - section->ds->len >= sizeof(kNop) && section->ds->len % sizeof(kNop) == 0)
+      data_append(section->ds, kNop, sizeof(kNop));
+  }
+  data_align(section->ds, align);
 }
 
 bool calc_label_address(uint64_t start_address, Vector *sections, Table *label_table) {
@@ -252,14 +261,21 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          if (value.label == NULL) {
+            ir->expr.addend = value.offset;
+            break;
+          }
+          if (ir->kind != IR_EXPR_QUAD)
+            error("label `%.*s' requires .quad", NAMES(value.label));
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
           info->src_section = section;
           info->offset = address - start_address;
           info->add = value.offset;
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           ir->expr.addend = value.offset;
+#endif
           vec_push(unresolved, info);
         }
         break;
@@ -310,11 +326,7 @@ void emit_irs(Vector *sections) {
       case IR_EXPR_LONG:
       case IR_EXPR_QUAD:
         {
-#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           int64_t value = ir->expr.addend;
-#else
-          int64_t value = 0;
-#endif
           int size = 1 << (ir->kind - IR_EXPR_BYTE);
           sec_add_data(section, &value, size);  // TODO: Target endian
         }
diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index 83ca624..77faf3a 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -40,10 +40,19 @@ static void sec_align_size(SectionInfo *section, size_t align) {
   if (align > section->align)
     section->align = align;
 
-  if (section->flag & SF_BSS)
+  if (section->flag & SF_BSS) {
     section->bss_size = ALIGN(section->bss_size, align);
-  else
-    data_align(section->ds, align);
+    return;
+  }
+
+  if (section->flag & SF_EXECUTABLE) {
+    // The padding might be executed, so fill it with nops.
+    static const unsigned char kNop[] = {0x13, 0x00, 0x00, 0x00};  // addi zero, zero, 0
+    size_t end = ALIGN(section->ds->len, align);
+    while (end - section->ds->len >= sizeof(kNop) && section->ds->len % sizeof(kNop) == 0)
+      data_append(section->ds, kNop, sizeof(kNop));
+  }
+  data_align(section->ds, align);
 }
 
 bool calc_label_address(uint64_t start_address, Vector *sections, Table *label_table) {
@@ -383,7 +392,12 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          if (value.label == NULL) {
+            ir->expr.addend = value.offset;
+            break;
+          }
+          if (ir->kind != IR_EXPR_QUAD)
+            error("label `%.*s' requires .quad", NAMES(value.label));
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
@@ -439,9 +453,9 @@ void emit_irs(Vector *sections) {
       case IR_EXPR_LONG:
       case IR_EXPR_QUAD:
         {
-          int64_t zero = 0;
+          int64_t value = ir->expr.addend;
           int size = 1 << (ir->kind - IR_EXPR_BYTE);
-          sec_add_data(section, &zero, size);  // TODO: Target endian
+          sec_add_data(section, &value, size);  // TODO: Target endian
         }
         break;
       }
diff --git a/src/as/arch/x64/ir_asm_x64.c b/src/as/arch/x64/ir_asm_x64.c
index 1f0a20d..9f266e4 100644
--- a/src/as/arch/x64/ir_asm_x64.c
+++ b/src/as/arch/x64/ir_asm_x64.c
@@ -27,10 +27,19 @@ static void sec_align_size(SectionInfo *section, size_t align) {
   if (align > section->align)
     section->align = align;
 
-  if (section->flag & SF_BSS)
+  if (section->flag & SF_BSS) {
     section->bss_size = ALIGN(section->bss_size, align);
-  else
-    data_align(section->ds, align);
+    return;
+  }
+
+  if (section->flag & SF_EXECUTABLE) {
+    // The padding might be executed, so fill it with nops.
+    static const unsigned char kNop[] = {0x90};
+    size_t end = ALIGN(section->ds->len, align);
+    while (section->ds->len < end)
+      data_append(section->ds, kNop, sizeof(kNop));
+  }
+  data_align(section->ds, align);
 }
 
 bool calc_label_address(uint64_t start_address, Vector *sections, Table *label_table) {
@@ -136,17 +145,17 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             if (inst->opr[0].indirect.reg.no == RIP) {
               Value value = calc_expr(label_table, inst->opr[0].indirect.offset.expr);
               if (value.label != NULL) {
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
-                  UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_X64_GOT_LOAD;
-                  info->label = value.label;
-                  info->src_section = section;
-                  info->offset = address + 3 - start_address;
-                  info->add = value.offset - 4;
-                  vec_push(unresolved, info);
-                  break;
-                }
+                UnresolvedInfo *info = malloc_or_die(sizeof(*info));
+                info->kind = inst->opr[0].indirect.offset.flag & LF_GOTPCREL ? UNRES_X64_GOT_LOAD
+                                                                             : UNRES_EXTERN_PC32;
+                info->label = value.label;
+                info->src_section = section;
+                info->offset = address + ir->code.len - 4 - start_address;
+                info->add = value.offset - 4;
+                vec_push(unresolved, info);
+              } else {
+                int64_t offset = value.offset - (address + ir->code.len);
+                put_value(ir->code.buf + ir->code.len - 4, offset, sizeof(int32_t));
               }
             }
             break;
@@ -181,7 +190,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
+                if (label_info == NULL || !(label_info->flag & LF_DEFINED) ||
+                    label_info->section != section || (label_info->flag & LF_WEAK)) {
                   // Make unresolved label jmp to long.
                   size_upgraded |= make_jmp_long(ir);
 
@@ -189,7 +199,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                   info->kind = UNRES_EXTERN;
                   info->label = value.label;
                   info->src_section = section;
-                  info->offset = address + 1 - start_address;
+                  info->offset = address + ir->code.len - 4 - start_address;
                   info->add = value.offset - 4;
                   vec_push(unresolved, info);
                   break;
@@ -243,14 +253,21 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
       case IR_EXPR_QUAD:
         {
           Value value = calc_expr(label_table, ir->expr.expr);
-          assert(value.label != NULL);
+          if (value.label == NULL) {
+            ir->expr.addend = value.offset;
+            break;
+          }
+          if (ir->kind != IR_EXPR_QUAD)
+            error("label `%.*s' requires .quad", NAMES(value.label));
           UnresolvedInfo *info = malloc_or_die(sizeof(*info));
           info->kind = UNRES_ABS64;  // TODO:
           info->label = value.label;
           info->src_section = section;
           info->offset = address - start_address;
           info->add = value.offset;
+#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           ir->expr.addend = value.offset;
+#endif
           vec_push(unresolved, info);
         }
         break;
@@ -301,11 +318,7 @@ void emit_irs(Vector *sections) {
       case IR_EXPR_LONG:
       case IR_EXPR_QUAD:
         {
-#if XCC_TARGET_PLATFORM == XCC_PLATFORM_APPLE
           int64_t value = ir->expr.addend;
-#else
-          int64_t value = 0;
-#endif
           int size = 1 << (ir->kind - IR_EXPR_BYTE);
           sec_add_data(section, &value, size);  // TODO: Target endian
         }
-- 
2.43.0


From 1eaff4390bc45119621be940d6f92f58984a7d9a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:48:00 +0000
Subject: [PATCH 061/162] fix: linker loses bss padding, section alignment and
 unknown sections, and misresolves weak, common and archive symbols

---
 src/ld/ld.c        | 127 +++++++++++++++++++++++++++++++--------------
 src/util/archive.c |   3 +-
 2 files changed, 89 insertions(+), 41 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 2397ac9..e0e0a60 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -101,14 +101,13 @@ void ld_load(LinkEditor *ld, int i, const char *filename) {
   if (strcasecmp(ext, "o") == 0) {
     FILE *fp;
     if (!is_file(filename) || (fp = fopen(filename, "rb")) == NULL) {
-      fprintf(stderr, "cannot open: %s\n", filename);
-    } else {
-      ElfObj *elfobj = read_elf(fp, filename);
-      if (elfobj == NULL)
-        exit(1);
-      file->kind = FK_ELFOBJ;
-      file->elfobj = elfobj;
+      error("cannot open: %s", filename);
     }
+    ElfObj *elfobj = read_elf(fp, filename);
+    if (elfobj == NULL)
+      exit(1);
+    file->kind = FK_ELFOBJ;
+    file->elfobj = elfobj;
   } else if (strcasecmp(ext, "a") == 0) {
     Archive *archive = load_archive(filename);
     if (archive == NULL) {
@@ -184,9 +183,9 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
   switch (ELF64_ST_BIND(sym->st_info)) {
   case STB_LOCAL:
     if (ELF64_ST_TYPE(sym->st_info) == STT_SECTION) {
-      assert(ELF64_R_SYM(rela->r_info) < elfobj->ehdr.e_shnum);
-      const ElfSectionInfo *s = &elfobj->section_infos[ELF64_R_SYM(rela->r_info)];
-      address = s->progbits.address;
+      assert(sym->st_shndx < elfobj->ehdr.e_shnum);
+      const ElfSectionInfo *s = &elfobj->section_infos[sym->st_shndx];
+      address = s->progbits.address + sym->st_value;
     } else {
       Elf64_Section shndx = sym->st_shndx;
       if (shndx == SHN_COMMON) {
@@ -205,7 +204,10 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
     {
       const char *label = &strinfo->strtab.buf[sym->st_name];
       address = ld_symbol_address(ld, alloc_name(label, NULL, false));
-      assert(address != (uint64_t)-1);
+      if (address == (uint64_t)-1) {
+        assert(ELF64_ST_BIND(sym->st_info) == STB_WEAK);
+        address = 0;  // Undefined weak symbol.
+      }
     }
     break;
   default: assert(false); break;
@@ -250,7 +252,14 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
         break;
       case R_X86_64_PC32:
       case R_X86_64_PLT32:
-        *(uint32_t*)p = address - pc;
+        {
+          int64_t offset = address - pc;
+          if (offset != (int32_t)offset) {
+            fprintf(stderr, "Relocation overflow: %s\n", &strinfo->strtab.buf[sym->st_name]);
+            ++error_count;
+          }
+          *(uint32_t*)p = offset;
+        }
         break;
 
 #elif XCC_TARGET_ARCH == XCC_ARCH_AARCH64
@@ -396,6 +405,18 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
   return error_count;
 }
 
+enum {
+  PRIO_WEAK,
+  PRIO_COMMON,
+  PRIO_DEFINED,
+};
+
+static int symbol_priority(const Elf64_Sym *sym) {
+  return ELF64_ST_BIND(sym->st_info) == STB_WEAK ? PRIO_WEAK
+         : sym->st_shndx == SHN_COMMON           ? PRIO_COMMON
+                                                 : PRIO_DEFINED;
+}
+
 static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresolved) {
   ElfSectionInfo *symtab_section = elfobj->symtab_section;
   assert(symtab_section != NULL);
@@ -417,22 +438,23 @@ static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresol
     if (table_try_get(defined, name, (void**)&prev) || table_try_get(generated, name, NULL)) {
       if (sym->st_shndx != SHN_UNDEF) {
         if (prev != NULL) {
-          if (ELF64_ST_BIND(sym->st_info) == STB_WEAK || sym->st_shndx == SHN_COMMON)
-            continue;
-
           Elf64_Sym *prev_sym = table_get(prev->symbol_table, name);
           assert(prev_sym != NULL);
-          if (ELF64_ST_BIND(prev_sym->st_info) == STB_WEAK || prev_sym->st_shndx == SHN_COMMON) {
-            table_put(defined, name, elfobj);  // Overwrite common symbol with defined symbol.
+          // Priority: defined, common (the biggest one), weak. The first one remains otherwise.
+          int prio = symbol_priority(sym), prev_prio = symbol_priority(prev_sym);
+          if (prio > prev_prio || (sym->st_shndx == SHN_COMMON && prio == prev_prio &&
+                                   sym->st_size > prev_sym->st_size))
+            table_put(defined, name, elfobj);
+          if (MIN(prio, prev_prio) < PRIO_DEFINED)
             continue;
-          }
         }
         fprintf(stderr, "Duplicate symbol: %.*s\n", NAMES(name));
         ++error_count;
       }
     } else {
       if (sym->st_shndx == SHN_UNDEF) {
-        table_put(unresolved, name, (void*)name);
+        if (ELF64_ST_BIND(sym->st_info) != STB_WEAK)  // Undefined weak symbol might be left.
+          table_put(unresolved, name, (void*)name);
       } else {
         table_delete(unresolved, name);
         table_put(defined, name, elfobj);
@@ -442,8 +464,11 @@ static int resolve_symbols_elfobj(LinkEditor *ld, ElfObj *elfobj, Table *unresol
   return error_count;
 }
 
+static bool is_known_section(const char *name);
+
+// `name` is null: collect the sections which do not have their own places.
 static void collect_sections_elfobj(LinkEditor *ld, ElfObj *elfobj, const char *name,
-                                    Vector *seclist) {
+                                    Elf64_Xword orphan_flag, Vector *seclist) {
   UNUSED(ld);
   ElfSectionInfo *shsymtab = &elfobj->section_infos[elfobj->ehdr.e_shstrndx];
   assert(shsymtab->shdr->sh_type == SHT_STRTAB);
@@ -459,7 +484,9 @@ static void collect_sections_elfobj(LinkEditor *ld, ElfObj *elfobj, const char *
     assert(shdr->sh_size > 0);
 
     const char *s = &strbuf[shdr->sh_name];
-    if (strcmp(s, name) == 0) {  // TODO: Wild card
+    if (name != NULL ? strcmp(s, name) == 0
+                     : (shdr->sh_flags & (SHF_ALLOC | SHF_WRITE)) == (SHF_ALLOC | orphan_flag) &&
+                           shdr->sh_type == SHT_PROGBITS && !is_known_section(s)) {
       vec_push(seclist, section);
       elfobj->prog_sections->data[i] = NULL;
     }
@@ -485,6 +512,8 @@ static int resolve_symbols_archive(LinkEditor *ld, Archive *ar, Table *unresolve
       ElfObj *elfobj = load_archive_content(ar, symbol, load_elfobj);
       if (elfobj != NULL) {
         error_count += resolve_symbols_elfobj(ld, elfobj, unresolved);
+        if (table_try_get(unresolved, name, NULL))
+          error("Illegal archive index: %.*s", NAMES(name));
         retry = true;
         break;
       }
@@ -496,13 +525,13 @@ static int resolve_symbols_archive(LinkEditor *ld, Archive *ar, Table *unresolve
 }
 
 static void collect_sections_archive(LinkEditor *ld, Archive *ar, const char *name,
-                                     Vector *seclist) {
+                                     Elf64_Xword orphan_flag, Vector *seclist) {
   Vector *contents = ar->contents;
   for (int i = 0; i < contents->len; ++i) {
     ArContent *content = contents->data[i];
     ElfObj *elfobj = content->obj;
     if (elfobj != NULL)
-      collect_sections_elfobj(ld, elfobj, name, seclist);
+      collect_sections_elfobj(ld, elfobj, name, orphan_flag, seclist);
   }
 }
 
@@ -561,15 +590,16 @@ static int ld_resolve_symbols(LinkEditor *ld, Table *unresolved) {
   return error_count;
 }
 
-static void ld_collect_sections(LinkEditor *ld, const char *name, Vector *seclist) {
+static void ld_collect_sections(LinkEditor *ld, const char *name, Elf64_Xword orphan_flag,
+                                Vector *seclist) {
   for (int i = 0; i < ld->nfiles; ++i) {
     File *file = &ld->files[i];
     switch (file->kind) {
     case FK_ELFOBJ:
-      collect_sections_elfobj(ld, file->elfobj, name, seclist);
+      collect_sections_elfobj(ld, file->elfobj, name, orphan_flag, seclist);
       break;
     case FK_ARCHIVE:
-      collect_sections_archive(ld, file->archive, name, seclist);
+      collect_sections_archive(ld, file->archive, name, orphan_flag, seclist);
       break;
     }
   }
@@ -585,6 +615,7 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
 
     SectionGroup *secgroup = &section_groups[secno];
     secgroup->start_address = address = ALIGN(address, secgroup->align);
+    uint64_t data_end = address;
     for (int i = 0; i < v->len; ++i) {
       LinkElem *elem = v->data[i];
       switch (elem->kind) {
@@ -603,8 +634,8 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
             if (align > secgroup->align)
               secgroup->align = align;
 
-            if (p->shdr->sh_type == SHT_NOBITS)
-              secgroup->bss_size += size;
+            if (p->shdr->sh_type != SHT_NOBITS)
+              data_end = address;
           }
         }
         break;
@@ -612,10 +643,11 @@ static void ld_calc_address(SectionGroup section_groups[SECTION_COUNT],
         elem->symbol.address = address;
         break;
       case LEK_ALIGN:
-        address = ALIGN(address, elem->align);
+        data_end = address = ALIGN(address, elem->align);
         break;
       }
     }
+    secgroup->bss_size = address - data_end;  // Including paddings.
   }
 }
 
@@ -695,26 +727,28 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
   const int flags = 0;
 #endif
   out_elf_header(fp, entry_address, phnum, 0, flags, 0);
-  out_program_header(fp, 0, PROG_START, section_groups[SEC_TEXT].start_address, code_rodata_sz,
+  // File offsets must be congruent to the addresses modulo the page size.
+  uint64_t offsets[SECTION_COUNT];
+  uint64_t text_offset = section_groups[SEC_TEXT].start_address & (DATA_ALIGN - 1);
+  if (text_offset < PROG_START)
+    text_offset += DATA_ALIGN;
+  offsets[SEC_TEXT] = text_offset;
+  offsets[SEC_DATA] = text_offset + code_rodata_sz;
+  out_program_header(fp, 0, text_offset, section_groups[SEC_TEXT].start_address, code_rodata_sz,
                      code_rodata_sz);
   if (phnum > 1) {
     size_t datamemsz = section_groups[SEC_DATA].ds->len + section_groups[SEC_DATA].bss_size;
-    uint64_t offset = PROG_START + code_rodata_sz;
     if (section_groups[SEC_DATA].ds->len > 0)
-      offset = ALIGN(offset, DATA_ALIGN);
-    out_program_header(fp, 1, offset, section_groups[SEC_DATA].start_address,
+      offsets[SEC_DATA] = ALIGN(offsets[SEC_DATA], DATA_ALIGN);
+    out_program_header(fp, 1, offsets[SEC_DATA], section_groups[SEC_DATA].start_address,
                        section_groups[SEC_DATA].ds->len, datamemsz);
   }
 
-  uint64_t addr = PROG_START;
   for (int sec = 0; sec < SECTION_COUNT; ++sec) {
-    addr = ALIGN(addr, section_groups[sec].align);
-    size_t size = section_groups[sec].ds->len;
-    if (size <= 0)
+    if (section_groups[sec].ds->len <= 0)
       continue;
-    put_padding(fp, addr);
+    put_padding(fp, offsets[sec]);
     output_section(fp, &section_groups[sec]);
-    addr += size;
   }
   fclose(fp);
 
@@ -968,10 +1002,12 @@ typedef struct {
 static const ElemData kCodeSectionNames[] = {
   {.kind = LEK_SECTION, .section = {.name = ".text"}},
   {.kind = LEK_SECTION, .section = {.name = ".rodata"}},
+  {.kind = LEK_SECTION, .section = {.name = NULL}},  // Other sections.
   {.kind = -1},
 };
 static const ElemData kDataSectionNames[] = {
   {.kind = LEK_SECTION, .section = {.name = ".data"}},
+  {.kind = LEK_SECTION, .section = {.name = NULL}},  // Other sections.
 
   {.kind = LEK_ALIGN, .align = 8},
   {.kind = LEK_SYMBOL, .symbol = {.name = "__init_array_start"}},
@@ -990,6 +1026,16 @@ static const ElemData *kSectionNames[] = {
   [SEC_DATA] = kDataSectionNames,
 };
 
+static bool is_known_section(const char *name) {
+  for (int secno = 0; secno < SECTION_COUNT; ++secno) {
+    for (const ElemData *p = kSectionNames[secno]; (int)p->kind >= 0; ++p) {
+      if (p->kind == LEK_SECTION && p->section.name != NULL && strcmp(p->section.name, name) == 0)
+        return true;
+    }
+  }
+  return false;
+}
+
 static void prepare_section_lists(LinkEditor *ld, Vector *section_lists[SECTION_COUNT]) {
   for (int secno = 0; secno < SECTION_COUNT; ++secno) {
     Vector *seclist = new_vector();
@@ -1025,7 +1071,8 @@ static void collect_sections(LinkEditor *ld, Vector *section_lists[SECTION_COUNT
       LinkElem *elem = seclist->data[i];
       switch (elem->kind) {
       case LEK_SECTION:
-        ld_collect_sections(ld, elem->section.name, elem->section.list);
+        ld_collect_sections(ld, elem->section.name, secno == SEC_DATA ? SHF_WRITE : 0,
+                            elem->section.list);
         break;
       case LEK_SYMBOL:
       case LEK_ALIGN:
diff --git a/src/util/archive.c b/src/util/archive.c
index 5d9c461..d7b0dd6 100644
--- a/src/util/archive.c
+++ b/src/util/archive.c
@@ -131,7 +131,8 @@ Archive *load_archive(const char *filename) {
 
       ArSymbol *symbol = &symbols[i];
       const Name *name = alloc_name(p, q, false);
-      table_put(&ar->symbol_table, name, symbol);
+      if (!table_try_get(&ar->symbol_table, name, NULL))  // The first definition is used.
+        table_put(&ar->symbol_table, name, symbol);
 
       p = q + 1;
     }
-- 
2.43.0


From 5785ab36c6142ca536e7ba610b34c47c5eb9d6c3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 19:48:00 +0000
Subject: [PATCH 062/162] fix: main is not found in an archive

---
 src/xcc/main.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 6931599..63ec628 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -530,6 +530,11 @@ static int do_compile(Options *opts, const char *root) {
   UNUSED(root);
   int ofd = STDOUT_FILENO;
   int res = 0;
+#if !defined(USE_SYS_LD)
+  // The startup code comes first, because `main' might be in an archive.
+  if (opts->out_type >= OutExecutable && !opts->use_ld && !opts->nostdlib)
+    vec_push(opts->ld_cmd, JOIN_PATHS(root, "lib/crt0.a"));
+#endif
   for (int i = 0; i < opts->sources->len; ++i) {
     char *src = opts->sources->data[i];
     const char *outfn = opts->ofn;
@@ -594,11 +599,8 @@ static int do_compile(Options *opts, const char *root) {
   if (res == 0 && opts->out_type >= OutExecutable) {
     if (!opts->use_ld) {
 #if !defined(USE_SYS_LD)
-      if (!opts->nostdlib) {
-        vec_push(opts->ld_cmd, JOIN_PATHS(root, "lib/crt0.a"));
-        if (!opts->nodefaultlibs)
-          vec_push(opts->ld_cmd, "-lc");
-      }
+      if (!opts->nostdlib && !opts->nodefaultlibs)
+        vec_push(opts->ld_cmd, "-lc");
 #endif
     }
 
-- 
2.43.0


From 10fbeb4c92d177e019944bae6361a4335a1747d9 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:04:09 +0000
Subject: [PATCH 063/162] fix: a digit after a NUL in string data joins its
 octal escape

---
 src/util/util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/util.c b/src/util/util.c
index d4d1ea6..464ccce 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -635,15 +635,16 @@ static const char *escape(int c) {
 void escape_string(const char *str, size_t size, StringBuffer *sb) {
   const char *s, *p;
   const char *end = str + size;
-  bool hex = false;
+  bool hex = false, octal = false;
   for (s = p = str; p < end; ++p) {
     const char *e;
-    if (hex && isxdigit(*p)) {
+    // Prevent a digit from being taken as a part of the preceding escape sequence.
+    if ((hex && isxdigit((unsigned char)*p)) || (octal && *p >= '0' && *p <= '7')) {
       e = escape_hex(*p);
     } else {
       e = escape(*p);
       if (e == NULL) {
-        hex = false;
+        hex = octal = false;
         continue;
       }
     }
@@ -653,6 +654,7 @@ void escape_string(const char *str, size_t size, StringBuffer *sb) {
     sb_append(sb, e, NULL);
     s = p + 1;
     hex = e[1] == 'x';
+    octal = e[1] == '0';
   }
   if (p > s) {
     assert(!hex);
-- 
2.43.0


From 18273ca242d78f51459e6eb838d3b5d500d600a8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:24:23 +0000
Subject: [PATCH 064/162] fix: driver removes an output that is not a regular
 file when compilation fails

---
 src/xcc/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 63ec628..9af5a0a 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -200,7 +200,8 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
 
   if (res != 0 && as_pid != -1) {
     kill(as_pid, SIGKILL);
-    remove(ofn);
+    if (ofn != NULL && is_file(ofn))  // Leave a device or a pipe.
+      remove(ofn);
   }
   if (as_pid != -1) {
     close(as_fd[0]);
-- 
2.43.0


From a2f7828f1b322b9e562cef02902c9959b2172b38 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:24:23 +0000
Subject: [PATCH 065/162] fix: malformed objects and archives overrun the
 linker

---
 include/elf.h      |  2 +
 src/ld/elfobj.c    | 94 +++++++++++++++++++++++++++++++++++++++++++++-
 src/ld/ld.c        | 38 ++++++++++++++-----
 src/util/archive.c | 16 ++++++--
 4 files changed, 135 insertions(+), 15 deletions(-)

diff --git a/include/elf.h b/include/elf.h
index 7323228..5b4b289 100644
--- a/include/elf.h
+++ b/include/elf.h
@@ -114,6 +114,7 @@ typedef uint16_t Elf64_Section;
 
 #define SHN_UNDEF         (0)
 #define SHN_LORESERVE     (0xff00)
+#define SHN_ABS           (0xfff1)
 #define SHN_COMMON        (0xfff2)
 
 typedef struct {
@@ -137,6 +138,7 @@ typedef struct {
 #define STT_OBJECT   (1)
 #define STT_FUNC     (2)
 #define STT_SECTION  (3)
+#define STT_FILE     (4)
 
 #define ELF64_ST_BIND(info)          ((info) >> 4)
 #define ELF64_ST_TYPE(info)          ((info) & 0xf)
diff --git a/src/ld/elfobj.c b/src/ld/elfobj.c
index c6f0ae2..1b63b0d 100644
--- a/src/ld/elfobj.c
+++ b/src/ld/elfobj.c
@@ -8,16 +8,92 @@
 #include "table.h"
 #include "util.h"
 
+#define MAX_ALIGN  (1UL << 30)
+
+static bool in_file(FILE *fp, size_t start_offset, uint64_t offset, uint64_t size) {
+  long pos = ftell(fp);
+  if (pos < 0 || fseek(fp, 0, SEEK_END) != 0)
+    return false;
+  uint64_t file_size = ftell(fp);
+  fseek(fp, pos, SEEK_SET);
+  return start_offset <= file_size && offset <= file_size - start_offset &&
+         size <= file_size - start_offset - offset;
+}
+
 static Elf64_Shdr *read_all_section_headers(FILE *fp, size_t start_offset, Elf64_Ehdr *ehdr) {
   if (ehdr->e_shnum <= 0)
     return NULL;
+  if (!in_file(fp, start_offset, ehdr->e_shoff, ehdr->e_shnum * sizeof(Elf64_Shdr)))
+    error("illegal section headers");
   return read_or_die(fp, NULL, ehdr->e_shoff + start_offset,
                      ehdr->e_shnum * sizeof(Elf64_Shdr), "read section header failed");
 }
 
 static char *read_strtab(FILE *fp, size_t start_offset, Elf64_Shdr *sec) {
   assert(sec->sh_type == SHT_STRTAB);
-  return read_or_die(fp, NULL, sec->sh_offset + start_offset, sec->sh_size, "read strtab failed");
+  char *buf = read_or_die(fp, NULL, sec->sh_offset + start_offset, sec->sh_size,
+                          "read strtab failed");
+  if (sec->sh_size < 1 || buf[sec->sh_size - 1] != '\0')
+    error("malformed strtab");
+  return buf;
+}
+
+// Check a section header, which comes from an arbitrary file.
+static bool check_section(ElfObj *elfobj, const Elf64_Shdr *shdr) {
+  const Elf64_Half shnum = elfobj->ehdr.e_shnum;
+  if (shdr->sh_type == SHT_NULL)
+    return true;
+  if (shdr->sh_type == SHT_NOBITS) {
+    if (shdr->sh_size >= 1UL << 47)
+      return false;
+  } else if (!in_file(elfobj->fp, elfobj->start_offset, shdr->sh_offset, shdr->sh_size)) {
+    return false;
+  }
+  if (shdr->sh_addralign > MAX_ALIGN || (shdr->sh_addralign & (shdr->sh_addralign - 1)) != 0)
+    return false;
+  switch (shdr->sh_type) {
+  case SHT_SYMTAB:
+    return shdr->sh_link < shnum;
+  case SHT_RELA:
+    if (shdr->sh_size <= 0)
+      return true;
+    if (shdr->sh_link >= shnum || elfobj->shdrs[shdr->sh_link].sh_type != SHT_SYMTAB ||
+        shdr->sh_info >= shnum)
+      return false;
+    switch (elfobj->shdrs[shdr->sh_info].sh_type) {
+    case SHT_RELA: case SHT_SYMTAB: case SHT_STRTAB: case SHT_NOBITS: case SHT_NULL:
+      return false;
+    default:
+      return true;
+    }
+  default:
+    return true;
+  }
+}
+
+static void check_symbol(ElfObj *elfobj, const Elf64_Sym *sym, size_t strtab_size) {
+  const Elf64_Half shndx = sym->st_shndx;
+  switch (ELF64_ST_BIND(sym->st_info)) {
+  case STB_LOCAL: case STB_GLOBAL: case STB_WEAK: break;
+  default:
+    error("illegal symbol binding");
+  }
+  if (sym->st_name >= strtab_size)
+    error("illegal symbol name");
+  if (shndx == SHN_UNDEF || (ELF64_ST_TYPE(sym->st_info) == STT_FILE && shndx == SHN_ABS))
+    return;
+  if (shndx == SHN_COMMON) {
+    if (elfobj->nobit_shndx < 0)
+      error("illegal common symbol");
+    return;
+  }
+  if (shndx >= elfobj->ehdr.e_shnum)
+    error("illegal section of symbol");
+  switch (elfobj->shdrs[shndx].sh_type) {
+  case SHT_RELA: case SHT_SYMTAB: case SHT_STRTAB: case SHT_NULL:
+    error("illegal section of symbol");
+  default: break;
+  }
 }
 
 static void load_symtab(ElfObj *elfobj) {
@@ -49,6 +125,8 @@ static void load_symtab(ElfObj *elfobj) {
     if (strbuf == NULL)
       error("read strtab failed");
     elfobj->section_infos[shdr->sh_link].strtab.buf = strbuf;
+    for (size_t i = 0; i < p->symtab.count; ++i)
+      check_symbol(elfobj, &symbols[i], strtab_sec->sh_size);
 
     // Construct global symbol table.
     assert(elfobj->symbol_table == NULL);
@@ -84,8 +162,10 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
     return NULL;
   }
   Elf64_Shdr *shdrs = read_all_section_headers(fp, start_offset, &ehdr);
-  if (shdrs == NULL)
+  if (shdrs == NULL) {
+    fprintf(stderr, "no section: %s\n", fn);
     return NULL;
+  }
 
   ElfObj *elfobj = calloc_or_die(sizeof(*elfobj));
   elfobj->fp = fp;
@@ -104,6 +184,12 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
     ElfSectionInfo *p = &section_infos[i];
     p->elfobj = elfobj;
     p->shdr = shdr;
+    if (!check_section(elfobj, shdr)) {
+      fprintf(stderr, "illegal section: %s\n", fn);
+      return NULL;
+    }
+    if (shdr->sh_addralign == 0)
+      shdr->sh_addralign = 1;
     if (shdr->sh_size > 0) {
       switch (shdr->sh_type) {
       case SHT_NOBITS:
@@ -137,6 +223,10 @@ ElfObj *read_elf(FILE *fp, const char *fn) {
         error("read shstrtab failed");
       shstrtab->strtab.buf = buf;
     }
+    for (Elf64_Half i = 0; i < ehdr.e_shnum; ++i) {
+      if (shdrs[i].sh_name >= shstrtab->shdr->sh_size)
+        error("illegal section name: %s", fn);
+    }
   }
 
   return elfobj;
diff --git a/src/ld/ld.c b/src/ld/ld.c
index e0e0a60..6912ed5 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -135,10 +135,6 @@ static uint64_t ld_symbol_address(LinkEditor *ld, const Name *name) {
     }
 
     if (shndx < SHN_LORESERVE) {
-#ifndef NDEBUG
-      const Elf64_Shdr *tshdr = &elfobj->shdrs[shndx];
-      assert(tshdr->sh_type == SHT_PROGBITS || tshdr->sh_type == SHT_NOBITS);
-#endif
       return elfobj->section_infos[shndx].progbits.address + sym->st_value;
     }
 
@@ -205,7 +201,8 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
       const char *label = &strinfo->strtab.buf[sym->st_name];
       address = ld_symbol_address(ld, alloc_name(label, NULL, false));
       if (address == (uint64_t)-1) {
-        assert(ELF64_ST_BIND(sym->st_info) == STB_WEAK);
+        if (ELF64_ST_BIND(sym->st_info) != STB_WEAK)
+          error("Unresolved: %s", label);
         address = 0;  // Undefined weak symbol.
       }
     }
@@ -216,6 +213,26 @@ static uint64_t calc_rela_sym_address(LinkEditor *ld, ElfObj *elfobj, const Elf6
   return address + rela->r_addend;
 }
 
+// Bytes written by a relocation.
+static size_t rela_size(Elf64_Word type) {
+#if XCC_TARGET_ARCH == XCC_ARCH_X64
+  return type == R_X86_64_64 ? 8 : 4;
+#elif XCC_TARGET_ARCH == XCC_ARCH_AARCH64
+  return type == R_AARCH64_ABS64 ? 8 : 4;
+#elif XCC_TARGET_ARCH == XCC_ARCH_RISCV64
+  switch (type) {
+  case R_RISCV_64: case R_RISCV_CALL:
+    return 8;
+  case R_RISCV_RVC_JUMP: case R_RISCV_RVC_BRANCH:
+    return 2;
+  case R_RISCV_RELAX:
+    return 1;
+  default:
+    return 4;
+  }
+#endif
+}
+
 static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
   int error_count = 0;
   for (Elf64_Half sec = 0; sec < elfobj->ehdr.e_shnum; ++sec) {
@@ -228,9 +245,10 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
     const ElfSectionInfo *symhdrinfo = &elfobj->section_infos[shdr->sh_link];
     const ElfSectionInfo *strinfo = &elfobj->section_infos[symhdr->sh_link];
     const ElfSectionInfo *dst_info = &elfobj->section_infos[shdr->sh_info];
-    assert(dst_info->shdr->sh_type == SHT_PROGBITS || dst_info->shdr->sh_type == SHT_INIT_ARRAY ||
-           dst_info->shdr->sh_type == SHT_FINI_ARRAY ||
-           dst_info->shdr->sh_type == SHT_PREINIT_ARRAY);
+    switch (dst_info->shdr->sh_type) {
+    case SHT_PROGBITS: case SHT_INIT_ARRAY: case SHT_FINI_ARRAY: case SHT_PREINIT_ARRAY: break;
+    default: continue;
+    }
     if (dst_info->progbits.content == NULL) {
       // Target section is not collected, so skip relocation.
       continue;
@@ -239,7 +257,9 @@ static int resolve_rela_elfobj(LinkEditor *ld, ElfObj *elfobj) {
     size_t symbol_count = elfobj->symtab_section->symtab.count;
     for (size_t j = 0, n = shdr->sh_size / sizeof(Elf64_Rela); j < n; ++j) {
       const Elf64_Rela *rela = &relas[j];
-      assert(ELF64_R_SYM(rela->r_info) < symbol_count);
+      if (ELF64_R_SYM(rela->r_info) >= symbol_count || rela->r_offset >= dst_info->shdr->sh_size ||
+          dst_info->shdr->sh_size - rela->r_offset < rela_size(ELF64_R_TYPE(rela->r_info)))
+        error("illegal relocation");
       const Elf64_Sym *sym = &symhdrinfo->symtab.syms[ELF64_R_SYM(rela->r_info)];
       uint64_t address = calc_rela_sym_address(ld, elfobj, rela, sym, strinfo);
 
diff --git a/src/util/archive.c b/src/util/archive.c
index d7b0dd6..a61b63a 100644
--- a/src/util/archive.c
+++ b/src/util/archive.c
@@ -13,7 +13,7 @@
 static uint32_t read4be(FILE *fp) {
   unsigned char buf[4];
   read_or_die(fp, buf, -1, sizeof(buf), "read4be");
-  return (buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
+  return ((uint32_t)buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3];
 }
 
 static uint32_t *read_file_offsets(FILE *fp, uint32_t symbol_count) {
@@ -23,7 +23,7 @@ static uint32_t *read_file_offsets(FILE *fp, uint32_t symbol_count) {
   uint32_t *p = file_offsets;
   for (uint32_t i = 0; i < symbol_count; ++i) {
     unsigned char *q = (unsigned char*)p;
-    uint32_t offset = (q[0] << 24) | (q[1] << 16) | (q[2] << 8) | q[3];
+    uint32_t offset = ((uint32_t)q[0] << 24) | (q[1] << 16) | (q[2] << 8) | q[3];
     *p++ = offset;
   }
   return file_offsets;
@@ -101,6 +101,12 @@ Archive *load_archive(const char *filename) {
     error("FMagic expected");
 
   uint32_t symbol_count = read4be(fp);
+  fseek(fp, 0, SEEK_END);
+  uint64_t file_size = ftell(fp);
+  const size_t table_offset = sizeof(mag) + sizeof(ghdr) + sizeof(symbol_count);
+  if (symbol_count > (file_size - table_offset) / sizeof(uint32_t))
+    error("Illegal symbol count: %s", filename);
+  fseek(fp, table_offset, SEEK_SET);
   ar->symbol_count = symbol_count;
   if (symbol_count > 0) {
     uint32_t *file_offsets = read_file_offsets(fp, symbol_count);
@@ -119,7 +125,8 @@ Archive *load_archive(const char *filename) {
     }
 
     size_t pos = ftell(fp);
-    assert(pos < contents[0].file_offset);
+    if (contents[0].file_offset <= pos || contents[0].file_offset > file_size)
+      error("Illegal offset: %s", filename);
     size_t strtablen = contents[0].file_offset - pos;
     char *strtab = malloc_or_die(strtablen);  // Buffer pointer is not kept.
     read_or_die(fp, strtab, -1, strtablen, "Strtab");
@@ -148,7 +155,8 @@ void *load_archive_content(Archive *ar, ArSymbol *symbol,
   if (content->obj != NULL)
     return content->obj;
 
-  fseek(ar->fp, content->file_offset, SEEK_SET);
+  if (fseek(ar->fp, content->file_offset, SEEK_SET) != 0)
+    error("Malformed archive");
 
   struct ar_hdr hdr;
   read_or_die(ar->fp, &hdr, -1, sizeof(hdr), "hdr");
-- 
2.43.0


From cf08e18bdaba7bfbc05cf3d55e5063d7277aec16 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:24:23 +0000
Subject: [PATCH 066/162] fix: assembler crashes on malformed lines, contents
 in bss and overflowing expressions

---
 src/as/as.c        |  4 +--
 src/as/parse_asm.c | 62 +++++++++++++++++++++++++++++++++++-----------
 src/as/parse_asm.h |  1 +
 3 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/as/as.c b/src/as/as.c
index 24aa0b9..cce8b1c 100644
--- a/src/as/as.c
+++ b/src/as/as.c
@@ -46,8 +46,8 @@ static void parse_file(FILE *fp, ParseInfo *info) {
     if (line->dir == NODIRECTIVE) {
       Code code;
       assemble_inst(&line->inst, info, &code);
-      if (code.len > 0)
-        vec_push(irs, new_ir_code(&code));
+      if (code.len > 0 && check_section_contents(info))
+        vec_push(info->current_section->irs, new_ir_code(&code));
     } else {
       handle_directive(info, line->dir);
     }
diff --git a/src/as/parse_asm.c b/src/as/parse_asm.c
index 9a5ec5e..03914d8 100644
--- a/src/as/parse_asm.c
+++ b/src/as/parse_asm.c
@@ -203,7 +203,7 @@ static const char *get_label_end(ParseInfo *info) {
       ++p;
       if (c == '"')
         break;
-      if (c == '\\')
+      if (c == '\\' && *p != '\0')
         ++p;
     }
     start += 2;
@@ -244,7 +244,7 @@ const Name *unquote_label(const char *p, const char *q) {
 static const Name *parse_label(ParseInfo *info) {
   const char *start = info->p;
   const char *p = get_label_end(info);
-  if (p == start)
+  if (p == NULL || p == start)
     return NULL;
 
   info->p = p;
@@ -485,7 +485,7 @@ static Expr *unary(ParseInfo *info) {
       return NULL;
     switch (expr->kind) {
     case EX_FIXNUM:
-      expr->fixnum = -expr->fixnum;
+      expr->fixnum = -(uint64_t)expr->fixnum;
       return expr;
 #ifndef __NO_FLONUM
     case EX_FLONUM:
@@ -521,10 +521,12 @@ static Expr *parse_mul(ParseInfo *info) {
     Expr *lhs = expr;
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
-      case TK_MUL:  lhs->fixnum *= rhs->fixnum; break;
+      case TK_MUL:  lhs->fixnum = (uint64_t)lhs->fixnum * rhs->fixnum; break;
       case TK_DIV:
         if (rhs->fixnum == 0)
           parse_error(info, "divide by zero");
+        else if (rhs->fixnum == -1)
+          lhs->fixnum = -(uint64_t)lhs->fixnum;
         else
           lhs->fixnum /= rhs->fixnum;
         break;
@@ -556,8 +558,8 @@ static Expr *parse_add(ParseInfo *info) {
     Expr *lhs = expr;
     if (lhs->kind == EX_FIXNUM && rhs->kind == EX_FIXNUM) {
       switch (tok->kind) {
-      case TK_ADD:  lhs->fixnum += rhs->fixnum; break;
-      case TK_SUB:  lhs->fixnum -= rhs->fixnum; break;
+      case TK_ADD:  lhs->fixnum = (uint64_t)lhs->fixnum + rhs->fixnum; break;
+      case TK_SUB:  lhs->fixnum = (uint64_t)lhs->fixnum - rhs->fixnum; break;
       default:  assert(false); break;
       }
     } else {
@@ -684,6 +686,10 @@ Line *parse_line(ParseInfo *info) {
   const char *p = skip_whitespaces(info->rawline);
   info->p = p;
   const char *q = get_label_end(info);
+  if (q == NULL) {
+    parse_error(info, "Syntax error");
+    return line;
+  }
   const char *r = skip_whitespaces(q);
   if (*r == ':') {
     const Name *label = unquote_label(p, q);
@@ -700,8 +706,10 @@ Line *parse_line(ParseInfo *info) {
       return line;
     }
     q = get_label_end(info);
-    if (q == NULL)
+    if (q == NULL) {
+      parse_error(info, "Syntax error");
       return line;
+    }
     r = skip_whitespaces(q);
     if (*r == ':') {
       parse_error(info, "Syntax error");
@@ -840,10 +848,36 @@ static bool next_item(ParseInfo *info) {
   return true;
 }
 
+// Sections without contents can hold only zeros.
+bool check_section_contents(ParseInfo *info) {
+  if (!(info->current_section->flag & SF_BSS))
+    return true;
+  parse_error(info, "Contents not allowed in bss");
+  return false;
+}
+
 void handle_directive(ParseInfo *info, enum DirectiveType dir) {
   SectionInfo *section = info->current_section;
   Vector *irs = section->irs;
 
+  switch (dir) {
+  case DT_ASCII:
+  case DT_STRING:
+  case DT_BYTE:
+  case DT_SHORT:
+  case DT_LONG:
+  case DT_QUAD:
+#ifndef __NO_FLONUM
+  case DT_FLOAT:
+  case DT_DOUBLE:
+#endif
+    if (!check_section_contents(info))
+      return;
+    break;
+  default:
+    break;
+  }
+
   switch (dir) {
   case NODIRECTIVE:
     break;
@@ -1186,13 +1220,13 @@ Value calc_expr(Table *label_table, const Expr *expr) {
 
       assert(lhs.label == NULL && rhs.label == NULL);
       switch (expr->kind) {
-      case EX_ADD:  lhs.offset += rhs.offset; break;
-      case EX_SUB:  lhs.offset -= rhs.offset; break;
-      case EX_MUL:  lhs.offset *= rhs.offset; break;
+      case EX_ADD:  lhs.offset = (uint64_t)lhs.offset + rhs.offset; break;
+      case EX_SUB:  lhs.offset = (uint64_t)lhs.offset - rhs.offset; break;
+      case EX_MUL:  lhs.offset = (uint64_t)lhs.offset * rhs.offset; break;
       case EX_DIV:
         if (rhs.offset == 0)
           error("divide by zero");
-        lhs.offset /= rhs.offset;
+        lhs.offset = rhs.offset == -1 ? (int64_t)-(uint64_t)lhs.offset : lhs.offset / rhs.offset;
         break;
       default: assert(false); break;
       }
@@ -1207,11 +1241,11 @@ Value calc_expr(Table *label_table, const Expr *expr) {
         error("Illegal expression");
       }
       if (expr->kind == EX_NEG)
-        value.offset = -value.offset;
+        value.offset = -(uint64_t)value.offset;
       return value;
     }
 
-  default: assert(false); break;
+  default: break;
   }
-  return (Value){.label = NULL, .offset = 0};
+  error("Illegal expression");
 }
diff --git a/src/as/parse_asm.h b/src/as/parse_asm.h
index e5f786e..54fe18a 100644
--- a/src/as/parse_asm.h
+++ b/src/as/parse_asm.h
@@ -143,6 +143,7 @@ typedef struct Expr {
 
 Line *parse_line(ParseInfo *info);
 void parse_set_p(ParseInfo *info, const char *p);
+bool check_section_contents(ParseInfo *info);
 void handle_directive(ParseInfo *info, enum DirectiveType dir);
 void parse_error(ParseInfo *info, const char *message);
 
-- 
2.43.0


From c31f6133d3ca8498ca3547dbb92f6bf6503af40e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:24:23 +0000
Subject: [PATCH 067/162] fix: preprocessor and lexer crash on endless
 includes, huge line numbers and non-ASCII spaces

---
 src/cc/frontend/lexer.c |  5 ++++-
 src/cpp/preprocessor.c  | 12 ++++++++++++
 src/util/util.c         |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index 1adc25d..a091fee 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -3,6 +3,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <limits.h>  // INT_MAX
 #include <stdarg.h>
 #include <stdbool.h>
 #include <stdlib.h>  // malloc, strtoul
@@ -265,6 +266,8 @@ const char *get_lex_p(void) {
     return lexer.fetched[lexer.idx]->begin;
 }
 
+#define MAX_LINENO  (INT_MAX / 2)
+
 static int scan_linemarker(const char *line, long *pnum, char **pfn, int *pflag) {
   const char *p = line;
   if (p[0] != '#' || !isspace(p[1]))
@@ -324,7 +327,7 @@ static bool read_next_line(void) {
     int flag = -1;
     int n = scan_linemarker(line, &num, &fn, &flag);
     if (n >= 1) {
-      lexer.lineno = num - 1;
+      lexer.lineno = num >= 0 && num < MAX_LINENO ? num - 1 : MAX_LINENO;
       if (n >= 2)
         lexer.filename = fn;
     }
diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index 611b0e9..db7093f 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -4,6 +4,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <libgen.h>  // dirname
+#include <limits.h>  // INT_MAX
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -310,6 +311,8 @@ static FILE *search_sysinc(const char *prevdir, const char *path, char **pfn) {
   return NULL;
 }
 
+#define MAX_INCLUDE_DEPTH  (200)
+
 static void handle_include(const char *p, Stream *stream, bool is_next) {
   const char *orgp = p = skip_whitespaces(p);
 
@@ -373,7 +376,12 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     }
   }
 
+  static int depth;
+  if (depth >= MAX_INCLUDE_DEPTH)
+    error("#include nested too deeply: %s", path);
+  ++depth;
   preprocess(fp, fn);
+  --depth;
   fclose(fp);
 
   // Put linemarker to restore line and filename.
@@ -395,6 +403,8 @@ static void handle_pragma(const char **pp, const char *filename) {
   }
 }
 
+#define MAX_LINENO  (INT_MAX / 2)
+
 static void handle_line_directive(const char **pp, Stream *stream) {
   size_t size;
   char *expanded = preprocess_one_line(*pp, stream, &size);
@@ -415,6 +425,8 @@ static void handle_line_directive(const char **pp, Stream *stream) {
     set_pp_stream(bak_stream);
     fclose(memfp);
   }
+  if (num.value < 0 || num.value > MAX_LINENO)
+    error("line number out of range");
   stream->lineno = num.value;
 
   const char *next = get_lex_p();
diff --git a/src/util/util.c b/src/util/util.c
index 464ccce..ea06fe7 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -311,7 +311,7 @@ bool is_im32(int64_t x) {
 }
 
 const char *skip_whitespaces(const char *s) {
-  while (isspace(*s))
+  while (isspace((unsigned char)*s))
     ++s;
   return s;
 }
-- 
2.43.0


From 60a4018fa9738625de1db92d44e32e29e0d040b3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 20:24:23 +0000
Subject: [PATCH 068/162] fix: compiler crashes after reporting errors in
 malformed programs

---
 src/cc/backend/ssa.c          |  3 ++-
 src/cc/frontend/fe_misc.c     | 30 ++++++++++++++++++++++--------
 src/cc/frontend/initializer.c | 27 +++++++++++++++++++--------
 src/cc/frontend/parser_expr.c | 28 +++++++++++++++++-----------
 src/cc/frontend/parser_type.c |  9 ++++++++-
 src/wcc/gen_wasm.c            |  7 ++++---
 6 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/src/cc/backend/ssa.c b/src/cc/backend/ssa.c
index 9e28376..4e719be 100644
--- a/src/cc/backend/ssa.c
+++ b/src/cc/backend/ssa.c
@@ -104,7 +104,8 @@ static Vector **ssa_transform(RegAlloc *ra, BBContainer *bbcon) {
       continue;
     table_put(&checked, bb->label, bb);
 
-    memcpy(vregs, ra->vregs->data, sizeof(*vregs) * vreg_count);
+    if (vreg_count > 0)
+      memcpy(vregs, ra->vregs->data, sizeof(*vregs) * vreg_count);
     if (bb->from_bbs->len == 1) {
       // Oneway flow: Hand over out_regs of the predecessor.
       BB *from = bb->from_bbs->data[0];
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4df11f1..39b9278 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -328,7 +328,9 @@ bool check_cast(const Type *dst, const Type *src, bool zero, bool is_explicit, c
 
     enum ParseErrorLevel level = PE_WARNING;
     if (dst->kind == TY_ARRAY || !is_prim_type(dst) ||
-        !(is_prim_type(src) || (src->kind == TY_ARRAY && dst->kind == TY_PTR)))
+        !(is_prim_type(src) || (src->kind == TY_ARRAY && dst->kind == TY_PTR)) ||
+        (dst->kind == TY_PTR && src->kind == TY_FLONUM) ||
+        (dst->kind == TY_FLONUM && src->kind == TY_PTR))
       level = PE_NOFATAL;
     else if (!cc_flags.warn_as_error)
       fprintf(stderr, "warning: ");
@@ -382,8 +384,9 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
               type_size(type), type->fixnum.is_unsigned);
         return new_expr_fixlit(type, sub->token, fixnum);
       }
-      assert(type->kind == TY_FLONUM);
-      return new_expr_flolit(type, sub->token, sub->flonum);
+      if (type->kind == TY_FLONUM)
+        return new_expr_flolit(type, sub->token, sub->flonum);
+      break;
     case EX_FIXNUM:
       if (type->kind == TY_FLONUM) {
         bool uns = sub->type->kind != TY_FIXNUM || sub->type->fixnum.is_unsigned;
@@ -400,13 +403,15 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     }
 #endif
 
-    assert(sub->kind == EX_FIXNUM);
+    if (sub->kind != EX_FIXNUM)  // Illegal cast: already reported.
+      return new_expr_cast(type, token, sub);
     assert(!is_flonum(type));
     Fixnum value;
     if (is_bool(type))
       value = sub->fixnum != 0;
     else
-      value = wrap_value(sub->fixnum, type_size(type), type->fixnum.is_unsigned);
+      value = wrap_value(sub->fixnum, type_size(type),
+                         !is_fixnum(type->kind) || type->fixnum.is_unsigned);
     sub->fixnum = value;
     sub->type = type;
     return sub;
@@ -796,6 +801,10 @@ Expr *promote_to_int(Expr *expr) {
 
 Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
   cast_numbers(&lhs, &rhs, true);
+  if (kind == EX_MOD && (is_flonum(lhs->type) || is_flonum(rhs->type))) {
+    parse_error(PE_NOFATAL, tok, "int type expected");
+    return new_expr_fixlit(&tyInt, tok, 0);  // Dummy
+  }
 
   do {
     if (is_const(rhs) && is_number(rhs->type)) {
@@ -1388,6 +1397,8 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
           is_zero(rhs) || is_zero(lhs))) {
       enum ParseErrorLevel err = st || (lt->kind == TY_PTR && rt->kind == TY_PTR) ? PE_WARNING : PE_NOFATAL;
       parse_error(err, tok, "Compare pointer to other types");
+      if (err != PE_WARNING)
+        return new_expr_bop(kind, &tyBool, tok, lhs, rhs);
     }
     if (rt->kind != TY_PTR)
       rhs = make_cast(lhs->type, rhs->token, rhs, false);
@@ -1498,6 +1509,8 @@ void check_funcall_args(Expr *func, Vector *args, Scope *scope) {
         if (type->struct_.info->is_flexible)
           parse_error(PE_NOFATAL, arg->token, "flexible array as an argument not allowed");
       }
+    } else if (arg->type->kind == TY_VOID) {
+      parse_error(PE_NOFATAL, arg->token, "`void' argument not allowed");
     } else if (vaargs && i >= paramc) {
       const Type *type = arg->type;
       switch (type->kind) {
@@ -1678,7 +1691,8 @@ Expr *transform_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
 #endif
 
     Type *ptype = ptrof(lhs->type);
-    assert(!is_global_scope(curscope));
+    if (is_global_scope(curscope))
+      parse_error(PE_FATAL, tok, "Cannot assign outside of function");
     Expr *ptr = alloc_tmp_var(curscope, ptype);
     tmp_assign = new_expr_bop(EX_ASSIGN, ptype, tok, ptr, make_refer(lhs->token, lhs));
     lhs = new_expr_unary(EX_DEREF, lhs->type, lhs->token, ptr);
@@ -1913,11 +1927,11 @@ static void check_reachability_stmt(Stmt *stmt) {
     check_reachability_stmt(stmt->if_.tblock);
     check_reachability_stmt(stmt->if_.fblock);
     if (is_const_truthy(stmt->if_.cond)) {
-      stmt->reach = stmt->if_.tblock->reach;
+      stmt->reach = stmt->if_.tblock != NULL ? stmt->if_.tblock->reach : 0;
     } else if (is_const_falsy(stmt->if_.cond)) {
       stmt->reach = stmt->if_.fblock != NULL ? stmt->if_.fblock->reach : 0;
     } else {
-      stmt->reach = stmt->if_.tblock->reach &
+      stmt->reach = (stmt->if_.tblock != NULL ? stmt->if_.tblock->reach : 0) &
                     (stmt->if_.fblock != NULL ? stmt->if_.fblock->reach : 0);
     }
     break;
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 88ebcc4..d6bf9de 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -24,7 +24,10 @@ Type *fix_array_size(Type *type, Initializer *init, const Token *token) {
       is_str = is_char_type(type->pa.ptrof, single->str.kind);
       break;
     case EX_COMPLIT:
-      assert(single->type->kind == TY_ARRAY);
+      if (single->type->kind != TY_ARRAY) {
+        parse_error(PE_NOFATAL, single->token, "Array initializer requires `{'");
+        return type;
+      }
       if (arr_len == -1) {
         type = single->type;
       } else {
@@ -62,7 +65,6 @@ Type *fix_array_size(Type *type, Initializer *init, const Token *token) {
     cloned->pa.length = arr_len;
     return cloned;
   } else {
-    assert(arr_len > 0);
     assert(!is_str || init->single->kind == EX_STR);
     ssize_t init_len = is_str ? (ssize_t)init->single->str.len : (ssize_t)init->multi->len;
     if (init_len > arr_len && (!is_str || init_len - 1 > arr_len))  // Allow non-nul string.
@@ -328,6 +330,10 @@ static Initializer *find_desig_indices(InitFlattener *flattener, Initializer *in
         return NULL;
       } else {
         index = init->bracket.index;
+        if (index < 0 || (type->pa.length >= 0 && index >= type->pa.length)) {
+          parse_error(PE_NOFATAL, init->token, "Array index out of bounds in initializer");
+          return NULL;
+        }
         init = init->bracket.value;
         type = type->pa.ptrof;
       }
@@ -619,7 +625,8 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
       if (!is_global_scope(scope) && !(varinfo->storage & VS_STATIC) &&
           get_callee_type(value->type) == NULL) {
         parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-        return NULL;
+        *isconst = true;
+        break;
       }
       *isconst = value->type->kind == TY_ARRAY || value->type->kind == TY_FUNC ||
                  (value->type->kind == TY_PTR && value->type->pa.ptrof->kind == TY_FUNC);
@@ -651,7 +658,8 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
     if (value->token->kind != TK_DOT) {
       parse_error(PE_NOFATAL, value->token, "Allowed global reference only");
-      return NULL;
+      *isconst = true;
+      break;
     }
     *isconst = value->type->kind == TY_ARRAY;
     break;
@@ -686,7 +694,8 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
   case TY_FIXNUM:
   case TY_PTR:
     {
-      assert(init->kind == IK_SINGLE);
+      if (init->kind != IK_SINGLE)  // Already reported.
+        break;
       bool isconst = false;
       Expr *value = check_global_initializer_fixnum(init->single, &isconst);
       init->single = make_cast(type, init->single->token, value, false);
@@ -750,7 +759,7 @@ static Initializer *check_global_initializer(Type *type, Initializer *init) {
     }
     break;
   case TY_VOID: case TY_FUNC: case TY_AUTO:
-    assert(false);
+    parse_error(PE_NOFATAL, init->token, "Cannot be initialized");
     break;
   }
   return init;
@@ -889,7 +898,8 @@ Vector *assign_initial_value(Expr *expr, Initializer *init, Vector *inits) {
     break;
   default:
     {
-      assert(init->kind == IK_SINGLE);
+      if (init->kind != IK_SINGLE)  // Already reported.
+        break;
       Expr *value = str_to_char_array_var(curscope, init->single);
       vec_push(inits,
                new_stmt_expr(new_expr_bop(EX_ASSIGN, expr->type, init->token, expr,
@@ -987,7 +997,8 @@ Initializer *check_vardecl(Type **ptype, const Token *ident, int storage, Initia
     // TODO: Check `init` can be cast to `type`.
     if (storage & VS_STATIC) {
       VarInfo *gvarinfo = varinfo->static_.svar;
-      assert(gvarinfo != NULL);
+      if (gvarinfo == NULL)  // Conflicted with another declaration: already reported.
+        return NULL;
       gvarinfo->global.init = init = check_global_initializer(type, init);
       gvarinfo->type = type;
       // static variable initializer is handled in codegen, same as global variable.
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index bd6a946..c08658f 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -129,6 +129,10 @@ static Expr *parse_compound_literal(Type *type) {
   Token *token = fetch_token();
   Initializer *init = parse_initializer();
 
+  if (type->kind == TY_FUNC || type->kind == TY_VOID || !ensure_struct(type, token, curscope)) {
+    parse_error(PE_NOFATAL, token, "Illegal type for compound literal");
+    return new_expr_fixlit(&tyInt, token, 0);  // Dummy
+  }
   if (type->kind == TY_ARRAY)
     type = fix_array_size(type, init, token);
 
@@ -198,7 +202,7 @@ static Expr *parse_generic(void) {
   }
   if (default_value == NULL) {
     parse_error(PE_NOFATAL, target->token, "no matching type found");
-    default_value = exprs->data[0];
+    default_value = exprs->len > 0 ? exprs->data[0] : new_expr_fixlit(&tyInt, target->token, 0);
   }
   return default_value;
 }
@@ -240,7 +244,7 @@ static Expr *parse_precedence(Precedence precedence) {
   if (prefixRule == NULL) {
     parse_error(PE_NOFATAL, previous, "expression expected");
     unget_token(previous);
-    return NULL;
+    return new_expr_fixlit(&tyInt, previous, 0);  // Dummy to continue.
   }
 
   Expr *expr = prefixRule(previous);
@@ -280,14 +284,15 @@ static Expr *literal(Token *tok) {
         fx = kFxTable[long_count];
 
         // Check auto upgrade.
+#define UFIXNUM_MAX(bits)  (~(UFixnum)0 >> (sizeof(UFixnum) * TARGET_CHAR_BIT - (bits)))
         UFixnum value = tok->fixnum.value;
         while (fx < FX_LLONG) {
           Type *type = get_fixnum_type(fx, u, 0);
           int bits = type_size(type) * TARGET_CHAR_BIT - (u ? 0 : 1);
-          if ((value <= (((UFixnum)1U << bits) - 1U)) &&
+          if (value <= UFIXNUM_MAX(bits) &&
               (u || (Fixnum)value >= -((Fixnum)1 << (bits - 1))))
             break;
-          if (!u && value <= ((UFixnum)1U << (bits + 1)) - 1U &&
+          if (!u && value <= UFIXNUM_MAX(bits + 1) &&
               (tok->fixnum.flag & TKF_KIND_MASK) != 0) {
             u = true;
             break;
@@ -440,8 +445,10 @@ static Expr *binary(Expr *lhs, Token *tok) {
     return new_expr_num_bop(kind + (EX_MUL - TK_MUL), tok, lhs, rhs);
   case TK_LSHIFT: case TK_RSHIFT:
     if (!is_fixnum(lhs->type->kind) ||
-        !is_fixnum(rhs->type->kind))
+        !is_fixnum(rhs->type->kind)) {
       parse_error(PE_NOFATAL, tok, "Cannot use `%.*s' except numbers.", (int)(tok->end - tok->begin), tok->begin);
+      return new_expr_fixlit(&tyInt, tok, 0);  // Dummy
+    }
 
     lhs = promote_to_int(lhs);
     if (is_const(lhs) && is_const(rhs)) {
@@ -449,14 +456,13 @@ static Expr *binary(Expr *lhs, Token *tok) {
       if (type->fixnum.kind < FX_INT)
         type = get_fixnum_type(FX_INT, type->fixnum.is_unsigned, type->qualifier);
       Fixnum value;
+      int amount = rhs->fixnum & (sizeof(Fixnum) * TARGET_CHAR_BIT - 1);
       if (type->fixnum.is_unsigned) {
         UFixnum lval = lhs->fixnum;
-        UFixnum rval = rhs->fixnum;
-        value = kind == TK_LSHIFT ? lval << rval : lval >> rval;
+        value = kind == TK_LSHIFT ? lval << amount : lval >> amount;
       } else {
         Fixnum lval = lhs->fixnum;
-        Fixnum rval = rhs->fixnum;
-        value = kind == TK_LSHIFT ? lval << rval : lval >> rval;
+        value = kind == TK_LSHIFT ? (Fixnum)((UFixnum)lval << amount) : lval >> amount;
       }
       value = wrap_value(value, type_size(type), type->fixnum.is_unsigned);
       return new_expr_fixlit(type, tok, value);
@@ -611,6 +617,8 @@ static Expr *lparen(Token *tok) {
       return grouping();
 
     // gcc extension: Statement expression ({})
+    if (curfunc == NULL)
+      parse_error(PE_FATAL, tok, "Statement expression not allowed outside of function");
     Stmt *block = parse_block(tok, NULL);
     consume(TK_RPAR, "`)' expected");
     Vector *stmts = block->block.stmts;
@@ -827,8 +835,6 @@ Expr *parse_assign(void) {
 Expr *parse_const_fixnum(void) {
   parsing_stmt = false;
   Expr *expr = parse_precedence(PREC_TERNARY);
-  if (expr == NULL)
-    return NULL;  // Error is already reported.
   if (is_const(expr) && is_fixnum(expr->type->kind))
     return expr;
   parse_error(PE_NOFATAL, expr->token, "constant integer expected");
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 9b0839a..6b01cce 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -255,7 +255,10 @@ Type *parse_raw_type(int *pstorage) {
       ++tc.int_num;
       continue;
     case TK_LONG:
-      ++tc.long_num;
+      if (tc.long_num >= 2)
+        parse_error(PE_NOFATAL, tok, ILLEGAL_TYPE_COMBINATION);
+      else
+        ++tc.long_num;
       continue;
     case TK_FLOAT:
       ++tc.float_num;
@@ -535,6 +538,10 @@ static Type *parse_direct_declarator_suffix(Type *type) {
     }
     const Type *basetype = type;
     Type *subtype = parse_direct_declarator_suffix(type);
+    if (subtype->kind == TY_ARRAY && subtype->pa.length == LEN_UND && subtype->pa.vla == NULL) {
+      parse_error(PE_NOFATAL, tok, "Incomplete array element");
+      subtype = arrayof(subtype->pa.ptrof, 1);  // Dummy
+    }
 #ifndef __NO_VLA
     if (vla == NULL && subtype->kind == TY_ARRAY && subtype->pa.vla != NULL) {
       // If subtype is VLA, then make parent VLA, too.
diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 10efbb4..59f4b94 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1731,7 +1731,6 @@ static void gen_defun(Function *func) {
       Stmt *last = stmts->data[stmts->len - 1];
       if (last->kind != ST_ASM && functype->func.ret->kind != TY_VOID &&
           !check_funcend_return(func->body_block)) {
-        assert(func->body_block->reach & REACH_STOP);
         ADD_CODE(OP_UNREACHABLE);
       }
     }
@@ -1996,8 +1995,8 @@ static Expr *proc_builtin_va_start(const Token *ident) {
   if (param->kind != EX_VAR)
     parse_error(PE_FATAL, param->token, "variable expected");
   const Vector *funparams = curfunc->params;
-  if (funparams == NULL ||
-      !equal_name(((VarInfo*)funparams->data[funparams->len - 1])->ident->ident, param->var.name)) {
+  const VarInfo *last = funparams != NULL && funparams->len > 0 ? funparams->data[funparams->len - 1] : NULL;
+  if (last == NULL || last->ident == NULL || !equal_name(last->ident->ident, param->var.name)) {
     parse_error(PE_FATAL, param->token, "must be the last parameter");
     return NULL;
   }
@@ -2038,6 +2037,8 @@ static Expr *proc_builtin_va_arg(const Token *ident) {
   Expr *ap = parse_assign();
   consume(TK_COMMA, "`,' expected");
   Type *type = parse_var_def(NULL, NULL, NULL);
+  if (type == NULL)
+    parse_error(PE_FATAL, ident, "type expected");
   consume(TK_RPAR, "`)' expected");
 
   mark_var_used(ap);
-- 
2.43.0


From 862c6d0ce8248fb73cb6ce861198b4750f63a1f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 069/162] fix: wcc: encode the addend of increment as a signed
 number

---
 src/wcc/gen_wasm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 59f4b94..043d7ec 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -760,10 +760,12 @@ static void gen_incdec(Expr *expr, bool needval) {
         int i1 = wtype == WT_I32 ? 0 : 1;
         int i2 = IS_DEC(expr) ? 2 : 0;
         ADD_CODE(CONST_OP[i1]);
-        ADD_ULEB128(addend);
+        ADD_LEB128(addend);
         ADD_CODE(ADDSUB_OP[i1 | i2]);
 
-        if (type_size(type) < type_size(&tyInt))
+        if (is_bool(type))
+          ADD_CODE(OP_I32_CONST, 0, OP_I32_NE);
+        else if (type_size(type) < type_size(&tyInt))
           gen_cast_to(target->type, &tyInt);
       }
       break;
-- 
2.43.0


From 1e6b3d0d20fb668b270246014bc5347c913ad932 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:36 +0000
Subject: [PATCH 070/162] fix: wcc: switch on values which do not fit in 32
 bits

---
 src/wcc/gen_wasm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 043d7ec..4205352 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1129,11 +1129,22 @@ static void gen_switch_table_jump(Stmt *stmt, Expr *value, Fixnum min, Fixnum ma
     }
   }
 
-  gen_expr(value, true);
   bool is_i64 = type_size(value->type) > I32_SIZE;
+  if (is_i64) {
+    // The table is indexed with 32 bits: values out of range must be excluded beforehand.
+    gen_expr(value, true);
+    ADD_CODE(OP_I64_CONST);
+    ADD_LEB128(min);
+    ADD_CODE(OP_I64_SUB, OP_I64_CONST);
+    ADD_LEB128((int64_t)vrange);
+    ADD_CODE(OP_I64_GE_U, OP_BR_IF);
+    ADD_ULEB128(default_index);
+  }
+
+  gen_expr(value, true);
   if (min != 0) {
     ADD_CODE(is_i64 ? OP_I64_CONST : OP_I32_CONST);
-    ADD_LEB128(min);
+    ADD_LEB128(is_i64 ? min : (Fixnum)(int32_t)min);
     ADD_CODE(is_i64 ? OP_I64_SUB : OP_I32_SUB);
   }
   if (is_i64)
@@ -1209,7 +1220,7 @@ static void gen_switch(Stmt *stmt) {
       max = v;
   }
 
-  if (case_count >= 4 && (max - min) / 2 <= case_count) {
+  if (case_count >= 4 && ((UFixnum)max - (UFixnum)min) / 2 <= (UFixnum)case_count) {
     gen_switch_table_jump(stmt, value, min, max, default_index);
   } else {
     bool is_i64 = type_size(value->type) > I32_SIZE;
@@ -1221,7 +1232,7 @@ static void gen_switch(Stmt *stmt) {
         continue;
       gen_expr(value, true);
       ADD_CODE(op_const);
-      ADD_LEB128(c->case_.value->fixnum);
+      ADD_LEB128(is_i64 ? c->case_.value->fixnum : (Fixnum)(int32_t)c->case_.value->fixnum);
       ADD_CODE(op_eq, OP_BR_IF);
       int index = c->case_.block_index;
       if (index < 0)
-- 
2.43.0


From 38a1919659d39c5c1d2e58ffdc3dfb4e735b9c83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 071/162] fix: wcc: truncate the result of increment to its
 type

---
 src/wcc/traverse.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index a3094b3..e453881 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -424,10 +424,14 @@ static void te_incdec(Expr **pexpr, bool needval) {
                                    : type->kind == TY_FLONUM ? new_expr_flolit(type, token, 1)
 #endif
                                                              : new_expr_fixlit(type, token, 1);
-  Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp,
-                                  !post ? new_expr_bop(op, type, token, deref_p, one) : deref_p);
-  Expr *assign_deref_p = new_expr_bop(EX_ASSIGN, &tyVoid, token, deref_p,
-                                      !post ? tmp : new_expr_bop(op, type, token, tmp, one));
+  Expr *calc = new_expr_bop(op, type, token, post ? tmp : deref_p, one);
+  if (is_bool(type) || (is_fixnum(type->kind) && type_size(type) < type_size(&tyInt))) {
+    // The result of i32 operation must be truncated.
+    calc->type = &tyInt;
+    calc = make_cast(type, token, calc, true);
+  }
+  Expr *assign_tmp = new_expr_bop(EX_ASSIGN, &tyVoid, token, tmp, !post ? calc : deref_p);
+  Expr *assign_deref_p = new_expr_bop(EX_ASSIGN, &tyVoid, token, deref_p, !post ? tmp : calc);
 
   *pexpr = new_expr_bop(EX_COMMA, type, token, assign_p,
                         new_expr_bop(EX_COMMA, type, token, assign_tmp,
-- 
2.43.0


From c4ecd4321bc9996f675e772f53a0aae25ec37069 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 072/162] fix: wcc: take the size of a flexible array member
 into account for data layout

---
 src/wcc/emit_wasm.c |  6 +++---
 src/wcc/traverse.c  |  2 +-
 src/wcc/wcc.h       |  2 ++
 src/wcc/wcc_util.c  | 28 ++++++++++++++++++++++++++++
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/wcc/emit_wasm.c b/src/wcc/emit_wasm.c
index 4df6608..1c98432 100644
--- a/src/wcc/emit_wasm.c
+++ b/src/wcc/emit_wasm.c
@@ -211,7 +211,7 @@ static Vector *construct_data_segment(void) {  // <DataSegment*>
         // Output BSS as zero-filled data to tell its size.
         DataStorage *ds = &segment->ds;
         size_t start = ds->len;
-        size_t size = type_size(varinfo->type);
+        size_t size = gvar_size(varinfo);
         data_reserve(ds, start + size);
         memset(ds->buf + start, 0, size);
         ds->len += size;
@@ -219,7 +219,7 @@ static Vector *construct_data_segment(void) {  // <DataSegment*>
       vec_push(segments, segment);
 
 #ifndef NDEBUG
-      address = adr + type_size(varinfo->type);
+      address = adr + gvar_size(varinfo);
 #endif
     }
   }
@@ -639,7 +639,7 @@ static void emit_linking_section(EmitWasm *ew) {
         if (!(info->flag & GVF_UNRESOLVED)) {  // Defined global: put name. otherwise not required.
           data_uleb128(&linking_section, -1, info->item_index);
           data_uleb128(&linking_section, -1, 0);  // offset (must start from the begining)
-          data_uleb128(&linking_section, -1, type_size(varinfo->type));  // size
+          data_uleb128(&linking_section, -1, gvar_size(varinfo));  // size
         }
       } else {
         data_push(&linking_section, SIK_SYMTAB_GLOBAL);  // kind
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index e453881..07a9bcb 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -1043,7 +1043,7 @@ void traverse_ast(Vector *decls) {
         // Mapped to memory
         address = ALIGN(address, align_size(varinfo->type));
         info->non_prim.address = address;
-        size_t size = type_size(varinfo->type);
+        size_t size = gvar_size(varinfo);
         address += size;
         VERBOSE("%04x: %.*s  (size=0x%zx)\n", info->non_prim.address, NAMES(varinfo->ident->ident), size);
       }
diff --git a/src/wcc/wcc.h b/src/wcc/wcc.h
index 025f2d1..0b98c80 100644
--- a/src/wcc/wcc.h
+++ b/src/wcc/wcc.h
@@ -80,6 +80,7 @@ void traverse_ast(Vector *decls);
 
 bool is_stack_param(const Type *type);
 GVarInfo *get_gvar_info_from_name(const Name *name);
+size_t gvar_size(const VarInfo *varinfo);  // Including flexible array member.
 GVarInfo *get_gvar_info(Expr *expr);
 int getsert_func_type_index(const Type *type, bool reg);
 static inline int get_func_type_index(const Type *type)  { return getsert_func_type_index(type, false); }
@@ -150,6 +151,7 @@ extern int compile_unit_flag;
 uint32_t get_indirect_function_index(const Name *name);
 GVarInfo *register_gvar_info(const Name *name, VarInfo *varinfo);
 GVarInfo *get_gvar_info_from_name(const Name *name);
+size_t gvar_size(const VarInfo *varinfo);  // Including flexible array member.
 int getsert_func_type(unsigned char *buf, size_t size, bool reg);
 TagInfo *getsert_tag(const Name *name, int typeindex);
 
diff --git a/src/wcc/wcc_util.c b/src/wcc/wcc_util.c
index 3c689cf..4e4b65c 100644
--- a/src/wcc/wcc_util.c
+++ b/src/wcc/wcc_util.c
@@ -44,6 +44,34 @@ GVarInfo *get_gvar_info_from_name(const Name *name) {
   return table_get(&gvar_info_table, name);
 }
 
+static size_t flexible_array_size(const Type *type, const Initializer *init) {
+  if (init == NULL || init->kind != IK_MULTI || type->kind != TY_STRUCT || !type->struct_.info->is_flexible)
+    return 0;
+  const StructInfo *sinfo = type->struct_.info;
+  if (init->multi->len < sinfo->member_count)
+    return 0;
+  size_t size = 0;
+  for (int i = 0; i < sinfo->member_count; ++i) {
+    const Type *mtype = sinfo->members[i].type;
+    const Initializer *minit = init->multi->data[i];
+    if (minit == NULL)
+      continue;
+    if (mtype->kind != TY_ARRAY)
+      size += flexible_array_size(mtype, minit);
+    else if (mtype->pa.length >= 0)
+      continue;
+    else if (minit->kind == IK_MULTI)
+      size += type_size(mtype->pa.ptrof) * minit->multi->len;
+    else if (minit->kind == IK_SINGLE)
+      size += type_size(strip_cast(minit->single)->type);  // String literal.
+  }
+  return size;
+}
+
+size_t gvar_size(const VarInfo *varinfo) {
+  return type_size(varinfo->type) + flexible_array_size(varinfo->type, varinfo->global.init);
+}
+
 int getsert_func_type(unsigned char *buf, size_t size, bool reg) {
   for (int i = 0, len = functypes->len; i < len; ++i) {
     const DataStorage *t = functypes->data[i];
-- 
2.43.0


From bd9ace38bd0c782f162f1cd7841e102493f59a73 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 073/162] fix: wcc: local symbols must not be bound to the same
 name in other objects

---
 src/wcc/wasm_linker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index bb49804..b1772f7 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -1133,7 +1133,8 @@ static void apply_relocation_wasmobj(WasmLinker *linker, WasmObj *wasmobj) {
         error("illegal index for reloc: %d", p->index);
       SymbolInfo *sym = symtab->data[p->index];
       SymbolInfo *target = sym;
-      if (!table_try_get(&linker->defined, sym->name, (void**)&target))
+      if (!(sym->flags & WASM_SYM_BINDING_LOCAL) &&  // A local symbol must be bound to itself.
+          !table_try_get(&linker->defined, sym->name, (void**)&target))
         table_try_get(&linker->unresolved, sym->name, (void**)&target);
 
       switch (p->type) {
-- 
2.43.0


From 8e679a11d3263e86c1c597fc5b2d9b66f7edc829 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 074/162] fix: wcc: index of parameters after struct parameters

---
 src/wcc/gen_wasm.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 4205352..09f5c18 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1620,7 +1620,7 @@ static uint32_t allocate_local_variables(Function *func, DataStorage *data) {
         if (k >= 0)
           param_index = k;
       }
-      vreg->param_index = ret_param + param_index;
+      vreg->param_index = param_no;  // Parameters passed through stack have no index.
       bool stack_param = is_stack_param(varinfo->type);
       if ((!stack_param && varinfo->storage & VS_REF_TAKEN) ||  // `&` taken wasm local var.
           (stack_param && param_index < 0)) {                   // non-prim variable (not function parameter)
@@ -1682,8 +1682,12 @@ static void gen_defun(Function *func) {
     assert(varinfo != NULL);
     VReg *vreg = varinfo->local.vreg;
     assert(vreg != NULL);
+    // Pointer to variadic arguments is put after parameters: struct parameters are passed through stack.
+    uint32_t va_index = functype->func.ret->kind != TY_VOID && !is_prim_type(functype->func.ret) ? 1 : 0;
+    for (int i = 0; i < functype->func.params->len; ++i)
+      va_index += !is_stack_param(functype->func.params->data[i]);
     ADD_CODE(OP_LOCAL_GET);
-    ADD_ULEB128(functype->func.params->len);
+    ADD_ULEB128(va_index);
     ADD_CODE(OP_LOCAL_SET);
     ADD_ULEB128(vreg->prim.local_index);
   }
-- 
2.43.0


From da314d872cfe4bfd18d70ef9ff3c872523229b08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 075/162] fix: wcc: offsets of struct and variadic arguments on
 the stack

---
 src/wcc/gen_wasm.c | 8 +++++++-
 src/wcc/traverse.c | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 09f5c18..f5ba511 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -300,8 +300,9 @@ static void gen_funcall(Expr *expr) {
   for (int i = 0; i < param_count; ++i) {
     Expr *arg = args->data[i];
     if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
+      sarg_siz = ALIGN(sarg_siz, align_size(arg->type)) + type_size(arg->type);
   }
+  sarg_siz = ALIGN(sarg_siz, 4);
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
@@ -395,6 +396,11 @@ static void gen_funcall(Expr *expr) {
     // Top of vaargs.
     if (vaarg_bufsiz > 0) {
       gen_expr(lspvar, true);
+      if (sarg_siz > 0) {
+        ADD_CODE(OP_I32_CONST);
+        ADD_LEB128(sarg_siz);
+        ADD_CODE(OP_I32_ADD);
+      }
     } else {
       ADD_CODE(OP_I32_CONST, 0);  // NULL
     }
diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 07a9bcb..160497e 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -224,8 +224,9 @@ static size_t calc_funcall_work_size(Expr *expr) {
   for (int i = 0; i < param_count; ++i) {
     Expr *arg = args->data[i];
     if (is_stack_param(arg->type))
-      sarg_siz += ALIGN(type_size(arg->type), 4);
+      sarg_siz = ALIGN(sarg_siz, align_size(arg->type)) + type_size(arg->type);
   }
+  sarg_siz = ALIGN(sarg_siz, 4);
 
   size_t vaarg_bufsiz = 0;
   if (functype->func.vaargs) {
-- 
2.43.0


From 5065c86dd348002bc482710b53e1b24e48747406 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 076/162] fix: wcc: nested function calls must not share the
 work area of arguments

---
 src/wcc/traverse.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 160497e..11376c2 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -245,6 +245,8 @@ static size_t calc_funcall_work_size(Expr *expr) {
   return sarg_siz + vaarg_bufsiz;
 }
 
+static int work_funcall_count;  // Number of function calls which use the work area on the stack.
+
 static void te_funcall(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
   UNUSED(needval);
@@ -308,14 +310,31 @@ static void te_funcall(Expr **pexpr, bool needval) {
   }
 
   traverse_func_expr(&expr->funcall.func);
-  for (int i = 0, n = args->len; i < n; ++i)
+  Expr *hoisted = NULL;
+  for (int i = 0, n = args->len; i < n; ++i) {
+    int count = work_funcall_count;
     traverse_expr((Expr**)&args->data[i], true);
+    if (work_size > 0 && work_funcall_count != count) {
+      // The argument uses the same work area on the stack: evaluate it beforehand.
+      //   f(g(...))  =>  (tmp = g(...), f(tmp))
+      Expr *arg = args->data[i];
+      Expr *tmp = alloc_tmp_var(curscope, arg->type);
+      Expr *assign = new_expr_bop(EX_ASSIGN, &tyVoid, arg->token, tmp, arg);
+      hoisted = hoisted == NULL ? assign : new_expr_bop(EX_COMMA, &tyVoid, arg->token, hoisted, assign);
+      args->data[i] = tmp;
+    }
+  }
+  if (work_size > 0)
+    ++work_funcall_count;
 
   if (func->kind == EX_VAR && func->type->kind == TY_FUNC) {  // Function must be placed in global scope.
     BuiltinFunctionProc *proc = table_get(&builtin_function_table, func->var.name);
     if (proc != NULL)
       (*proc)(expr, BFP_TRAVERSE);
   }
+
+  if (hoisted != NULL)
+    *pexpr = new_expr_bop(EX_COMMA, expr->type, expr->token, hoisted, expr);
 }
 
 static void te_noop(Expr **pexpr, bool needval) { UNUSED(pexpr); UNUSED(needval); }
-- 
2.43.0


From a2236260c8734e53de77aa7bccf8b9f89747882c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 077/162] fix: wcc: the last expression of a statement
 expression gives its value

---
 src/wcc/traverse.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/wcc/traverse.c b/src/wcc/traverse.c
index 11376c2..b26c965 100644
--- a/src/wcc/traverse.c
+++ b/src/wcc/traverse.c
@@ -479,8 +479,25 @@ static void te_complit(Expr **pexpr, bool needval) {
 
 static void te_block(Expr **pexpr, bool needval) {
   Expr *expr = *pexpr;
-  UNUSED(needval);
-  traverse_stmt(expr->block);
+  Stmt *block = expr->block;
+  assert(block->kind == ST_BLOCK);
+  Vector *stmts = block->block.stmts;
+  Stmt *last = stmts->len > 0 ? stmts->data[stmts->len - 1] : NULL;
+  if (!needval || last == NULL || last->kind != ST_EXPR) {
+    traverse_stmt(block);
+    return;
+  }
+
+  // The last expression gives the value of the block.
+  --stmts->len;
+  traverse_stmt(block);
+  ++stmts->len;
+
+  Scope *bak = curscope;
+  if (block->block.scope != NULL)
+    curscope = block->block.scope;
+  traverse_expr(&last->expr, true);
+  curscope = bak;
 }
 
 static void te_inlined(Expr **pexpr, bool needval) {
-- 
2.43.0


From 88333faae4028b88a7554257d4597b68aeb933c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 078/162] fix: wcc: assignment to an unused static struct

---
 src/wcc/gen_wasm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index f5ba511..cda54ed 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -846,6 +846,16 @@ static void gen_assign_sub(Expr *lhs, Expr *rhs) {
     break;
   case TY_STRUCT:
     {
+      if (lhs->kind == EX_VAR) {
+        const VarInfo *varinfo = scope_find(lhs->var.scope, lhs->var.name, NULL);
+        assert(varinfo != NULL);
+        if ((varinfo->storage & (VS_STATIC | VS_USED)) == VS_STATIC) {
+          // Assignment can be omitted.
+          gen_expr(rhs, false);
+          return;
+        }
+      }
+
       size_t size = type_size(lhs->type);
       if (size > 0) {
         gen_lval(lhs);
-- 
2.43.0


From 2c799621acd3cbd4b15d6ccde4af3c2bc9007bc9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:50:05 +0000
Subject: [PATCH 079/162] fix: linker map file: order of symbols at the same
 address

---
 src/ld/ld.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index 6912ed5..0667a5f 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -784,6 +784,7 @@ typedef struct {
   const char *name;
   uint64_t address;
   int flag;
+  int order;
 } DumpSymbol;
 
 static void dump_map_elfobj(LinkEditor *ld, ElfObj *elfobj, File *file, ArContent *content,
@@ -824,6 +825,7 @@ static void dump_map_elfobj(LinkEditor *ld, ElfObj *elfobj, File *file, ArConten
     ds->name = name;
     ds->address = address;
     ds->flag = flag;
+    ds->order = symbols->len;
     vec_push(symbols, ds);
   }
 }
@@ -839,6 +841,7 @@ static void dump_map_file(LinkEditor *ld, Vector *symbols) {
     ds->name = name->chars;  // TODO: Confirm nul-terminated.
     ds->address = address;
     ds->flag = DSF_GENERATED;
+    ds->order = symbols->len;
     vec_push(symbols, ds);
   }
 
@@ -865,7 +868,7 @@ static int sort_dump_symbol(const void *a, const void *b) {
   DumpSymbol *dsb = *(DumpSymbol**)b;
   if (dsa->address != dsb->address)
     return dsa->address < dsb->address ? -1 : 1;
-  return a < b ? -1 : 1;
+  return dsa->order < dsb->order ? -1 : dsa->order > dsb->order ? 1 : 0;
 }
 
 static bool output_map_file(LinkEditor *ld, const char *outmapfn, uint64_t entry_address,
-- 
2.43.0


From 99101971154370f450026ca37ac06a4f548e6791 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 080/162] fix: xcc: -l with a separate argument names the
 library given

---
 src/xcc/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 9af5a0a..5a1733d 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -446,7 +446,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
-- 
2.43.0


From 9f3cebb314dd78635131559395ddd109c9d45353 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:55:01 +0000
Subject: [PATCH 081/162] fix: xcc: every process of the pipeline is waited
 for, and its failure reported

The assembler might be reaped as cpp or cc1, the parent kept the read sides of
the pipes so that the compiler blocked when the assembler was gone, and a
failed compilation left a part of the output file.
---
 src/xcc/main.c | 185 ++++++++++++++++++++-----------------------------
 1 file changed, 77 insertions(+), 108 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 5a1733d..d9b4ea5 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -28,6 +28,19 @@ static pid_t fork1(void) {
   return pid;
 }
 
+static Vector remove_on_exit;
+
+static void remove_tmp_files(void) {
+  for (int i = 0; i < remove_on_exit.len; ++i) {
+    const char *fn = remove_on_exit.data[i];
+    remove(fn);
+  }
+}
+
+static void clear_tmp_files(void) {
+  remove_on_exit.len = 0;
+}
+
 static int wait_process(pid_t pid) {
   int status = -1;
   if (waitpid(pid, &status, 0) < 0)
@@ -35,108 +48,76 @@ static int wait_process(pid_t pid) {
   return status;
 }
 
-static pid_t wait_child(int *status) {
-  *status = -1;
-  return waitpid(0, status, 0);
-}
-
-// command > ofd
-static pid_t exec_with_ofd(char **command, int ofd) {
+// command < ifd > ofd, `unused' is closed in the child process.
+static pid_t exec_with_fds(char **command, int ifd, int ofd, int unused) {
   pid_t pid = fork1();
   if (pid == 0) {
-    if (ofd >= 0 && ofd != STDOUT_FILENO) {
-      close(STDOUT_FILENO);
-      if (dup(ofd) == -1)
-        error("dup failed");
-    }
+    if (unused >= 0)
+      close(unused);
 
-    if (execvp(command[0], command) < 0) {
-      perror(command[0]);
-      exit(1);
+    if (ifd >= 0 && ifd != STDIN_FILENO) {
+      close(STDIN_FILENO);
+      if (dup(ifd) == -1)
+        error("dup failed");
+      close(ifd);
     }
-  }
-  return pid;
-}
-
-// | command > ofd
-static pid_t pipe_exec(char **command, int ofd, int fd[2]) {
-  if (pipe(fd) < 0)
-    error("pipe failed");
-
-  pid_t pid = fork1();
-  if (pid == 0) {
-    close(STDIN_FILENO);
-    if (dup(fd[0]) == -1)
-      error("dup failed");
 
     if (ofd >= 0 && ofd != STDOUT_FILENO) {
       close(STDOUT_FILENO);
       if (dup(ofd) == -1)
         error("dup failed");
+      close(ofd);
     }
 
-    close(fd[0]);
-    close(fd[1]);
-    if (execvp(command[0], command) < 0) {
-      perror(command[0]);
-      exit(1);
-    }
+    execvp(command[0], command);
+    perror(command[0]);
+    // Leave temporary files to the parent process.
+    clear_tmp_files();
+    exit(1);
   }
   return pid;
 }
 
-static Vector remove_on_exit;
-
-static void remove_tmp_files(void) {
-  for (int i = 0; i < remove_on_exit.len; ++i) {
-    const char *fn = remove_on_exit.data[i];
-    remove(fn);
-  }
-}
-
-static int compile(const char *src, Vector *cpp_cmd, Vector *cc1_cmd, int ofd) {
-  int ofd2 = ofd;
-  int cc_fd[2];
-  pid_t cc_pid = -1;
-  int running = 0;
-  if (cc1_cmd != NULL) {
-    cc_pid = pipe_exec((char**)cc1_cmd->data, ofd, cc_fd);
-    ofd2 = cc_fd[1];
-    ++running;
+// Run commands as a pipeline: the last command outputs to ofd.
+static int pipe_commands(char **commands[], int count, int ofd) {
+  enum { MAX_COMMAND = 3 };
+  pid_t pids[MAX_COMMAND];
+  int pipes[MAX_COMMAND];  // Write side of the pipe from the process.
+  assert(0 < count && count <= MAX_COMMAND);
+
+  for (int i = count; --i >= 0; ) {
+    int fd[2] = {-1, -1};
+    if (i > 0 && pipe(fd) < 0)
+      error("pipe failed");
+    pids[i] = exec_with_fds(commands[i], fd[0], ofd, fd[1]);
+    pipes[i] = i < count - 1 ? ofd : -1;
+    if (fd[0] >= 0)
+      close(fd[0]);
+    ofd = fd[1];
   }
 
-  // When src is NULL, no input file is given and cpp read from stdin.
-  cpp_cmd->data[cpp_cmd->len - 2] = strcmp(src, "-") == 0 ? NULL : (void*)src;
-  pid_t cpp_pid = exec_with_ofd((char**)cpp_cmd->data, ofd2);
-  ++running;
-
+  // Each process doesn't see the end of its input until the former process has succeeded.
   int res = 0;
-  for (; running > 0; --running) {
-    int status;
-    pid_t done = wait_child(&status);  // cpp or cc1
-    if (done > 0) {
-      res |= status;
-      if (done == cpp_pid) {
-        cpp_pid = -1;
-        if (cc_pid != -1) {
-          if (status != 0) {
-            // Illegal: cpp exit with failure.
-            kill(cc_pid, SIGKILL);
-            break;
-          }
-          close(cc_fd[0]);
-          close(cc_fd[1]);
-        }
-      } else if (done == cc_pid) {
-        cc_pid = -1;
-        if (cpp_pid != -1) {
-          // Illegal: cc dies earlier than cpp.
-          kill(cpp_pid, SIGKILL);
-          break;
+  for (int running = count; running > 0; ) {
+    int status = -1;
+    pid_t done = waitpid(-1, &status, 0);
+    if (done < 0)
+      error("wait failed");
+    for (int i = 0; i < count; ++i) {
+      if (pids[i] != done)
+        continue;
+      pids[i] = -1;
+      --running;
+      if (status != 0 || (i > 0 && pids[i - 1] != -1)) {
+        // Failed, or finished earlier than the former process.
+        res |= status != 0 ? status : 1;
+        for (int j = 0; j < count; ++j) {
+          if (pids[j] != -1)
+            kill(pids[j], SIGKILL);
         }
       }
-    } else {
-      res |= 1;
+      if (pipes[i] != -1)
+        close(pipes[i]);
     }
   }
   return res;
@@ -182,36 +163,29 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
     }
   }
 
-  int as_fd[2];
-  pid_t as_pid = -1;
+  // When "-" is given for the source, cpp read from stdin.
+  cpp_cmd->data[cpp_cmd->len - 2] = strcmp(source_fn, "-") == 0 ? NULL : (void*)source_fn;
 
+  char **commands[3];
+  int count = 0;
+  commands[count++] = (char**)cpp_cmd->data;
+  if (out_type > OutPreprocess)
+    commands[count++] = (char**)cc1_cmd->data;
   if (out_type > OutAssembly) {
     assert(as_cmd->len >= 3);
     as_cmd->data[as_cmd->len - 3] = (void*)objfn;  // Overwrite output filename.
     as_cmd->data[as_cmd->len - 2] = "-";  // Overwrite source filename.
-    as_pid = pipe_exec((char**)as_cmd->data, -1, as_fd);
-    ofd = as_fd[1];
+    commands[count++] = (char**)as_cmd->data;
   }
-
-  int res = compile(source_fn, cpp_cmd, out_type == OutPreprocess ? NULL : cc1_cmd, ofd);
+  int res = pipe_commands(commands, count, ofd);
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
 
-  if (res != 0 && as_pid != -1) {
-    kill(as_pid, SIGKILL);
-    if (ofn != NULL && is_file(ofn))  // Leave a device or a pipe.
-      remove(ofn);
-  }
-  if (as_pid != -1) {
-    close(as_fd[0]);
-    close(as_fd[1]);
-    as_pid = -1;
-    res |= wait_process(as_pid);
-  }
-  if (obj_fd != -1) {
+  if (res != 0 && ofn != NULL && is_file(ofn))  // Leave a device or a pipe.
+    remove(ofn);
+  if (obj_fd != -1)
     close(obj_fd);
-  }
   return res;
 }
 
@@ -234,9 +208,7 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
     as_cmd->data[as_cmd->len - 2] = (void*)source_fn;  // Overwrite source filename.
   }
 
-  int status = 0;
-  pid_t as_pid = exec_with_ofd((char**)as_cmd->data, ofd);
-  waitpid(as_pid, &status, 0);
+  int status = wait_process(exec_with_fds((char**)as_cmd->data, -1, ofd, -1));
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
@@ -606,10 +578,7 @@ static int do_compile(Options *opts, const char *root) {
     }
 
     vec_push(opts->ld_cmd, NULL);
-    pid_t ld_pid = exec_with_ofd((char**)opts->ld_cmd->data, -1);
-    int status;
-    waitpid(ld_pid, &status, 0);
-    res |= status;
+    res |= wait_process(exec_with_fds((char**)opts->ld_cmd->data, -1, -1, -1));
   }
 
   return res == 0 ? 0 : 1;
-- 
2.43.0


From 7fe4b7e5267f67ee30afb00e6691c07fbe6ed92b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:55:25 +0000
Subject: [PATCH 082/162] fix: xcc: assembly sources: object file beside the
 source, and -S or -E overwriting the source

Outputs are opened only for sources which make them, and don't replace the
standard output of xcc itself.
---
 src/xcc/main.c | 86 +++++++++++++++++++++++---------------------------
 1 file changed, 40 insertions(+), 46 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index d9b4ea5..7567a2c 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -41,6 +41,19 @@ static void clear_tmp_files(void) {
   remove_on_exit.len = 0;
 }
 
+static const char *create_tmp_object(void) {
+  char template[] = "/tmp/xcc-XXXXXX.o";
+  int fd = mkstemps(template, 2);
+  if (fd == -1) {
+    perror("Failed to open output file");
+    exit(1);
+  }
+  close(fd);
+  const char *fn = strdup(template);
+  vec_push(&remove_on_exit, fn);
+  return fn;
+}
+
 static int wait_process(pid_t pid) {
   int status = -1;
   if (waitpid(pid, &status, 0) < 0)
@@ -147,21 +160,8 @@ enum OutType {
 static int compile_csource(const char *source_fn, enum OutType out_type, const char *ofn, int ofd,
                            Vector *cpp_cmd, Vector *cc1_cmd, Vector *as_cmd, Vector *ld_cmd) {
   const char *objfn = NULL;
-  int obj_fd = -1;
-  if (out_type > OutAssembly) {
-    if (ofn != NULL && out_type < OutExecutable) {
-      objfn = ofn;
-    } else {
-      char template[] = "/tmp/xcc-XXXXXX.o";
-      obj_fd = mkstemps(template, 2);
-      if (obj_fd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-      objfn = strdup(template);
-      vec_push(&remove_on_exit, objfn);
-    }
-  }
+  if (out_type > OutAssembly)
+    objfn = ofn != NULL && out_type < OutExecutable ? ofn : create_tmp_object();
 
   // When "-" is given for the source, cpp read from stdin.
   cpp_cmd->data[cpp_cmd->len - 2] = strcmp(source_fn, "-") == 0 ? NULL : (void*)source_fn;
@@ -184,31 +184,17 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
 
   if (res != 0 && ofn != NULL && is_file(ofn))  // Leave a device or a pipe.
     remove(ofn);
-  if (obj_fd != -1)
-    close(obj_fd);
   return res;
 }
 
-static int compile_asm(const char *source_fn, enum OutType out_type, const char *ofn, int ofd,
+static int compile_asm(const char *source_fn, enum OutType out_type, const char *ofn,
                        Vector *as_cmd, Vector *ld_cmd) {
-  const char *objfn = NULL;
-  if (out_type > OutAssembly) {
-    if (ofn != NULL && out_type < OutExecutable) {
-      objfn = ofn;
-    } else {
-      size_t len = strlen(source_fn);
-      char *p = malloc_or_die(len + 3);
-      memcpy(p, source_fn, len);
-      strcpy(p + len, ".o");
-      objfn = p;
-    }
+  const char *objfn = out_type < OutExecutable ? ofn : create_tmp_object();
 
-    assert(as_cmd->len >= 3);
-    as_cmd->data[as_cmd->len - 3] = (void*)objfn;  // Overwrite output filename.
-    as_cmd->data[as_cmd->len - 2] = (void*)source_fn;  // Overwrite source filename.
-  }
-
-  int status = wait_process(exec_with_fds((char**)as_cmd->data, -1, ofd, -1));
+  assert(as_cmd->len >= 3);
+  as_cmd->data[as_cmd->len - 3] = (void*)objfn;  // Overwrite output filename.
+  as_cmd->data[as_cmd->len - 2] = (void*)source_fn;  // Overwrite source filename.
+  int status = wait_process(exec_with_fds((char**)as_cmd->data, -1, -1, -1));
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
@@ -501,7 +487,6 @@ static void parse_options(int argc, char *argv[], Options *opts) {
 
 static int do_compile(Options *opts, const char *root) {
   UNUSED(root);
-  int ofd = STDOUT_FILENO;
   int res = 0;
 #if !defined(USE_SYS_LD)
   // The startup code comes first, because `main' might be in an archive.
@@ -529,15 +514,6 @@ static int do_compile(Options *opts, const char *root) {
       }
     }
 
-    if (opts->out_type <= OutAssembly && outfn != NULL && strcmp(outfn, "-") != 0) {
-      close(STDOUT_FILENO);
-      ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-      if (ofd == -1) {
-        perror("Failed to open output file");
-        exit(1);
-      }
-    }
-
     enum SourceType st = opts->src_type;
     if (src != NULL) {
       char *ext = get_ext(src);
@@ -547,6 +523,22 @@ static int do_compile(Options *opts, const char *root) {
       else if (strcasecmp(ext, "a") == 0)  st = ArchiveFile;
     }
 
+    if (st == Assembly && opts->out_type <= OutAssembly) {
+      // Nothing to do: Don't overwrite the source with its output.
+      fprintf(stderr, "Warning: %s: assembly source is not used\n", src);
+      continue;
+    }
+
+    int ofd = STDOUT_FILENO;
+    if (st == Clanguage && opts->out_type <= OutAssembly && outfn != NULL &&
+        strcmp(outfn, "-") != 0) {
+      ofd = open(outfn, O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+      if (ofd == -1) {
+        perror("Failed to open output file");
+        exit(1);
+      }
+    }
+
     switch (st) {
     case UnknownSource:
       fprintf(stderr, "Unknown source type: %s\n", src);
@@ -557,7 +549,7 @@ static int do_compile(Options *opts, const char *root) {
                             opts->as_cmd, opts->ld_cmd);
       break;
     case Assembly:
-      res = compile_asm(src, opts->out_type, outfn, ofd, opts->as_cmd, opts->ld_cmd);
+      res = compile_asm(src, opts->out_type, outfn, opts->as_cmd, opts->ld_cmd);
       break;
     case ObjectFile:
     case ArchiveFile:
@@ -565,6 +557,8 @@ static int do_compile(Options *opts, const char *root) {
         vec_push(opts->ld_cmd, src);
       break;
     }
+    if (ofd != STDOUT_FILENO)
+      close(ofd);
     if (res != 0)
       break;
   }
-- 
2.43.0


From 9d0d70b187f9a3494a8faf58d6a92e7414772a9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:55:25 +0000
Subject: [PATCH 083/162] fix: change_ext: room for the terminator

---
 src/util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/util.c b/src/util/util.c
index ea06fe7..173f8f8 100644
--- a/src/util/util.c
+++ b/src/util/util.c
@@ -244,7 +244,7 @@ char *change_ext(const char *path, const char *ext) {
   const char *q = strrchr(p, '.');
   size_t len = q != NULL ? (size_t)(q - path) : strlen(path);
   size_t ext_len = strlen(ext);
-  char *s = malloc(len + 1 + ext_len);
+  char *s = malloc(len + 1 + ext_len + 1);
   if (s != NULL) {
     memcpy(s, path, len);
     s[len] = '.';
-- 
2.43.0


From 3d49dfadd6dd08a6c79530cef8ec6f99f98569ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:55:45 +0000
Subject: [PATCH 084/162] fix: failures of writing the output are reported by
 cpp, cc1, as and ld

---
 src/as/emit_elf.c |  4 ++++
 src/cc/cc1.c      |  2 ++
 src/cpp/cpp.c     |  3 +++
 src/ld/ld.c       | 11 ++++++++---
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/as/emit_elf.c b/src/as/emit_elf.c
index 8d02654..afbeb0e 100644
--- a/src/as/emit_elf.c
+++ b/src/as/emit_elf.c
@@ -525,6 +525,10 @@ int emit_elf_obj(const char *ofn, Vector *sections, Table *label_table, Vector *
   put_padding(ofp, sh_ofs);
   fwrite(section_headers.buf, section_headers.len, 1, ofp);
 
+  if (fclose(ofp) != 0) {
+    fprintf(stderr, "Failed to write output file: %s\n", ofn != NULL ? ofn : "*stdout*");
+    return 1;
+  }
   return 0;
 }
 #endif
diff --git a/src/cc/cc1.c b/src/cc/cc1.c
index 9bc7630..3115cf0 100644
--- a/src/cc/cc1.c
+++ b/src/cc/cc1.c
@@ -178,5 +178,7 @@ int main(int argc, char *argv[]) {
   gen(toplevel);
   emit_code(toplevel);
 
+  if (fclose(stdout) != 0)
+    error("Failed to write output");
   return 0;
 }
diff --git a/src/cpp/cpp.c b/src/cpp/cpp.c
index eeee365..50e8314 100644
--- a/src/cpp/cpp.c
+++ b/src/cpp/cpp.c
@@ -66,5 +66,8 @@ int main(int argc, char *argv[]) {
   } else {
     preprocess(stdin, "*stdin*");
   }
+
+  if (fclose(ofp) != 0)
+    error("Failed to write output");
   return 0;
 }
diff --git a/src/ld/ld.c b/src/ld/ld.c
index 0667a5f..e0aaf35 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -770,7 +770,10 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
     put_padding(fp, offsets[sec]);
     output_section(fp, &section_groups[sec]);
   }
-  fclose(fp);
+  if (fclose(fp) != 0) {
+    perror("Failed to write output file");
+    return false;
+  }
 
   return true;
 }
@@ -906,8 +909,10 @@ static bool output_map_file(LinkEditor *ld, const char *outmapfn, uint64_t entry
   fprintf(mapfp, "\n### Entry point\n");
   fprintf(mapfp, "%9" PRIx64 ": %.*s\n", entry_address, NAMES(entry_name));
 
-  if (mapfp != stdout)
-    fclose(mapfp);
+  if ((mapfp != stdout ? fclose(mapfp) : fflush(mapfp)) != 0) {
+    perror("Failed to write map file");
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From df13a89dfbae30b8031a2555cb0d92291423641c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:55:46 +0000
Subject: [PATCH 085/162] fix: xcc: remove what a failed assembler or linker
 has left in the output file

---
 src/xcc/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/xcc/main.c b/src/xcc/main.c
index 7567a2c..4eae1b4 100644
--- a/src/xcc/main.c
+++ b/src/xcc/main.c
@@ -41,6 +41,11 @@ static void clear_tmp_files(void) {
   remove_on_exit.len = 0;
 }
 
+static void remove_output(const char *ofn) {
+  if (ofn != NULL && is_file(ofn))  // Leave a device or a pipe.
+    remove(ofn);
+}
+
 static const char *create_tmp_object(void) {
   char template[] = "/tmp/xcc-XXXXXX.o";
   int fd = mkstemps(template, 2);
@@ -182,8 +187,8 @@ static int compile_csource(const char *source_fn, enum OutType out_type, const c
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
 
-  if (res != 0 && ofn != NULL && is_file(ofn))  // Leave a device or a pipe.
-    remove(ofn);
+  if (res != 0)
+    remove_output(ofn);
   return res;
 }
 
@@ -198,6 +203,8 @@ static int compile_asm(const char *source_fn, enum OutType out_type, const char
 
   if (out_type >= OutExecutable)
     vec_push(ld_cmd, objfn);
+  else if (status != 0)
+    remove_output(ofn);
   return status;
 }
 
@@ -573,6 +580,8 @@ static int do_compile(Options *opts, const char *root) {
 
     vec_push(opts->ld_cmd, NULL);
     res |= wait_process(exec_with_fds((char**)opts->ld_cmd->data, -1, -1, -1));
+    if (res != 0)
+      remove_output(opts->ofn != NULL ? opts->ofn : "a.out");
   }
 
   return res == 0 ? 0 : 1;
-- 
2.43.0


From 738902071ef1462aa53c237b7e7f1a884b693b9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:06:20 +0000
Subject: [PATCH 086/162] fix: ld: failure of writing a section is reported

---
 src/ld/ld.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ld/ld.c b/src/ld/ld.c
index e0aaf35..54b3883 100644
--- a/src/ld/ld.c
+++ b/src/ld/ld.c
@@ -713,12 +713,12 @@ static void ld_load_elf_objects(Vector *section_lists[SECTION_COUNT]) {
   }
 }
 
-static void output_section(FILE *fp, SectionGroup *secgroup) {
+static bool output_section(FILE *fp, SectionGroup *secgroup) {
   if (secgroup->ds == NULL)
-    return;
+    return true;
   DataStorage *ds = secgroup->ds;
   const void *buf = ds->buf;
-  fwrite(buf, ds->len, 1, fp);
+  return fwrite(buf, ds->len, 1, fp) == 1;
 }
 
 static bool output_exe(const char *ofn, uint64_t entry_address,
@@ -764,18 +764,21 @@ static bool output_exe(const char *ofn, uint64_t entry_address,
                        section_groups[SEC_DATA].ds->len, datamemsz);
   }
 
+  bool result = true;
   for (int sec = 0; sec < SECTION_COUNT; ++sec) {
     if (section_groups[sec].ds->len <= 0)
       continue;
     put_padding(fp, offsets[sec]);
-    output_section(fp, &section_groups[sec]);
+    if (!output_section(fp, &section_groups[sec]))
+      result = false;
   }
-  if (fclose(fp) != 0) {
+  if (fclose(fp) != 0)
+    result = false;
+  if (!result) {
     perror("Failed to write output file");
-    return false;
   }
 
-  return true;
+  return result;
 }
 
 #define DSF_WEAK       (1 << 0)
-- 
2.43.0


From 9e2c6e751b27134d0480b634843f9e60c41c7dd7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:14:02 +0000
Subject: [PATCH 087/162] fix: flonum with leading zeros (010.5, 09e1) was read
 as octal

---
 src/cc/frontend/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/frontend/lexer.c b/src/cc/frontend/lexer.c
index a091fee..25590db 100644
--- a/src/cc/frontend/lexer.c
+++ b/src/cc/frontend/lexer.c
@@ -448,6 +448,13 @@ static Token *read_num(const char **pp) {
       flag = TKF_KIND_BIN;
       p += 2;
     } else if (isdigit(c)) {
+#ifndef __NO_FLONUM
+      const char *q = p;
+      while (isdigit(*q))
+        ++q;
+      if (*q == '.' || tolower(*q) == 'e')  // Leading zeros of a decimal flonum.
+        return read_flonum(pp, 10);
+#endif
       base = 8;
       flag = TKF_KIND_OCT;
     }
-- 
2.43.0


From 2b77a47feeae380351aa6b424310ea46a4231565 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 088/162] fix: tags of structs: inner declarations and
 definitions hide outer ones at once

---
 src/cc/frontend/fe_misc.c     |  6 +++--
 src/cc/frontend/parser_type.c | 43 +++++++++++++++++++++--------------
 src/cc/frontend/type.c        | 16 +++++++++----
 src/cc/frontend/type.h        |  5 +++-
 4 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 39b9278..2fa0299 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -243,8 +243,10 @@ bool ensure_struct(Type *type, const Token *token, Scope *scope) {
   case TY_STRUCT:
     {
       if (type->struct_.info == NULL) {
-        StructInfo *sinfo = find_struct(scope, type->struct_.name, NULL);
-        if (sinfo == NULL) {
+        StructInfo *sinfo = type->struct_.tag;
+        if (sinfo == NULL)
+          type->struct_.tag = sinfo = find_struct(scope, type->struct_.name, NULL);
+        if (sinfo == NULL || !is_complete_struct(sinfo)) {
           parse_error(PE_NOFATAL, token, "Imcomplete struct: `%.*s'", NAMES(type->struct_.name));
           return false;
         }
diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 6b01cce..4bd000a 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -15,6 +15,8 @@
 
 extern bool parsing_stmt;
 
+static bool parsing_struct;
+
 static void parse_enum_members(Type *type) {
   assert(type != NULL && type->kind == TY_FIXNUM && type->fixnum.kind == FX_ENUM);
   Type *ctype = qualified_type(type, TQ_CONST);
@@ -287,25 +289,32 @@ Type *parse_raw_type(int *pstorage) {
           name = ident->ident;
 
         StructInfo *sinfo = NULL;
-        if (match(TK_LBRACE)) {  // Definition
-          sinfo = parse_struct(is_union);
-          if (name != NULL) {
-            Scope *scope;
-            StructInfo *exist = find_struct(curscope, name, &scope);
-            if (exist != NULL && scope == curscope)
-              parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
-            else
-              define_struct(curscope, name, sinfo);
-          }
-        } else {
-          if (name != NULL) {
-            sinfo = find_struct(curscope, name, NULL);
-            if (sinfo != NULL) {
-              if (sinfo->is_union != is_union)
-                parse_error(PE_NOFATAL, tok, "Wrong tag for `%.*s'", NAMES(name));
-            }
+        if (name != NULL) {
+          enum TokenKind next = fetch_token()->kind;
+          Scope *scope;
+          sinfo = find_struct(curscope, name, &scope);
+          // Definition and declaration of the tag itself hide one in the outer scope.
+          if (sinfo == NULL ||
+              (scope != curscope &&
+               (next == TK_LBRACE || (next == TK_SEMICOL && !parsing_struct)))) {
+            sinfo = create_incomplete_struct_info(is_union);
+            define_struct(curscope, name, sinfo);
+          } else if (sinfo->is_union != is_union) {
+            parse_error(PE_NOFATAL, tok, "Wrong tag for `%.*s'", NAMES(name));
           }
         }
+        if (match(TK_LBRACE)) {  // Definition
+          bool bak = parsing_struct;
+          parsing_struct = true;
+          StructInfo *defined = parse_struct(is_union);
+          parsing_struct = bak;
+          if (sinfo == NULL)
+            sinfo = defined;
+          else if (is_complete_struct(sinfo))
+            parse_error(PE_NOFATAL, ident, "`%.*s' already defined", NAMES(name));
+          else
+            *sinfo = *defined;
+        }
 
         if (name == NULL && sinfo == NULL)
           parse_error(PE_FATAL, tok, "Illegal struct/union usage");
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 56f4d52..5be6aee 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -353,12 +353,20 @@ StructInfo *create_struct_info(MemberInfo *members, int count, bool is_union, bo
   return sinfo;
 }
 
+StructInfo *create_incomplete_struct_info(bool is_union) {
+  StructInfo *sinfo = calloc_or_die(sizeof(*sinfo));
+  sinfo->is_union = is_union;
+  sinfo->size = -1;
+  return sinfo;
+}
+
 Type *create_struct_type(StructInfo *sinfo, const Name *name, int qualifier) {
   Type *type = malloc_or_die(sizeof(*type));
   type->kind = TY_STRUCT;
   type->qualifier = qualifier;
   type->struct_.name = name;
-  type->struct_.info = sinfo;
+  type->struct_.info = sinfo != NULL && is_complete_struct(sinfo) ? sinfo : NULL;
+  type->struct_.tag = sinfo;
   return type;
 }
 
@@ -430,10 +438,8 @@ bool same_type_without_qualifier(const Type *type1, const Type *type2, bool igno
       }
       return true;
     case TY_STRUCT:
-      if (type1->struct_.info != NULL) {
-        if (type2->struct_.info != NULL)
-          return type1->struct_.info == type2->struct_.info;
-      }
+      if (type1->struct_.tag != NULL && type2->struct_.tag != NULL)
+        return type1->struct_.tag == type2->struct_.tag;
       if (type1->struct_.name == NULL || type2->struct_.name == NULL)
         return false;
       return equal_name(type1->struct_.name, type2->struct_.name);
diff --git a/src/cc/frontend/type.h b/src/cc/frontend/type.h
index 2363a1d..36bc9a9 100644
--- a/src/cc/frontend/type.h
+++ b/src/cc/frontend/type.h
@@ -109,7 +109,8 @@ typedef struct Type {
     } func;
     struct {
       const Name *name;
-      StructInfo *info;
+      StructInfo *info;  // NULL while incomplete.
+      StructInfo *tag;   // Which the tag denotes (might be completed later), or NULL if unknown.
     } struct_;  // and union.
   };
 } Type;
@@ -164,6 +165,8 @@ int find_struct_member(const StructInfo *sinfo, const Name *name);
 
 Type *create_enum_type(const Name *name);
 
+StructInfo *create_incomplete_struct_info(bool is_union);
+static inline bool is_complete_struct(const StructInfo *sinfo)  { return sinfo->size >= 0; }
 bool same_type_without_qualifier(const Type *type1, const Type *type2, bool ignore_qualifier);
 static inline bool same_type(const Type *type1, const Type *type2)  { return same_type_without_qualifier(type1, type2, false); }
 bool can_cast(const Type *dst, const Type *src, bool zero, bool is_explicit);
-- 
2.43.0


From faf6e662f54e772a94c3cdde241998720b5d386d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 089/162] fix: enumerations in inner scopes hide outer names

---
 src/cc/frontend/parser_type.c | 8 +++++---
 src/cc/frontend/var.c         | 7 +++++--
 src/cc/frontend/var.h         | 2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 4bd000a..48dd55b 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -30,7 +30,8 @@ static void parse_enum_members(Type *type) {
       value = expr->fixnum;
     }
 
-    if (scope_find(global_scope, ident->ident, NULL) != NULL) {
+    Scope *scope;
+    if (scope_find(curscope, ident->ident, &scope) != NULL && scope == curscope) {
       parse_error(PE_NOFATAL, ident, "`%.*s' is already defined", NAMES(ident->ident));
     } else {
       define_enum_member(ctype, ident, value);
@@ -48,9 +49,10 @@ static void parse_enum_members(Type *type) {
 
 static Type *parse_enum(void) {
   Token *ident = match(TK_IDENT);
-  Type *type = ident != NULL ? find_enum(curscope, ident->ident) : NULL;
+  Scope *scope;
+  Type *type = ident != NULL ? find_enum(curscope, ident->ident, &scope) : NULL;
   if (match(TK_LBRACE)) {
-    if (type != NULL)
+    if (type != NULL && scope == curscope)
       parse_error(PE_FATAL, ident, "Duplicate enum type");
     type = define_enum(curscope, ident != NULL ? ident->ident : NULL);
     parse_enum_members(type);
diff --git a/src/cc/frontend/var.c b/src/cc/frontend/var.c
index e1b64fb..d4ac286 100644
--- a/src/cc/frontend/var.c
+++ b/src/cc/frontend/var.c
@@ -163,13 +163,16 @@ bool add_typedef(Scope *scope, const Name *name, Type *type) {
   return true;
 }
 
-Type *find_enum(Scope *scope, const Name *name) {
+Type *find_enum(Scope *scope, const Name *name, Scope **pscope) {
   for (; scope != NULL; scope = scope->parent) {
     if (scope->enum_table == NULL)
       continue;
     Type *type = table_get(scope->enum_table, name);
-    if (type != NULL)
+    if (type != NULL) {
+      if (pscope != NULL)
+        *pscope = scope;
       return type;
+    }
   }
   return NULL;
 }
diff --git a/src/cc/frontend/var.h b/src/cc/frontend/var.h
index 1056f70..5241574 100644
--- a/src/cc/frontend/var.h
+++ b/src/cc/frontend/var.h
@@ -94,5 +94,5 @@ void define_struct(Scope *scope, const Name *name, StructInfo *sinfo);
 Type *find_typedef(Scope *scope, const Name *name, Scope **pscope);
 bool add_typedef(Scope *scope, const Name *name, Type *type);
 
-Type *find_enum(Scope *scope, const Name *name);
+Type *find_enum(Scope *scope, const Name *name, Scope **pscope);
 Type *define_enum(Scope *scope, const Name *name);
-- 
2.43.0


From dcd6014131d30ba6df3b7498c35cdd62a6b9cda8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 090/162] fix: typedef in an inner scope that hides another
 typedef was ignored

---
 src/cc/frontend/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 3a9f2e1..9fd029e 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -158,7 +158,8 @@ static void def_type(Type *type, Token *ident) {
     return;
   }
 
-  if (defined == NULL || (type->kind == TY_STRUCT && type->struct_.info != NULL)) {
+  if (defined == NULL || scope != curscope ||
+      (type->kind == TY_STRUCT && type->struct_.info != NULL)) {
     if (type->kind == TY_ARRAY) {
       if (!ensure_struct(type, ident, curscope))
         return;
-- 
2.43.0


From 1e4cfe8ab385254556319b1234c9bb149be9137e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:24:13 +0000
Subject: [PATCH 091/162] fix: static functions and objects declared again in a
 block: repeated declaration, and use that did not count

---
 src/cc/frontend/fe_misc.c     | 2 ++
 src/cc/frontend/parser_expr.c | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 2fa0299..a91787d 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -145,6 +145,8 @@ VarInfo *find_var_from_scope(Scope *scope, const Token *ident, Type *type, int s
       VarInfo *varinfo = scope->vars->data[idx];
       if (!same_type(type, varinfo->type)) {
         parse_error(PE_NOFATAL, ident, "`%.*s' type conflict", NAMES(name));
+      } else if (type->kind == TY_FUNC && !is_global_scope(scope)) {
+        ;  // Function declaration in a block can be repeated.
       } else if (!(storage & VS_EXTERN)) {
         if (varinfo->storage & VS_EXTERN)
           varinfo->storage &= ~VS_EXTERN;
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index c08658f..54d702c 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -334,6 +334,14 @@ static Expr *variable(Token *ident) {
     if (varinfo->storage & VS_ENUM_MEMBER)
       return new_expr_fixlit(varinfo->type, ident, varinfo->enum_member.value);
     type = varinfo->type;
+    if (!is_global_scope(scope) && ((varinfo->storage & VS_EXTERN) || type->kind == TY_FUNC)) {
+      // Declared in a block: it denotes the global one, if there is.
+      VarInfo *global = scope_find(global_scope, name, NULL);
+      if (global != NULL && same_type(type, global->type)) {
+        varinfo->storage |= VS_USED;
+        scope = global_scope;
+      }
+    }
   } else {
     parse_error(PE_NOFATAL, ident, "`%.*s' undeclared", NAMES(ident->ident));
     type = &tyInt;
-- 
2.43.0


From a6b48b48e20648b342ce1d69c3f3927cee72dd2e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:31:55 +0000
Subject: [PATCH 092/162] fix: declarators with nested parentheses lost what
 follows the outer one

---
 src/cc/frontend/parser_type.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 48dd55b..994ef10 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -585,6 +585,23 @@ static Type *parse_direct_declarator_suffix(Type *type) {
   }
   return type;
 }
+
+// Replace the placeholder at the end of derivation.
+static Type *replace_placeholder(Type *type, const Type *placeholder, Type *replacement) {
+  if (type == placeholder)
+    return replacement;
+  switch (type->kind) {
+  case TY_PTR: case TY_ARRAY:
+    type->pa.ptrof = replace_placeholder(type->pa.ptrof, placeholder, replacement);
+    break;
+  case TY_FUNC:
+    type->func.ret = replace_placeholder(type->func.ret, placeholder, replacement);
+    break;
+  default: break;
+  }
+  return type;
+}
+
 Type *parse_direct_declarator(Type *type, Token **pident) {
   Token *ident = NULL;
   if (match(TK_LPAR)) {
@@ -597,7 +614,7 @@ Type *parse_direct_declarator(Type *type, Token **pident) {
     consume(TK_RPAR, "`)' expected");
 
     Type *inner = parse_direct_declarator_suffix(ret);
-    memcpy(placeholder, inner, sizeof(*placeholder));
+    type = replace_placeholder(type, placeholder, inner);
   } else {
     ident = match(TK_IDENT);
     type = parse_direct_declarator_suffix(type);
-- 
2.43.0


From a02bbd0a8c25741f3568bb5df0b9f8b8d5dcb12d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 093/162] fix: usual arithmetic conversions: long long ranks
 above long, and qualifiers do not survive

---
 src/cc/frontend/fe_misc.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index a91787d..e6033c5 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -482,10 +482,15 @@ static Expr *promote_bitfield(Expr *expr) {
   return is_promoted_bitfield(expr) ? make_cast(&tyInt, expr->token, expr, false) : expr;
 }
 
-// Order of integer types in usual arithmetic conversions.
-static int arith_rank(const Type *type) {
-  assert(is_fixnum(type->kind));
-  return (type_size(type) << 1) | (type->fixnum.is_unsigned ? 1 : 0);
+// Usual arithmetic conversions for integers.
+static Type *arith_type(const Type *ltype, const Type *rtype) {
+  assert(is_fixnum(ltype->kind) && ltype->fixnum.kind <= FX_LLONG);
+  assert(is_fixnum(rtype->kind) && rtype->fixnum.kind <= FX_LLONG);
+  size_t lsize = type_size(ltype), rsize = type_size(rtype);
+  enum FixnumKind kind = ltype->fixnum.kind > rtype->fixnum.kind ? ltype->fixnum.kind : rtype->fixnum.kind;
+  bool is_unsigned = (ltype->fixnum.is_unsigned && lsize >= rsize) ||
+                     (rtype->fixnum.is_unsigned && rsize >= lsize);
+  return get_fixnum_type(kind, is_unsigned, 0);
 }
 
 static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
@@ -533,7 +538,7 @@ static bool cast_numbers(Expr **pLhs, Expr **pRhs, bool make_int) {
     *pLhs = promote_to_int(lhs);
     *pRhs = promote_to_int(rhs);
   } else if (changed || !same_type_without_qualifier(ltype, rtype, true)) {
-    Type *type = arith_rank(ltype) >= arith_rank(rtype) ? ltype : rtype;
+    Type *type = arith_type(ltype, rtype);
     *pLhs = make_cast(type, lhs->token, lhs, false);
     *pRhs = make_cast(type, rhs->token, rhs, false);
   }
@@ -1608,7 +1613,7 @@ Type *choose_ternary_result_type(Expr *tval, Expr *fval) {
       ttype = &tyInt;
     if (ftype->fixnum.kind < FX_INT || ftype->fixnum.kind >= FX_ENUM)
       ftype = &tyInt;
-    return arith_rank(ttype) >= arith_rank(ftype) ? ttype : ftype;
+    return arith_type(ttype, ftype);
   }
   return NULL;
 }
-- 
2.43.0


From fefb8a587e27a7a9cb87acb149d0275989d4e367 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 094/162] fix: _Generic compares the type of the value, with
 qualifiers inside and without the outermost ones

---
 src/cc/frontend/parser_expr.c | 13 +++++++---
 src/cc/frontend/type.c        | 46 +++++++++++++++++++++++++++++++++++
 src/cc/frontend/type.h        |  1 +
 3 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 54d702c..1b5a61a 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -192,12 +192,19 @@ static Expr *parse_generic(void) {
   } while (match(TK_COMMA));
   consume(TK_RPAR, "`)' expected");
 
+  // Type of the value: lvalue conversion is applied.
   Type *type = target->type;
-  if (type->kind == TY_ARRAY)
-    type = array_to_ptr(type);
+  switch (type->kind) {
+  case TY_ARRAY:  type = array_to_ptr(type); break;
+  case TY_FUNC:   type = ptrof(type); break;
+  default:
+    type = clone_type(type);
+    type->qualifier = 0;
+    break;
+  }
   for (int i = 0; i < types->len; ++i) {
     Type *t = types->data[i];
-    if (same_type(t, type))
+    if (identical_type(t, type))
       return exprs->data[i];
   }
   if (default_value == NULL) {
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 5be6aee..350f632 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -448,6 +448,52 @@ bool same_type_without_qualifier(const Type *type1, const Type *type2, bool igno
   }
 }
 
+// Compare including qualifiers, where an array hands them to its elements.
+static bool identical_type_sub(const Type *type1, int qual1, const Type *type2, int qual2,
+                               bool ignore_qualifier) {
+  if (type1->kind != type2->kind)
+    return false;
+
+  qual1 |= type1->qualifier;
+  qual2 |= type2->qualifier;
+  if (type1->kind == TY_ARRAY) {
+    if (type1->pa.length != type2->pa.length && type1->pa.length >= 0 && type2->pa.length >= 0)
+      return false;
+    return identical_type_sub(type1->pa.ptrof, qual1, type2->pa.ptrof, qual2, ignore_qualifier);
+  }
+
+  if (!ignore_qualifier && ((qual1 ^ qual2) & (TQ_CONST | TQ_VOLATILE)) != 0)
+    return false;
+
+  switch (type1->kind) {
+  case TY_PTR:
+    return identical_type_sub(type1->pa.ptrof, 0, type2->pa.ptrof, 0, false);
+  case TY_FUNC:
+    {
+      const Vector *params1 = type1->func.params, *params2 = type2->func.params;
+      if (!identical_type_sub(type1->func.ret, 0, type2->func.ret, 0, true) ||
+          type1->func.vaargs != type2->func.vaargs ||
+          (params1 == NULL) != (params2 == NULL))
+        return false;
+      if (params1 == NULL)
+        return true;
+      if (params1->len != params2->len)
+        return false;
+      for (int i = 0; i < params1->len; ++i) {
+        if (!identical_type_sub(params1->data[i], 0, params2->data[i], 0, true))
+          return false;
+      }
+      return true;
+    }
+  default:
+    return same_type_without_qualifier(type1, type2, true);
+  }
+}
+
+bool identical_type(const Type *type1, const Type *type2) {
+  return identical_type_sub(type1, 0, type2, 0, false);
+}
+
 bool can_cast(const Type *dst, const Type *src, bool zero, bool is_explicit) {
   if (same_type_without_qualifier(dst, src, dst->kind == TY_STRUCT))
     return true;
diff --git a/src/cc/frontend/type.h b/src/cc/frontend/type.h
index 36bc9a9..4cb0702 100644
--- a/src/cc/frontend/type.h
+++ b/src/cc/frontend/type.h
@@ -168,6 +168,7 @@ Type *create_enum_type(const Name *name);
 StructInfo *create_incomplete_struct_info(bool is_union);
 static inline bool is_complete_struct(const StructInfo *sinfo)  { return sinfo->size >= 0; }
 bool same_type_without_qualifier(const Type *type1, const Type *type2, bool ignore_qualifier);
+bool identical_type(const Type *type1, const Type *type2);
 static inline bool same_type(const Type *type1, const Type *type2)  { return same_type_without_qualifier(type1, type2, false); }
 bool can_cast(const Type *dst, const Type *src, bool zero, bool is_explicit);
 
-- 
2.43.0


From 2aef283c48e9a69e3d33e228b0de06c98a7878cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:32:32 +0000
Subject: [PATCH 095/162] fix: results of comparisons and logical operators are
 int

---
 src/cc/frontend/fe_misc.c     | 27 +++++++++++++++------------
 src/cc/frontend/initializer.c |  2 +-
 src/cc/frontend/parser_expr.c |  4 ++--
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index e6033c5..afc8fb6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -421,8 +421,11 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     return sub;
   }
 
-  if (is_bool(type))
-    return make_cond(sub);
+  if (is_bool(type)) {
+    Expr *cond = make_cond(sub);
+    return is_const(cond) ? make_cast(type, token, cond, is_explicit)
+                          : new_expr_cast(type, token, cond);
+  }
 
 #if XCC_TARGET_ARCH == XCC_ARCH_X64 && !defined(__NO_FLONUM)
   // On x64, cannot cast from double to uint64_t directly.
@@ -440,7 +443,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
       assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
       sub = tmp;
     }
-    Expr *cond = new_expr_bop(EX_LT, &tyBool, token, sub,
+    Expr *cond = new_expr_bop(EX_LT, &tyInt, token, sub,
                               new_expr_flolit(sub->type, sub->token, (uint64_t)INT64_MAX + 1UL));
     Expr *offsetted = new_expr_addsub(
         EX_SUB, token, sub,
@@ -1303,7 +1306,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       break;
     }
     if (tf >= 0)
-      return new_expr_fixlit(&tyBool, tok, tf);
+      return new_expr_fixlit(&tyInt, tok, tf);
 #undef JUDGE
   }
 
@@ -1363,7 +1366,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
         if (k == EX_EQ)
           p = new_expr_bop(
               (EX_LOGAND + EX_LOGIOR) - p->kind,  // LOGAND <-> LOGIOR
-              &tyBool, p->token,
+              &tyInt, p->token,
               make_not_expr(p->bop.lhs->token, p->bop.lhs),
               make_not_expr(p->bop.rhs->token, p->bop.rhs));
         return p;
@@ -1376,7 +1379,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       case EX_LT: case EX_LE: case EX_GE: case EX_GT:
       case EX_LOGAND: case EX_LOGIOR:
         parse_error(PE_WARNING, tok, "Always %s", kind != EX_EQ ? "true" : "false");
-        return new_expr_bop(EX_COMMA, &tyBool, tok, v, new_expr_fixlit(&tyBool, tok, (kind != EX_EQ)));
+        return new_expr_bop(EX_COMMA, &tyInt, tok, v, new_expr_fixlit(&tyBool, tok, (kind != EX_EQ)));
       default: break;
       }
       break;
@@ -1407,7 +1410,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       enum ParseErrorLevel err = st || (lt->kind == TY_PTR && rt->kind == TY_PTR) ? PE_WARNING : PE_NOFATAL;
       parse_error(err, tok, "Compare pointer to other types");
       if (err != PE_WARNING)
-        return new_expr_bop(kind, &tyBool, tok, lhs, rhs);
+        return new_expr_bop(kind, &tyInt, tok, lhs, rhs);
     }
     if (rt->kind != TY_PTR)
       rhs = make_cast(lhs->type, rhs->token, rhs, false);
@@ -1415,7 +1418,7 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
       lhs = make_cast(rhs->type, lhs->token, lhs, false);
   }
 
-  return new_expr_bop(kind, &tyBool, tok, lhs, rhs);
+  return new_expr_bop(kind, &tyInt, tok, lhs, rhs);
 }
 
 //
@@ -1423,15 +1426,15 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
 Expr *make_cond(Expr *expr) {
   switch (expr->kind) {
   case EX_FIXNUM:
-    expr = new_expr_fixlit(&tyBool, expr->token, expr->fixnum != 0);
+    expr = new_expr_fixlit(&tyInt, expr->token, expr->fixnum != 0);
     break;
 #ifndef __NO_FLONUM
   case EX_FLONUM:
-    expr = new_expr_fixlit(&tyBool, expr->token, expr->flonum != 0);
+    expr = new_expr_fixlit(&tyInt, expr->token, expr->flonum != 0);
     break;
 #endif
   case EX_STR:
-    expr = new_expr_fixlit(&tyBool, expr->token, true);
+    expr = new_expr_fixlit(&tyInt, expr->token, true);
     break;
   case EX_EQ:
   case EX_NE:
@@ -1452,7 +1455,7 @@ Expr *make_cond(Expr *expr) {
     switch (expr->type->kind) {
     case TY_ARRAY:
     case TY_FUNC:
-      expr = new_expr_fixlit(&tyBool, expr->token, true);
+      expr = new_expr_fixlit(&tyInt, expr->token, true);
       break;
     default:
       expr = new_expr_cmp(
diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index d6bf9de..302631b 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -122,7 +122,7 @@ static Stmt *build_memcpy(Expr *dst, Expr *src, size_t size) {
   vec_push(stmts, new_stmt_for(
       NULL,
       new_expr_bop(EX_ASSIGN, &tySize, NULL, sizeexpr, size_num),    // for (_size = size;
-      new_expr_bop(EX_GT, &tyBool, NULL, sizeexpr, zeroexpr),        //      _size > 0;
+      new_expr_bop(EX_GT, &tyInt, NULL, sizeexpr, zeroexpr),        //      _size > 0;
       new_expr_unary(EX_PREDEC, sizeexpr->type, NULL, sizeexpr),     //      --_size)
       new_stmt_expr(                                                 //   *_dst++ = *_src++;
           new_expr_bop(EX_ASSIGN, &tyChar, NULL,
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 1b5a61a..fa81c81 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -398,7 +398,7 @@ static Expr *unary(Token *tok) {
   case TK_NOT:
     if (!is_number(expr->type) && !ptr_or_array(expr->type)) {
       parse_error(PE_NOFATAL, tok, "Cannot apply `!' except number or pointer types");
-      return new_expr_fixlit(&tyBool, tok, false);
+      return new_expr_fixlit(&tyInt, tok, false);
     }
     return make_not_expr(tok, expr);
   case TK_TILDA:
@@ -494,7 +494,7 @@ static Expr *binary(Expr *lhs, Token *tok) {
     if (lhs->kind == EX_FIXNUM)
       return (kind == TK_LOGAND ? lhs->fixnum == 0 : lhs->fixnum != 0) ? lhs : rhs;
     else
-      return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyBool, tok, lhs, rhs);
+      return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyInt, tok, lhs, rhs);
   case TK_COMMA:
     if (is_const(lhs))
       return rhs;
-- 
2.43.0


From beed9f509aba9688990258ddf4e46373d6081718 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:02 +0000
Subject: [PATCH 096/162] fix: qualifiers of float and double, and of arrays
 through typedef or member, were lost

---
 src/cc/frontend/parser_type.c | 4 ++--
 src/cc/frontend/type.c        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 994ef10..240ef28 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -368,9 +368,9 @@ Type *parse_raw_type(int *pstorage) {
       type = qualified_type(type, tc.qualifier);
   } else if (!no_type_combination(&tc, ~0, ~0)) {
     if (tc.float_num > 0) {
-      type = &tyFloat;
+      type = qualified_type(&tyFloat, tc.qualifier);
     } else if (tc.double_num > 0) {
-      type = (tc.long_num > 0 ? &tyLDouble : &tyDouble);
+      type = qualified_type(tc.long_num > 0 ? &tyLDouble : &tyDouble, tc.qualifier);
     } else {
       enum FixnumKind fk = (tc.char_num > 0)  ? FX_CHAR
                          : (tc.short_num > 0) ? FX_SHORT
diff --git a/src/cc/frontend/type.c b/src/cc/frontend/type.c
index 350f632..5c26e09 100644
--- a/src/cc/frontend/type.c
+++ b/src/cc/frontend/type.c
@@ -325,6 +325,8 @@ Type *qualified_type(Type *type, int additional) {
     return type;
   Type *ctype = clone_type(type);
   ctype->qualifier = modified;
+  if (type->kind == TY_ARRAY)  // Qualifier of array is applied to its elements, too.
+    ctype->pa.ptrof = qualified_type(type->pa.ptrof, additional);
   return ctype;
 }
 
-- 
2.43.0


From 1caa9a9e516203408f2b0db873fcb9f88cb5e514 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 097/162] fix: enumerators, and conditional operator between
 _Bool, are int

---
 src/cc/frontend/parser_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index fa81c81..851ce58 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -339,7 +339,7 @@ static Expr *variable(Token *ident) {
   Type *type;
   if (varinfo != NULL) {
     if (varinfo->storage & VS_ENUM_MEMBER)
-      return new_expr_fixlit(varinfo->type, ident, varinfo->enum_member.value);
+      return new_expr_fixlit(&tyInt, ident, varinfo->enum_member.value);
     type = varinfo->type;
     if (!is_global_scope(scope) && ((varinfo->storage & VS_EXTERN) || type->kind == TY_FUNC)) {
       // Declared in a block: it denotes the global one, if there is.
@@ -525,7 +525,7 @@ static Expr *ternary(Expr *expr, Token *tok) {
     parse_error(PE_NOFATAL, tok, "lhs and rhs must be same type");
     type = tval->type;  // Dummy to continue.
   } else {
-    if (is_fixnum(type->kind) && type->fixnum.kind < FX_INT)
+    if (is_fixnum(type->kind) && (type->fixnum.kind < FX_INT || type->fixnum.kind >= FX_ENUM))
       type = &tyInt;
     if (type->kind != TY_VOID) {
       tval = make_cast(type, tval->token, tval, false);
-- 
2.43.0


From 9bac00e3f63b484e26803be52d2cd7cb749abb3a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 098/162] fix: character constants are int

---
 src/cc/frontend/parser_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 851ce58..3ab04f3 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -279,11 +279,11 @@ static Expr *literal(Token *tok) {
       bool u = flag & TKF_UNSIGNED;
       if (flag & TKF_CHAR) {
 #ifndef __NO_WCHAR
-        static const enum FixnumKind kCharTable[] = { FX_CHAR, FX_INT };
+        static const enum FixnumKind kCharTable[] = { FX_INT, FX_INT };
         assert(long_count < (int)ARRAY_SIZE(kCharTable));
         fx = kCharTable[long_count];
 #else
-        fx = FX_CHAR;
+        fx = FX_INT;
 #endif
       } else {
         static const enum FixnumKind kFxTable[] = { FX_INT, FX_LONG, FX_LLONG };
-- 
2.43.0


From 476ad30e019ca56c2d8023bb090a5eff8a59212e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 099/162] fix: preprocessor errors tell the line where they
 occur

---
 src/cpp/preprocessor.c | 99 +++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 58 deletions(-)

diff --git a/src/cpp/preprocessor.c b/src/cpp/preprocessor.c
index db7093f..ae05fec 100644
--- a/src/cpp/preprocessor.c
+++ b/src/cpp/preprocessor.c
@@ -5,6 +5,7 @@
 #include <ctype.h>
 #include <libgen.h>  // dirname
 #include <limits.h>  // INT_MAX
+#include <stdarg.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -46,6 +47,19 @@ static PreprocessFile *curpf;
 #define OUTPUT_PPLINE(...)  do { fprintf(pp_ofp, __VA_ARGS__); ++curpf->out_lineno; } while (0)
 #define OUTPUT_COMMENT(...)  do { if (preserve_comment) OUTPUT_PPLINE(__VA_ARGS__); } while (0)
 
+// Report an error at the current line.
+static void pp_error(const char *fmt, ...) {
+  if (curpf != NULL)
+    fprintf(stderr, "%s(%d): ", curpf->stream.filename, curpf->stream.lineno);
+
+  va_list ap;
+  va_start(ap, fmt);
+  vfprintf(stderr, fmt, ap);
+  va_end(ap);
+  fprintf(stderr, "\n");
+  exit(1);
+}
+
 static char *cat_path_cwd(const char *dir, const char *path) {
   char *cwd = getcwd(NULL, 0);
   return JOIN_PATHS(cwd, dir, path);
@@ -86,7 +100,7 @@ static const char *find_directive(const char *line) {
     const char *q = block_comment_end(comstart + 2);
     if (q == NULL) {
       if (hash)
-        error("block comment not closed: %s", comstart);
+        pp_error("block comment not closed: %s", comstart);
       break;
     }
     p = q;
@@ -331,13 +345,13 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     sys = true;
     break;
   default:
-    error("illegal include: %s", orgp);
+    pp_error("illegal include: %s", orgp);
   }
 
   const char *q;
   for (q = p; *q != close; ++q) {
     if (*q == '\0')
-      error("not closed");
+      pp_error("not closed");
   }
 
   // Ensure line end after include.
@@ -350,7 +364,7 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
       if (tok->kind == TK_EOF)
         break;
       if (!err) {
-        error("Illegal token after include: %s", tok->begin);
+        pp_error("Illegal token after include: %s", tok->begin);
       }
     }
   }
@@ -371,14 +385,14 @@ static void handle_include(const char *p, Stream *stream, bool is_next) {
     fp = search_sysinc(is_next ? dir : NULL, path, &fn);
     if (fp == NULL) {
       if (fn == NULL)  // Raise error except pragma once.
-        error("Cannot open file: %s", path);
+        pp_error("Cannot open file: %s", path);
       return;
     }
   }
 
   static int depth;
   if (depth >= MAX_INCLUDE_DEPTH)
-    error("#include nested too deeply: %s", path);
+    pp_error("#include nested too deeply: %s", path);
   ++depth;
   preprocess(fp, fn);
   --depth;
@@ -406,27 +420,12 @@ static void handle_pragma(const char **pp, const char *filename) {
 #define MAX_LINENO  (INT_MAX / 2)
 
 static void handle_line_directive(const char **pp, Stream *stream) {
-  size_t size;
-  char *expanded = preprocess_one_line(*pp, stream, &size);
+  char *expanded = preprocess_one_line(*pp, stream, NULL);
 
-  PpResult num;
-  {
-    FILE *memfp = fmemopen(expanded, size, "r");
-    assert(memfp != NULL);
-
-    Stream tmp_stream;
-    tmp_stream.fp = memfp;
-    tmp_stream.filename = stream->filename;
-    tmp_stream.lineno = stream->lineno;
-    tmp_stream.unread = NULL;
-    Stream *bak_stream = set_pp_stream(&tmp_stream);
-    set_source_file(memfp, stream->filename);
-    num = pp_expr();
-    set_pp_stream(bak_stream);
-    fclose(memfp);
-  }
+  set_source_string(expanded, stream->filename, stream->lineno);
+  PpResult num = pp_expr();
   if (num.value < 0 || num.value > MAX_LINENO)
-    error("line number out of range");
+    pp_error("line number out of range");
   stream->lineno = num.value;
 
   const char *next = get_lex_p();
@@ -513,7 +512,7 @@ static void handle_define(const char *p, Stream *stream) {
   const char *begin = p;
   const char *end = read_ident(p);
   if (end == NULL)
-    error("ident expected");
+    pp_error("ident expected");
   const Name *name = alloc_name(begin, end, false);
   p = end;
 
@@ -556,7 +555,7 @@ static void handle_undef(const char **pp) {
   const char *begin = p;
   const char *end = read_ident(p);
   if (end == NULL)
-    error("ident expected");
+    pp_error("ident expected");
   const Name *name = alloc_name(begin, end, false);
 
   macro_delete(name);
@@ -622,38 +621,22 @@ static bool handle_ifdef(const char **pp) {
   const char *end = read_ident(p);
   *pp = end;
   if (end == NULL)
-    error("ident expected");
+    pp_error("ident expected");
   const Name *name = alloc_name(begin, end, false);
   return macro_get(name) != NULL;
 }
 
 static bool handle_if(const char **pp, Stream *stream) {
-  size_t size;
-  char *expanded = preprocess_one_line(*pp, stream, &size);
+  char *expanded = preprocess_one_line(*pp, stream, NULL);
 
   // Parse expression.
-  PpResult result;
-  {
-    FILE *memfp = fmemopen(expanded, size, "r");
-    assert(memfp != NULL);
-
-    Stream tmp_stream;
-    tmp_stream.fp = memfp;
-    tmp_stream.filename = stream->filename;
-    tmp_stream.lineno = stream->lineno;
-    tmp_stream.unread = NULL;
-    Stream *bak_stream = set_pp_stream(&tmp_stream);
-    set_source_file(memfp, stream->filename);
-    result = pp_expr();
+  set_source_string(expanded, stream->filename, stream->lineno);
+  PpResult result = pp_expr();
 
-    const char *p = get_lex_p();
-    if (p != NULL)
-      error("illegal expression");
-
-    set_pp_stream(bak_stream);
-    fclose(memfp);
-    *pp = get_lex_p();
-  }
+  const char *p = get_lex_p();
+  if (p != NULL)
+    pp_error("illegal expression");
+  *pp = p;
   return result.value != 0;
 }
 
@@ -718,19 +701,19 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
   } else if ((next = keyword(directive, "else")) != NULL) {
     int last = ppf->condstack->len - 1;
     if (last < 0)
-      error("`#else' used without `#if'");
+      pp_error("`#else' used without `#if'");
     intptr_t flag = VOIDP2INT(ppf->condstack->data[last]);
     if (ppf->satisfy == ElseAppeared)
-      error("Illegal #else");
+      pp_error("Illegal #else");
     ppf->enable = !ppf->enable && ppf->satisfy == NotSatisfied && ((flag & CF_ENABLE) != 0);
     ppf->satisfy = ElseAppeared;
   } else if ((next = keyword(directive, "elif")) != NULL) {
     int last = ppf->condstack->len - 1;
     if (last < 0)
-      error("`#elif' used without `#if'");
+      pp_error("`#elif' used without `#if'");
     intptr_t flag = VOIDP2INT(ppf->condstack->data[last]);
     if (ppf->satisfy == ElseAppeared)
-      error("Illegal #elif");
+      pp_error("Illegal #elif");
 
     bool cond = false;
     // The condition is evaluated only if it decides whether the group is taken.
@@ -743,7 +726,7 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
     ppf->enable = !ppf->enable && cond && ((flag & CF_ENABLE) != 0);
   } else if ((next = keyword(directive, "endif")) != NULL) {
     if (ppf->condstack->len <= 0)
-      error("`#endif' used without `#if'");
+      pp_error("`#endif' used without `#if'");
     int flag = VOIDP2INT(vec_pop(ppf->condstack));
     ppf->enable = (flag & CF_ENABLE) != 0;
     ppf->satisfy = (flag & CF_SATISFY_MASK) >> CF_SATISFY_SHIFT;
@@ -773,7 +756,7 @@ static const char *process_directive(PreprocessFile *ppf, const char *line) {
       next = NULL;
     } else {
       if (*directive != '\0')
-        error("unknown directive: [%s]", directive);
+        pp_error("unknown directive: [%s]", directive);
       next = NULL;
     }
   } else {
@@ -855,7 +838,7 @@ void preprocess(FILE *fp, const char *filename) {
   }
 
   if (pf.condstack->len > 0)
-    error("#if not closed");
+    pp_error("#if not closed");
 
   curpf = oldpf;
   set_pp_stream(old_stream);
-- 
2.43.0


From 67fc3c05231da5964b9b02bba83d65c674f3d31b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 100/162] fix: a dereferenced value, or a truncated address, is
 not a constant initializer

---
 src/cc/frontend/initializer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index 302631b..b919cd2 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -651,8 +651,16 @@ static Expr *check_global_initializer_fixnum(Expr *value, bool *isconst) {
     *isconst = true;
     break;
   case EX_DEREF:
+    value->unary.sub = check_global_initializer_fixnum(value->unary.sub, isconst);
+    // The value in the memory is not constant.
+    if (is_prim_type(value->type))
+      *isconst = false;
+    break;
   case EX_CAST:
     value->unary.sub = check_global_initializer_fixnum(value->unary.sub, isconst);
+    // An address is not determined until link, so it cannot be truncated.
+    if (!is_const(value->unary.sub) && type_size(value->type) < TARGET_POINTER_SIZE)
+      *isconst = false;
     break;
   case EX_MEMBER:
     value->member.target = check_global_initializer_fixnum(value->member.target, isconst);
-- 
2.43.0


From 76cd77d7eb17e4efc00f12ea1de7aa22d3a402df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 101/162] fix: `signed' and `unsigned' cannot be combined

---
 src/cc/frontend/fe_misc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index afc8fb6..b2099c3 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -115,6 +115,7 @@ void check_type_combination(const TypeCombination *tc, const Token *tok) {
       tc->char_num > 1 || tc->short_num > 1 || tc->int_num > 1 ||
       tc->long_num >= (int)ARRAY_SIZE(kLongKinds) ||
       ((tc->char_num > 0) + (tc->short_num > 0) + (tc->long_num > 0) > 1) ||
+      (tc->unsigned_num > 0 && tc->signed_num > 0) ||
       tc->float_num > 1 || tc->double_num > 1 ||
       ((tc->float_num > 0 || tc->double_num > 0) &&
        (tc->char_num > 0 || tc->short_num > 0 || tc->int_num > 0 || tc->long_num > 0 ||
-- 
2.43.0


From 02f875f2e41134a7ee27ea43ccd81a3ab2ec129a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 102/162] fix: only a number or a pointer can be incremented

---
 src/cc/frontend/fe_misc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index b2099c3..f948258 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1199,6 +1199,9 @@ static Expr *transform_incdec_of_bitfield(enum ExprKind kind, Expr *target, cons
 
 Expr *incdec_of(enum ExprKind kind, Expr *target, const Token *tok) {
   check_referable(tok, target, "lvalue expected");
+  if (!is_prim_type(target->type))
+    parse_error(PE_FATAL, tok, "Cannot apply `%.*s' except number or pointer types",
+                (int)(tok->end - tok->begin), tok->begin);
 #ifndef __NO_BITFIELD
   if (target->kind == EX_MEMBER) {
     const MemberInfo *minfo = target->member.info;
-- 
2.43.0


From b863a19a8b57655f719f414894b731f1156b1ece Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 103/162] fix: a structure cannot be compared

---
 src/cc/frontend/fe_misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f948258..5a3c84f 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1221,6 +1221,8 @@ Expr *new_expr_cmp(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rhs) {
   // Adjust type for comparison.
   {
     Type *lt = lhs->type, *rt = rhs->type;
+    if (!(is_number(lt) || ptr_or_array(lt)) || !(is_number(rt) || ptr_or_array(rt)))
+      parse_error(PE_FATAL, tok, "Cannot compare except numbers or pointers");
     if (is_number(lt) && is_number(rt)) {
       if (is_fixnum(lt->kind) && is_fixnum(rt->kind)) {
         if (lt->fixnum.kind < FX_INT)
-- 
2.43.0


From 6b6bcb2ecbc82317a4f8bb8d3b2803b0bd636a7c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 104/162] fix: void argument is an error, not an assertion
 failure

---
 src/cc/frontend/fe_misc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 5a3c84f..f11862b 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1726,7 +1726,8 @@ Expr *transform_assign_with(const Token *tok, Expr *lhs, Expr *rhs) {
 
 static Expr *unnest_arg(Expr *arg, Vector *unnested) {
   Type *type = arg->type;
-  assert(type->kind != TY_VOID);
+  if (type->kind == TY_VOID)  // Already reported.
+    return arg;
   Expr *tmp = alloc_tmp_var(curscope, type);
   Expr *assign = new_expr_bop(EX_ASSIGN, type, arg->token, tmp, arg);
   assert(assign->kind == EX_ASSIGN && assign->bop.lhs->kind == EX_VAR);
-- 
2.43.0


From b9bc727db76a7e4a6035bd8a09b1a178239f38fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 105/162] fix: neither array of void, nor function returning
 array, exist

---
 src/cc/frontend/parser_type.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 240ef28..384ad69 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -553,6 +553,10 @@ static Type *parse_direct_declarator_suffix(Type *type) {
       parse_error(PE_NOFATAL, tok, "Incomplete array element");
       subtype = arrayof(subtype->pa.ptrof, 1);  // Dummy
     }
+    if (subtype->kind == TY_VOID || subtype->kind == TY_FUNC) {
+      parse_error(PE_NOFATAL, tok, "Illegal array element type");
+      subtype = &tyInt;  // Deceive to continue compiling.
+    }
 #ifndef __NO_VLA
     if (vla == NULL && subtype->kind == TY_ARRAY && subtype->pa.vla != NULL) {
       // If subtype is VLA, then make parent VLA, too.
@@ -570,10 +574,14 @@ static Type *parse_direct_declarator_suffix(Type *type) {
       if (basetype->qualifier & TQ_CONST)
         type->qualifier |= TQ_CONST;
     }
-  } else if (match(TK_LPAR)) {
+  } else if ((tok = match(TK_LPAR)) != NULL) {
     bool vaargs;
     Vector *param_vars = parse_funparams(&vaargs);
     Type *rettype = parse_direct_declarator_suffix(type);
+    if (rettype->kind == TY_ARRAY || rettype->kind == TY_FUNC) {
+      parse_error(PE_NOFATAL, tok, "Function cannot return array or function");
+      rettype = &tyInt;  // Deceive to continue compiling.
+    }
     if (rettype->kind == TY_AUTO) {
       parse_error(PE_NOFATAL, NULL, "auto type not allowed in function return type");
       rettype = &tyInt;
-- 
2.43.0


From 1a0f3c290ee7f2d0e781f7f8b33f1d8d73069bc0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 106/162] fix: initializers of volatile float and double are
 constants

---
 src/cc/frontend/ast.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cc/frontend/ast.c b/src/cc/frontend/ast.c
index 963810b..3f7d685 100644
--- a/src/cc/frontend/ast.c
+++ b/src/cc/frontend/ast.c
@@ -28,9 +28,6 @@ Token *alloc_ident(const Name *name, Line *line, const char *begin, const char *
 }
 
 bool is_const(Expr *expr) {
-  if (expr->type->qualifier & TQ_VOLATILE)
-    return false;
-
   switch (expr->kind) {
   case EX_FIXNUM:
   case EX_FLONUM:
-- 
2.43.0


From b4b6b4de817861dfa5d38be8baeedf47c4f9db79 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 107/162] fix: cast to incomplete struct is an error, not an
 assertion failure

---
 src/cc/frontend/fe_misc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f11862b..3a58734 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -408,7 +408,7 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     }
 #endif
 
-    if (sub->kind != EX_FIXNUM)  // Illegal cast: already reported.
+    if (sub->kind != EX_FIXNUM || type->kind == TY_STRUCT)  // Illegal cast: already reported.
       return new_expr_cast(type, token, sub);
     assert(!is_flonum(type));
     Fixnum value;
@@ -430,13 +430,12 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
 
 #if XCC_TARGET_ARCH == XCC_ARCH_X64 && !defined(__NO_FLONUM)
   // On x64, cannot cast from double to uint64_t directly.
-  size_t dst_size = type_size(type);
   if (is_flonum(sub->type) &&
-      is_fixnum(type->kind) && type->fixnum.is_unsigned && dst_size >= 8) {
+      is_fixnum(type->kind) && type->fixnum.is_unsigned && type_size(type) >= 8) {
     // Transform from (uint64_t)flonum
     //   to: (flonum < INT64_MAX + 1UL) ? (int64_t)flonum
     //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
-    Type *i64t = get_fixnum_type_from_size(dst_size);
+    Type *i64t = get_fixnum_type_from_size(type_size(type));
     Expr *assign = NULL;
     if (sub->kind != EX_VAR && !is_global_scope(curscope)) {
       // Evaluate the operand only once.
-- 
2.43.0


From 8b405c3db3af71579855cf05f590c3353f37a86a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 108/162] fix: riscv64 code must not break the callee-saved
 register s1

---
 src/cc/arch/riscv64/arch_config.h |  2 +-
 src/cc/arch/riscv64/ir_riscv64.c  | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cc/arch/riscv64/arch_config.h b/src/cc/arch/riscv64/arch_config.h
index 5429d93..116e7c9 100644
--- a/src/cc/arch/riscv64/arch_config.h
+++ b/src/cc/arch/riscv64/arch_config.h
@@ -10,4 +10,4 @@
 #define PHYSICAL_FREG_TEMPORARY  (8)
 #define PHYSICAL_FREG_MAX        (PHYSICAL_FREG_TEMPORARY + 24)
 
-#define GET_FPREG_INDEX()  18
+#define GET_FPREG_INDEX()  19
diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 65e527d..6ecf5b2 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -17,21 +17,21 @@
 
 const char *kReg64s[PHYSICAL_REG_MAX] = {
   A0, A1, A2, A3, A4, A5, A6, A7,                         // Temporary
-  S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, FP,           // Callee save
-  T0, T1, T2, T3, T4, T5, T6};                            // Caller save
+  S1, S2, S3, S4, S5, S6, S7, S8, S9, S10, S11, FP,       // Callee save
+  T1, T2, T3, T4, T5, T6};                                // Caller save
 
 #define GET_A0_INDEX()   0
 
 #define CALLEE_SAVE_REG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveRegs))
-static const int kCalleeSaveRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18};
+static const int kCalleeSaveRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
 
 #define CALLER_SAVE_REG_COUNT  ((int)ARRAY_SIZE(kCallerSaveRegs))
-static const int kCallerSaveRegs[] = {19, 20, 21, 22, 23, 24, 25};
+static const int kCallerSaveRegs[] = {20, 21, 22, 23, 24, 25};
 
 const int ArchRegParamMapping[] = {0, 1, 2, 3, 4, 5, 6, 7};
 
-// Break s1 in store, mod and tjmp
-static const char *kTmpReg = S1;
+// Broken in load, store and parameter passing, so not allocated.
+static const char *kTmpReg = T0;
 
 #define SZ_FLOAT   VRegSize4
 #define SZ_DOUBLE  VRegSize8
-- 
2.43.0


From fa33f8ba3d9226ad66e672e3b1022a2c71175208 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:11:27 +0000
Subject: [PATCH 109/162] fix: riscv64 saves fs8, which is callee-saved

---
 src/cc/arch/riscv64/ir_riscv64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 6ecf5b2..2c58da3 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -45,7 +45,7 @@ const char *kFReg64s[PHYSICAL_FREG_MAX] = {
 #define GET_FA0_INDEX()   0
 
 #define CALLEE_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCalleeSaveFRegs))
-static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19};
+static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
 
 #define CALLER_SAVE_FREG_COUNT  ((int)ARRAY_SIZE(kCallerSaveFRegs))
 static const int kCallerSaveFRegs[] = {20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
-- 
2.43.0


From fbe89ad8dc4f3b4cc79cbe7dc8b7b5e5a057b797 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 110/162] fix: riscv64 conversions of floating to 32-bit
 integers had signed and unsigned swapped

---
 src/cc/arch/riscv64/ir_riscv64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 2c58da3..c1a472e 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -590,7 +590,7 @@ static void ei_cast(IR *ir) {
     // flonum->fix
     if (ir->dst->vsize < VRegSize8) {
       assert(!(ir->opr1->flag & VRF_CONST));
-      if (ir->flag & IRF_UNSIGNED) {
+      if (!(ir->flag & IRF_UNSIGNED)) {
         switch (ir->opr1->vsize) {
         case SZ_FLOAT:   FCVT_W_S(kReg64s[ir->dst->phys], kFReg32s[ir->opr1->phys]); break;
         case SZ_DOUBLE:  FCVT_W_D(kReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
-- 
2.43.0


From fe463b981767810e083bbfa20dabc6f550eccee6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 111/162] fix: riscv64 keeps 32-bit values sign-extended, so
 that they compare as what they are

---
 src/cc/arch/riscv64/ir_riscv64.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index c1a472e..89a86c7 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -190,6 +190,11 @@ static inline bool is_im12(int64_t x) {
   return x <= ((1L << 11) - 1) && x >= -(1L << 11);
 }
 
+// 32-bit values are kept sign-extended in registers, unsigned ones too.
+static inline int64_t const_value(VReg *vreg) {
+  return vreg->vsize == VRegSize4 ? (int32_t)vreg->fixnum : vreg->fixnum;
+}
+
 static void ei_bofs(IR *ir) {
   const char *dst = kReg64s[ir->dst->phys];
   int64_t offset = ir->bofs.frameinfo->offset + ir->bofs.offset;
@@ -273,8 +278,8 @@ static void ei_load(IR *ir) {
       else                         LH(dst, src);
       break;
     case 2:
-      if (ir->flag & IRF_UNSIGNED) LWU(dst, src);
-      else                         LW(dst, src);
+      // 32-bit values, unsigned ones too, are kept sign-extended.
+      LW(dst, src);
       break;
     case 3:
       LD(dst, src);
@@ -399,7 +404,7 @@ static void ei_mul(IR *ir) {
     }
   } else {
     assert(!(ir->opr1->flag & VRF_CONST) && !(ir->opr2->flag & VRF_CONST));
-    if (ir->dst->vsize <= 2 && !(ir->flag & IRF_UNSIGNED)) {
+    if (ir->dst->vsize <= 2) {
       MULW(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
     } else {
       MUL(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys], kReg64s[ir->opr2->phys]);
@@ -532,7 +537,10 @@ static void ei_neg(IR *ir) {
     case SZ_DOUBLE:  FNEG_D(kFReg64s[ir->dst->phys], kFReg64s[ir->opr1->phys]); break;
     }
   } else {
-    NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
+    if (ir->dst->vsize <= 2)
+      SUBW(kReg64s[ir->dst->phys], ZERO, kReg64s[ir->opr1->phys]);
+    else
+      NEG(kReg64s[ir->dst->phys], kReg64s[ir->opr1->phys]);
   }
 }
 
@@ -628,7 +636,7 @@ static void ei_cast(IR *ir) {
     int pow = MIN(powd, pows);
     const char *dst = kReg64s[ir->dst->phys], *src = kReg64s[ir->opr1->phys];
 
-    if (ir->flag & IRF_UNSIGNED) {
+    if ((ir->flag & IRF_UNSIGNED) && !(pow == 2 && powd == 2)) {
       switch (pow) {
       case 0:  ZEXT_B(dst, src); break;
       case 1:  ZEXT_H(dst, src); break;
@@ -661,7 +669,7 @@ static void emit_mov(int dstphys, VReg *opr1) {
   } else {
     const char *dst = kReg64s[dstphys];
     if (opr1->flag & VRF_CONST) {
-      LI(dst, IM(opr1->fixnum));
+      LI(dst, IM(const_value(opr1)));
     } else {
       if (opr1->phys != dstphys) {
         MV(dst, kReg64s[opr1->phys]);
@@ -890,7 +898,7 @@ static void ei_pusharg(IR *ir) {
     // Assume parameter registers are arranged from index 0.
     const char *dst = kReg64s[ir->pusharg.index];
     if (ir->opr1->flag & VRF_CONST)
-      LI(dst, IM(ir->opr1->fixnum));
+      LI(dst, IM(const_value(ir->opr1)));
     else if (ir->pusharg.index != ir->opr1->phys)
       MV(dst, kReg64s[ir->opr1->phys]);
   }
-- 
2.43.0


From 32d6279f36535cba49b3d0a876100cf36b29a7c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 112/162] fix: riscv64 stores a float parameter in the 4 bytes
 it has, however far they are

---
 src/cc/arch/riscv64/emit_riscv64.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cc/arch/riscv64/emit_riscv64.c b/src/cc/arch/riscv64/emit_riscv64.c
index 0bfd16d..7b5971d 100644
--- a/src/cc/arch/riscv64/emit_riscv64.c
+++ b/src/cc/arch/riscv64/emit_riscv64.c
@@ -112,8 +112,19 @@ static void move_params_to_assigned(Function *func) {
     if (vreg->flag & VRF_SPILLED) {
       int offset = vreg->frame.offset;
       assert(offset != 0);
-      assert(offset != 0);
-      FSD(src, IMMEDIATE_OFFSET(offset, FP));
+      const char *dst;
+      if (offset >= -2048) {
+        dst = IMMEDIATE_OFFSET(offset, FP);
+      } else {
+        LI(T0, IM(offset));
+        ADD(T0, T0, FP);
+        dst = IMMEDIATE_OFFSET0(T0);
+      }
+      switch (vreg->vsize) {
+      case VRegSize4:  FSW(src, dst); break;
+      case VRegSize8:  FSD(src, dst); break;
+      default: assert(false); break;
+      }
     } else {
       if (p->index != vreg->phys) {
         const char *dst = kFReg64s[vreg->phys];
-- 
2.43.0


From 47c2aa5ebbd91f971182b2f7e27eed9de8c81d4f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:15:09 +0000
Subject: [PATCH 113/162] fix: riscv64 extends small integers before converting
 them to floating

---
 src/cc/arch/riscv64/ir_riscv64.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index 89a86c7..ea93602 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -30,7 +30,7 @@ static const int kCallerSaveRegs[] = {20, 21, 22, 23, 24, 25};
 
 const int ArchRegParamMapping[] = {0, 1, 2, 3, 4, 5, 6, 7};
 
-// Broken in load, store and parameter passing, so not allocated.
+// Broken in load, store, cast and parameter passing, so not allocated.
 static const char *kTmpReg = T0;
 
 #define SZ_FLOAT   VRegSize4
@@ -568,6 +568,17 @@ static void ei_cast(IR *ir) {
       assert(0 <= pows && pows < 4);
 
       const char *src = kReg64s[ir->opr1->phys];
+      if (pows < 2) {
+        // Upper bits of small values are not specified.
+        if (ir->flag & IRF_UNSIGNED) {
+          if (pows == 0)  ZEXT_B(kTmpReg, src);
+          else            ZEXT_H(kTmpReg, src);
+        } else {
+          if (pows == 0)  SEXT_B(kTmpReg, src);
+          else            SEXT_H(kTmpReg, src);
+        }
+        src = kTmpReg;
+      }
       if (ir->opr1->vsize < VRegSize8) {
         switch (ir->dst->vsize) {
         case SZ_FLOAT:
-- 
2.43.0


From 4b5f4d45484ef44730e534082f1247ef2b4ea8fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 114/162] fix: aarch64 assembler encodes the offset, the size
 and the index of loads and stores as written

---
 src/as/arch/aarch64/aarch64_code.h  |  26 +--
 src/as/arch/aarch64/asm_code.c      | 262 +++++++++++++---------------
 src/as/arch/aarch64/parse_aarch64.c |   3 +-
 3 files changed, 134 insertions(+), 157 deletions(-)

diff --git a/src/as/arch/aarch64/aarch64_code.h b/src/as/arch/aarch64/aarch64_code.h
index 7bafad5..fac51d5 100644
--- a/src/as/arch/aarch64/aarch64_code.h
+++ b/src/as/arch/aarch64/aarch64_code.h
@@ -32,16 +32,16 @@
 #define W_SBFM(sz, rd, sn, rn, immr, imms)         MAKE_CODE32(inst, code, 0x13000000U | ((sz) << 31) | ((sn) << 22) | ((immr) << 16) | ((imms) << 10) | ((rn) << 5) | (rd))
 #define W_UBFM(sz, rd, sn, rn, immr, imms)         MAKE_CODE32(inst, code, 0x53000000U | ((sz) << 31) | ((sn) << 22) | ((immr) << 16) | ((imms) << 10) | ((rn) << 5) | (rd))
 
-#define W_LDUR(b, s, rt, ofs, base)                MAKE_CODE32(inst, code, 0x38400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define W_LDR_UIMM(b, s, rt, ofs, base)            MAKE_CODE32(inst, code, 0x39400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define W_LDR(b, s, rt, ofs, base, prepost)        MAKE_CODE32(inst, code, 0x38400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
+#define W_LDUR(b, opc, rt, ofs, base)              MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((opc) << 22) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
+#define W_LDR_UIMM(b, opc, rt, ofs, base)          MAKE_CODE32(inst, code, 0x39000000U | ((b) << 30) | ((opc) << 22) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
+#define W_LDR(b, opc, rt, ofs, base, prepost)      MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((opc) << 22) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
 #define W_STUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
 #define W_STR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0x39000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
 #define W_STR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
-#define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_LDP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((ofs) & ((1U << 7) - 1)) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_STP(sz, rs1, rs2, ofs, base, prepost)    MAKE_CODE32(inst, code, 0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((ofs) & ((1U << 7) - 1)) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 
-#define W_LDR_R(sz, rt, base, rm, s, s2, option)   MAKE_CODE32(inst, code, 0x38600800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
+#define W_LDR_R(sz, rt, base, rm, opc, s2, option) MAKE_CODE32(inst, code, 0x38200800U | ((sz) << 30) | ((opc) << 22) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 #define W_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0x38200800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 
 #define W_ADRP(rd, imm)                            MAKE_CODE32(inst, code, 0x90000000U | (IMM(imm, 31, 30) << 29) | (IMM(imm, 29, 12) << 5) | (rd))
@@ -71,17 +71,17 @@
 
 // FP instructions.
 
-#define F_LDUR(b, s, rt, ofs, base)                MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
-#define F_LDR_UIMM(b, s, rt, ofs, base)            MAKE_CODE32(inst, code, 0xbd400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
-#define F_LDR(b, s, rt, ofs, base, prepost)        MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((s) << 23) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
+#define F_LDUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
+#define F_LDR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0xbd400000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
+#define F_LDR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0xbc400000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
 #define F_STUR(b, rt, ofs, base)                   MAKE_CODE32(inst, code, 0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
 #define F_STR_UIMM(b, rt, ofs, base)               MAKE_CODE32(inst, code, 0xbd000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
 #define F_STR(b, rt, ofs, base, prepost)           MAKE_CODE32(inst, code, 0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
-#define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_LDP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c400000U | ((b) << 30) | ((prepost) << 23) | (((ofs) & ((1U << 7) - 1)) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_STP(b, rt, ru, base, ofs, prepost)       MAKE_CODE32(inst, code, 0x2c000000U | ((b) << 30) | ((prepost) << 23) | (((ofs) & ((1U << 7) - 1)) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
 
-#define F_LDR_R(sz, rt, base, rm, s, s2, option)   MAKE_CODE32(inst, code, 0xbc700800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
-#define F_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0xbc300800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
+#define F_LDR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0xbc600800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
+#define F_STR_R(sz, rt, base, rm, s2, option)      MAKE_CODE32(inst, code, 0xbc200800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 
 #define FMOV(sz, rd, rn)                           MAKE_CODE32(inst, code, 0x1e204000U | ((sz) << 22) | ((rn) << 5) | (rd))
 #define FADD(sz, rd, rn, rm)                       MAKE_CODE32(inst, code, 0x1e202800U | ((sz) << 22) | ((rm) << 16) | ((rn) << 5) | (rd))
diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 6e64a82..08b7c8e 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -34,6 +34,36 @@ static inline bool assemble_error(ParseInfo *info, const char *message) {
 
 static const uint32_t kPrePost[] = { 2, 3, 1 };
 
+static inline bool is_im9(int64_t x) {
+  return x >= -(1L << 8) && x < (1L << 8);
+}
+
+// Unsigned 12-bit offset, scaled by the access size.
+static inline bool is_scaled_uimm12(int64_t x, uint32_t scale) {
+  return x >= 0 && (x & ((1L << scale) - 1)) == 0 && (x >> scale) < (1L << 12);
+}
+
+// Signed 7-bit offset, scaled by the access size.
+static inline bool is_scaled_im7(int64_t x, uint32_t scale) {
+  return (x & ((1L << scale) - 1)) == 0 && (x >> scale) >= -(1L << 6) && (x >> scale) < (1L << 6);
+}
+
+static inline int64_t get_fixnum(Expr *expr) {
+  return expr != NULL && expr->kind == EX_FIXNUM ? expr->fixnum : 0;
+}
+
+// Whether the index register is shifted by the access size.
+static bool get_register_offset_scale(Operand *opr, uint32_t scale, uint32_t *result) {
+  int64_t n = get_fixnum(opr->register_offset.scale);
+  if (n != 0 && n != scale)
+    return false;
+  *result = n != 0;
+  return true;
+}
+
+// uxtw: 2, lsl: 3, sxtw: 6, sxtx: 7
+static const uint32_t kIndexExtends[] = {3, 6, 2, 3, 7};
+
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -251,105 +281,61 @@ static unsigned char *asm_4r(Inst *inst, Code *code) {
 
 static unsigned char *asm_ldrstr(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
-  uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   Operand *opr2 = &inst->opr[1];
+  uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  uint32_t scale;  // log2 of the access size.
+  uint32_t opc = 1;  // Load: 1=zero extend, 2=sign extend to 64bit, 3=sign extend to 32bit
+  bool load = true;
+  switch (inst->op) {
+  case LDRB:   scale = 0; break;
+  case LDRH:   scale = 1; break;
+  case LDR:    scale = 2 + sz; break;
+  case LDRSB:  scale = 0; opc = 3 - sz; break;
+  case LDRSH:  scale = 1; opc = 3 - sz; break;
+  case LDRSW:  scale = 2; opc = 3 - sz; break;
+  case STRB:   scale = 0; load = false; break;
+  case STRH:   scale = 1; load = false; break;
+  case STR:    scale = 2 + sz; load = false; break;
+  default: assert(false); return NULL;
+  }
+
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
-    // assert(opr2->indirect.offset == NULL || opr2->indirect.offset->kind == EX_FIXNUM);
-    ExprWithFlag *offset_expr = &opr2->indirect.offset;
-    int64_t offset = offset_expr->expr != NULL && offset_expr->expr->kind == EX_FIXNUM ? offset_expr->expr->fixnum : 0;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+    int64_t offset = get_fixnum(opr2->indirect.offset.expr);
     uint32_t base = opr2->indirect.reg.no;
     uint32_t prepost = kPrePost[opr2->indirect.prepost];
-    switch (inst->op) {
-    case LDRB: case LDRH: case LDR:
-    case LDRSB: case LDRSH:
-      {
-        uint32_t b = inst->op - LDRB, s = 0;
-        if (b >= 3) {
-          b -= 3;
-          s = 1;
-        }
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            W_LDR_UIMM(b | sz, s, opr1->reg.no, offset >> (b + (inst->op == LDR ? sz : 0)), base);
-          else
-            W_LDUR(b | sz, s, opr1->reg.no, offset, base);
-        } else {
-          W_LDR(b | sz, s, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    case STRB: case STRH: case STR:
-      {
-        uint32_t b = inst->op - STRB;
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            W_STR_UIMM(b | sz, opr1->reg.no, offset >> (b + (inst->op == STR ? sz : 0)), base);
-          else
-            W_STUR(b | sz, opr1->reg.no, offset, base);
-        } else {
-          W_STR(b | sz, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    default: assert(false); break;
+    if (opr2->indirect.prepost != 0) {
+      if (!is_im9(offset))
+        return NULL;
+      if (load)
+        W_LDR(scale, opc, opr1->reg.no, offset, base, prepost);
+      else
+        W_STR(scale, opr1->reg.no, offset, base, prepost);
+    } else if (is_scaled_uimm12(offset, scale)) {
+      if (load)
+        W_LDR_UIMM(scale, opc, opr1->reg.no, offset >> scale, base);
+      else
+        W_STR_UIMM(scale, opr1->reg.no, offset >> scale, base);
+    } else if (is_im9(offset)) {
+      if (load)
+        W_LDUR(scale, opc, opr1->reg.no, offset, base);
+      else
+        W_STUR(scale, opr1->reg.no, offset, base);
+    } else {
+      return NULL;
     }
-    return code->buf;
   } else {
     assert(opr2->type == REGISTER_OFFSET);
-    assert(opr2->register_offset.scale == NULL || opr2->register_offset.scale->kind == EX_FIXNUM);
-
-    static const uint32_t opts[] = {3, 6, 2, 3, 3};
-    uint32_t opt = opts[opr2->register_offset.extend];
-
-    switch (inst->op) {
-    case LDRB: case LDRH: case LDR:
-    case LDRSB: case LDRSH:
-      {
-        uint32_t b = inst->op - LDRB, s = 0;
-        if (b >= 3) {
-          b -= 3;
-          s = 1;
-        }
-        b |= sz;
-
-        uint32_t s2 = 0;
-        Expr *scale = opr2->register_offset.scale;
-        if (scale != NULL) {
-          assert(scale->kind == EX_FIXNUM);
-          int64_t n = scale->fixnum;
-          if (!(n == 0 || n == b)) {
-            // TODO: Error message.
-            return NULL;
-          }
-          s2 = n == b;
-        }
-        W_LDR_R(b, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s, s2, opt);
-      }
-      break;
-    case STRB: case STRH: case STR:
-      {
-        uint32_t b = (inst->op - STRB) | sz;
-
-        uint32_t s2 = 0;
-        Expr *scale = opr2->register_offset.scale;
-        if (scale != NULL) {
-          assert(scale->kind == EX_FIXNUM);
-          int64_t n = scale->fixnum;
-          if (!(n == 0 || n == b)) {
-            // TODO: Error message.
-            return NULL;
-          }
-          s2 = n == b;
-        }
-        W_STR_R(b, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
-      }
-      break;
-    default: assert(false); break;
-    }
-    return code->buf;
+    uint32_t opt = kIndexExtends[opr2->register_offset.extend];
+    uint32_t s2;
+    if (!get_register_offset_scale(opr2, scale, &s2))
+      return NULL;
+    if (load)
+      W_LDR_R(scale, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, opc, s2, opt);
+    else
+      W_STR_R(scale, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
   }
+  return code->buf;
 }
 
 static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
@@ -357,16 +343,17 @@ static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
   Operand *opr2 = &inst->opr[1];
   assert(opr1->reg.size == opr2->reg.size);
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  uint32_t scale = 2 + sz;
   Operand *opr3 = &inst->opr[2];
   assert(opr3->indirect.reg.size == REG64);
-  assert(opr3->indirect.offset.expr == NULL || opr3->indirect.offset.expr->kind == EX_FIXNUM);
-  int64_t offset = opr3->indirect.offset.expr != NULL ? opr3->indirect.offset.expr->fixnum : 0;
-  assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+  int64_t offset = get_fixnum(opr3->indirect.offset.expr);
+  if (!is_scaled_im7(offset, scale))
+    return NULL;
   uint32_t base = opr3->indirect.reg.no;
   uint32_t prepost = kPrePost[opr3->indirect.prepost];
   switch (inst->op) {
-  case LDP:  W_LDP(sz, opr1->reg.no, opr2->reg.no, offset, base, prepost); break;
-  case STP:  W_STP(sz, opr1->reg.no, opr2->reg.no, offset, base, prepost); break;
+  case LDP:  W_LDP(sz, opr1->reg.no, opr2->reg.no, offset >> scale, base, prepost); break;
+  case STP:  W_STP(sz, opr1->reg.no, opr2->reg.no, offset >> scale, base, prepost); break;
   default: assert(false); break;
   }
   return code->buf;
@@ -440,73 +427,62 @@ static unsigned char *asm_f_ldrstr(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  uint32_t scale = 2 + sz;
+  bool load = inst->op == F_LDR;
   if (opr2->type == INDIRECT) {
     assert(opr2->indirect.reg.size == REG64);
-    // assert(opr2->indirect.offset == NULL || opr2->indirect.offset->kind == EX_FIXNUM);
-    ExprWithFlag *offset_expr = &opr2->indirect.offset;
-    int64_t offset = offset_expr->expr != NULL && offset_expr->expr->kind == EX_FIXNUM ? offset_expr->expr->fixnum : 0;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+    int64_t offset = get_fixnum(opr2->indirect.offset.expr);
     uint32_t base = opr2->indirect.reg.no;
     uint32_t prepost = kPrePost[opr2->indirect.prepost];
-
-    switch (inst->op) {
-    case F_LDR:
-      {
-        uint32_t s = 0;
-        if (opr2->indirect.prepost == 0) {
-          if (offset >= 0)
-            F_LDR_UIMM(sz, s, opr1->reg.no, offset >> (2 + sz), base);
-          else
-            F_LDUR(sz, s, opr1->reg.no, offset, base);
-        } else {
-          F_LDR(sz, s, opr1->reg.no, offset, base, prepost);
-        }
-      }
-      break;
-    case F_STR:
-      if (opr2->indirect.prepost == 0) {
-        if (offset >= 0)
-          F_STR_UIMM((inst->op - STRB) | sz, opr1->reg.no, 0, base);
-        else
-          F_STUR((inst->op - STRB) | sz, opr1->reg.no, offset, base);
-      } else {
-        F_STR((inst->op - STRB) | sz, opr1->reg.no, offset, base, prepost);
-      }
-      break;
-    default: assert(false); break;
+    if (opr2->indirect.prepost != 0) {
+      if (!is_im9(offset))
+        return NULL;
+      if (load)
+        F_LDR(sz, opr1->reg.no, offset, base, prepost);
+      else
+        F_STR(sz, opr1->reg.no, offset, base, prepost);
+    } else if (is_scaled_uimm12(offset, scale)) {
+      if (load)
+        F_LDR_UIMM(sz, opr1->reg.no, offset >> scale, base);
+      else
+        F_STR_UIMM(sz, opr1->reg.no, offset >> scale, base);
+    } else if (is_im9(offset)) {
+      if (load)
+        F_LDUR(sz, opr1->reg.no, offset, base);
+      else
+        F_STUR(sz, opr1->reg.no, offset, base);
+    } else {
+      return NULL;
     }
-    return code->buf;
   } else {
     assert(opr2->type == REGISTER_OFFSET);
-    assert(opr2->register_offset.scale == NULL || opr2->register_offset.scale->kind == EX_FIXNUM);
-
-    static const uint32_t opts[] = {3, 6, 2, 3, 3};
-    uint32_t opt = opts[opr2->register_offset.extend];
-    uint32_t s = opr2->register_offset.extend > 0 ? 1 : 0;
-
-    switch (inst->op) {
-    case F_LDR:  F_LDR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, 0, s, opt); break;
-    case F_STR:  F_STR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s, opt); break;
-    default: assert(false); break;
-    }
-    return code->buf;
+    uint32_t opt = kIndexExtends[opr2->register_offset.extend];
+    uint32_t s2;
+    if (!get_register_offset_scale(opr2, scale, &s2))
+      return NULL;
+    if (load)
+      F_LDR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
+    else
+      F_STR_R(sz, opr1->reg.no, opr2->register_offset.base_reg.no, opr2->register_offset.index_reg.no, s2, opt);
   }
+  return code->buf;
 }
 
 static unsigned char *asm_f_ldpstp(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  uint32_t scale = 2 + sz;
   Operand *opr3 = &inst->opr[2];
   assert(opr3->indirect.reg.size == REG64);
-  assert(opr3->indirect.offset.expr == NULL || opr3->indirect.offset.expr->kind == EX_FIXNUM);
-  int64_t offset = opr3->indirect.offset.expr != NULL ? opr3->indirect.offset.expr->fixnum : 0;
-  assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+  int64_t offset = get_fixnum(opr3->indirect.offset.expr);
+  if (!is_scaled_im7(offset, scale))
+    return NULL;
   uint32_t base = opr3->indirect.reg.no;
   uint32_t prepost = kPrePost[opr3->indirect.prepost];
   switch (inst->op) {
-  case F_LDP:  F_LDP(sz, opr1->reg.no, opr2->reg.no, base, offset, prepost); break;
-  case F_STP:  F_STP(sz, opr1->reg.no, opr2->reg.no, base, offset, prepost); break;
+  case F_LDP:  F_LDP(sz, opr1->reg.no, opr2->reg.no, base, offset >> scale, prepost); break;
+  case F_STP:  F_STP(sz, opr1->reg.no, opr2->reg.no, base, offset >> scale, prepost); break;
   default: assert(false); break;
   }
   return code->buf;
diff --git a/src/as/arch/aarch64/parse_aarch64.c b/src/as/arch/aarch64/parse_aarch64.c
index 9a18bf6..d63f74e 100644
--- a/src/as/arch/aarch64/parse_aarch64.c
+++ b/src/as/arch/aarch64/parse_aarch64.c
@@ -389,7 +389,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, Operand *operand) {
   } else {
     operand->type = REGISTER_OFFSET;
     operand->register_offset.base_reg.size = REG64;
-    operand->register_offset.base_reg.no = reg - X0;
+    operand->register_offset.base_reg.no = reg == SP ? 31 : reg - X0;
     if (is_reg64(reg2)) {
       operand->register_offset.index_reg.size = REG64;
       operand->register_offset.index_reg.no = reg2 - X0;
@@ -625,6 +625,7 @@ const ParseInstTable kParseInstTable[] = {
   } },
   [R_LDRSB] = { 1, (const ParseOpArray*[]){ &(ParseOpArray){LDRSB, {R32 | R64, IND | ROI}} } },
   [R_LDRSH] = { 1, (const ParseOpArray*[]){ &(ParseOpArray){LDRSH, {R32 | R64, IND | ROI}} } },
+  [R_LDRSW] = { 1, (const ParseOpArray*[]){ &(ParseOpArray){LDRSW, {R64, IND | ROI}} } },
   [R_STRB] = { 1, (const ParseOpArray*[]){ &(ParseOpArray){STRB, {R32, IND | ROI}} } },
   [R_STRH] = { 1, (const ParseOpArray*[]){ &(ParseOpArray){STRH, {R32, IND | ROI}} } },
   [R_STR] = { 2, (const ParseOpArray*[]){
-- 
2.43.0


From 2b5787e9bef14ec0898a916ad1c24cc2356121f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 115/162] fix: aarch64 stores parameters far from the frame
 pointer without breaking another parameter

---
 src/cc/arch/aarch64/emit_aarch64.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cc/arch/aarch64/emit_aarch64.c b/src/cc/arch/aarch64/emit_aarch64.c
index a7173be..a604f0b 100644
--- a/src/cc/arch/aarch64/emit_aarch64.c
+++ b/src/cc/arch/aarch64/emit_aarch64.c
@@ -106,8 +106,8 @@ static void move_params_to_assigned(Function *func) {
       if (offset >= -256) {
         dst = IMMEDIATE_OFFSET(FP, offset);
       } else {
-        mov_immediate(X9, offset, true, false);  // x9 broken.
-        dst = REG_OFFSET(FP, X9, NULL);
+        mov_immediate(X17, offset, true, false);  // x17 broken.
+        dst = REG_OFFSET(FP, X17, NULL);
       }
       switch (pow) {
       case 0:          STRB(src, dst); break;
@@ -127,7 +127,14 @@ static void move_params_to_assigned(Function *func) {
     if (vreg->flag & VRF_SPILLED) {
       int offset = vreg->frame.offset;
       assert(offset != 0);
-      STR(src, IMMEDIATE_OFFSET(FP, offset));
+      const char *dst;
+      if (offset >= -256) {
+        dst = IMMEDIATE_OFFSET(FP, offset);
+      } else {
+        mov_immediate(X17, offset, true, false);  // x17 broken.
+        dst = REG_OFFSET(FP, X17, NULL);
+      }
+      STR(src, dst);
     } else {
       if (p->index != vreg->phys) {
         const char *dst = (p->type->flonum.kind >= FL_DOUBLE ? kFReg64s : kFReg32s)[vreg->phys];
-- 
2.43.0


From 83e5bc5fbd2ca5db2b26b48938f5a8087c21e797 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 116/162] fix: aarch64 loads every bit of a negative 64-bit
 constant

---
 src/cc/arch/aarch64/ir_aarch64.c | 34 ++++++++++++--------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index 20f789e..fd70c79 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -244,33 +244,25 @@ static inline bool is_im13_addsubimm(int64_t x) {
   return x <= ((1L << 12) - 1) && x >= (-(1L << 12) + 1);
 }
 
-static inline bool is_im48(int64_t x) {
-  return x <= ((1L << 47) - 1) && x >= -(1L << 47);
-}
-
 void mov_immediate(const char *dst, int64_t value, bool b64, bool is_unsigned) {
   // TODO: Investigate available immediate value range.
   // It looks the architecture can take more than 16-bit immediate.
+  UNUSED(is_unsigned);
 
+  if (!b64)
+    value = (int32_t)value;
   if (value == 0) {
     MOV(dst, b64 ? XZR : WZR);
-  } else if (is_im16(value)) {
-    MOV(dst, IM(value));
-  } else {
-    int32_t l = !is_unsigned && value < 0
-        ? (int16_t)value == 0 ? (int32_t)0xffff0000  // This bit patten can be represented in MOV.
-                              : (int32_t)-((uint16_t)(-(int)value))
-        : (int32_t)(uint16_t)value;
-    MOV(dst, IM(l));
-    if (!b64 || is_im32(value)) {
-      uint32_t u = value;
-      MOVK(dst, IM(u >> 16), _LSL(16));
-    } else {
-      MOVK(dst, IM((value >> 16) & 0xffff), _LSL(16));
-      MOVK(dst, IM((value >> 32) & 0xffff), _LSL(32));
-      if (!is_im48(value))
-        MOVK(dst, IM((value >> 48) & 0xffff), _LSL(48));
-    }
+    return;
+  }
+
+  // `mov` fills upper bits with the sign of the immediate, so replace half words which differ from it.
+  const int64_t fill = value < 0 ? 0xffff : 0;
+  MOV(dst, IM((value & 0xffff) - (value < 0 ? 0x10000 : 0)));
+  for (int shift = 16; shift < (b64 ? 64 : 32); shift += 16) {
+    int64_t half = (value >> shift) & 0xffff;
+    if (half != fill)
+      MOVK(dst, IM(half), _LSL(shift));
   }
 }
 
-- 
2.43.0


From c480e72aa5fc49ae86748c4f4693cdda3e9dba2d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 117/162] fix: aarch64 extends small integers before converting
 them to floating

---
 src/cc/arch/aarch64/ir_aarch64.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index fd70c79..d89be5c 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -44,7 +44,7 @@ const int ArchRegParamMapping[] = {0, 1, 2, 3, 4, 5, 6, 7};
 const char **kRegSizeTable[] = {kReg32s, kReg32s, kReg32s, kReg64s};
 static const char *kZeroRegTable[] = {WZR, WZR, WZR, XZR};
 
-// Break x17 in store, mod and tjmp
+// Break x17 in store, cast, mod and tjmp
 static const char *kTmpRegTable[] = {W17, W17, W17, X17};
 
 #define SZ_FLOAT   VRegSize4
@@ -673,6 +673,18 @@ static void ei_cast(IR *ir) {
       default: assert(false); break;
       }
       const char *src = kRegSizeTable[pows][ir->opr1->phys];
+      if (pows < 2) {
+        // Upper bits of small values are not specified.
+        const char *tmp = kTmpRegTable[pows];
+        if (ir->flag & IRF_UNSIGNED) {
+          if (pows == 0)  UXTB(tmp, src);
+          else            UXTH(tmp, src);
+        } else {
+          if (pows == 0)  SXTB(tmp, src);
+          else            SXTH(tmp, src);
+        }
+        src = tmp;
+      }
       if (ir->flag & IRF_UNSIGNED)  UCVTF(dst, src);
       else                          SCVTF(dst, src);
     }
-- 
2.43.0


From 516ef43d49bba414d318d26e5c47a5a2a4a63afd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 118/162] fix: riscv64 variadic functions whose parameters are
 also passed on the stack

---
 src/cc/arch/riscv64/emit_riscv64.c |  4 ++++
 src/cc/backend/codegen.c           | 18 ++++++++++++++++++
 src/cc/backend/codegen.h           |  3 +++
 src/cc/backend/codegen_expr.c      |  3 +++
 src/cc/builtin.c                   | 17 +++--------------
 5 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/cc/arch/riscv64/emit_riscv64.c b/src/cc/arch/riscv64/emit_riscv64.c
index 7b5971d..b82439b 100644
--- a/src/cc/arch/riscv64/emit_riscv64.c
+++ b/src/cc/arch/riscv64/emit_riscv64.c
@@ -45,6 +45,10 @@ static int put_vaarg_params(Function *func) {
   enumerate_register_params(func, iparams, MAX_REG_ARGS, fparams, MAX_FREG_ARGS,
                             &iparam_count, &fparam_count);
 
+  // If parameters are also passed on the stack, all variadic arguments follow them.
+  if (calculate_stack_params_size(func) > 0)
+    return 0;
+
   int size = 0;
   int n = MAX_REG_ARGS - iparam_count;
   if (n > 0) {
diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 967f22d..c408e9d 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -188,6 +188,24 @@ void enumerate_register_params(
   *pfarg_count = farg_count;
 }
 
+#if VAARG_FP_AS_GP
+size_t calculate_stack_params_size(Function *func) {
+  // A struct is returned through the pointer passed in the first register.
+  int ireg_count = is_stack_param(func->type->func.ret) ? 1 : 0;
+  int freg_count = 0;
+  size_t size = 0;
+  const Vector *params = func->params;
+  for (int i = 0; params != NULL && i < params->len; ++i) {
+    const VarInfo *varinfo = params->data[i];
+    const Type *type = varinfo->type;
+    if (is_stack_param(type) ||
+        (is_flonum(type) ? freg_count++ >= MAX_FREG_ARGS : ireg_count++ >= MAX_REG_ARGS))
+      size = ALIGN(size, align_size(type)) + ALIGN(type_size(type), TARGET_POINTER_SIZE);
+  }
+  return size;
+}
+#endif
+
 static enum VRegSize get_elem_vtype(const Type *type) {
   const size_t MAX_REG_SIZE = 8;  // TODO:
 
diff --git a/src/cc/backend/codegen.h b/src/cc/backend/codegen.h
index 27d56a3..6a04814 100644
--- a/src/cc/backend/codegen.h
+++ b/src/cc/backend/codegen.h
@@ -55,6 +55,9 @@ typedef struct {
 void enumerate_register_params(
     Function *func, RegParamInfo iargs[], int max_ireg, RegParamInfo fargs[], int max_freg,
     int *piarg_count, int *pfarg_count);
+#if VAARG_FP_AS_GP
+size_t calculate_stack_params_size(Function *func);
+#endif
 
 bool gen_defun(Function *func);
 void prepare_register_allocation(Function *func);
diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index d640f7e..4b0100f 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -396,6 +396,9 @@ static VReg *gen_funcall(Expr *expr) {
 #if VAARG_FP_AS_GP
       p->fp_as_gp = false;
       if (functype->func.vaargs && functype->func.params != NULL && i >= functype->func.params->len) {
+        // If parameters are also passed on the stack, all variadic arguments follow them.
+        if (i == functype->func.params->len && offset > 0)
+          ireg_index = MAX_REG_ARGS;
         p->is_flo = false;
         p->fp_as_gp = true;
       }
diff --git a/src/cc/builtin.c b/src/cc/builtin.c
index 5c59b99..5b6d551 100644
--- a/src/cc/builtin.c
+++ b/src/cc/builtin.c
@@ -158,20 +158,9 @@ static VReg *gen_builtin_va_start(Expr *expr) {
     return NULL;
   }
 
-  int gn = 0;
-  for (int i = 0; i < params->len; ++i) {
-    VarInfo *info = params->data[i];
-    const Type *t = info->type;
-    if (t->kind != TY_STRUCT) {
-      if (!is_flonum(t))
-        ++gn;
-    }
-  }
-
-  int offset = 0;
-  if (gn >= MAX_REG_ARGS) {
-    offset = (gn - MAX_REG_ARGS) * TARGET_POINTER_SIZE;
-  } else {
+  // If parameters are also passed on the stack, all variadic arguments follow them.
+  int offset = calculate_stack_params_size(curfunc);
+  if (offset == 0) {
     // Check whether register arguments saved on stack has padding.
     RegParamInfo iparams[MAX_REG_ARGS];
     RegParamInfo fparams[MAX_FREG_ARGS];
-- 
2.43.0


From 68ad7efbf29cb8b9c5f4276fcead0b206c429a59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 119/162] fix: riscv64 passes variadic structs by reference, so
 that va_arg gets the whole of them

---
 include/stdarg.h              | 15 ++++++++++++++-
 src/cc/backend/codegen_expr.c | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index f73afc4..d3a0960 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -14,7 +14,20 @@ typedef __gnuc_va_list va_list;
 #define va_arg(ap,ty)     __builtin_va_arg(ap,ty)
 #define va_copy(dst,src)  __builtin_va_copy(dst,src)
 
-#elif (defined(__APPLE__) && defined(__aarch64__)) || defined(__riscv)
+#elif defined(__riscv)
+typedef void **va_list;
+
+// A struct is passed by reference.
+#define va_start(ap,p)    __builtin_va_start(ap,p)
+#define va_end(ap)        /*(void)*/(ap = 0)
+#define va_arg(ap, type)  (*( \
+    __builtin_classify_type(type) == __builtin_classify_type(int) || \
+    __builtin_classify_type(type) == __builtin_classify_type(double) || \
+    __builtin_classify_type(type) == __builtin_classify_type(void*) \
+      ? (type*)(ap)++ : *(type**)(ap)++))  // Assume little endian
+#define va_copy(dst,src)  (dst = src)
+
+#elif defined(__APPLE__) && defined(__aarch64__)
 typedef void **va_list;
 
 #define va_start(ap,p)    __builtin_va_start(ap,p)
diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index 4b0100f..e9bc977 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -368,6 +368,8 @@ static VReg *gen_funcall(Expr *expr) {
     bool is_flo;
 #if VAARG_FP_AS_GP
     bool fp_as_gp;
+    bool by_ref;      // Variadic struct: pointer to the copy is passed.
+    int copy_offset;
 #endif
   } ArgInfo;
 
@@ -395,15 +397,23 @@ static VReg *gen_funcall(Expr *expr) {
       p->is_flo = is_flonum(arg->type);
 #if VAARG_FP_AS_GP
       p->fp_as_gp = false;
+      p->by_ref = false;
       if (functype->func.vaargs && functype->func.params != NULL && i >= functype->func.params->len) {
         // If parameters are also passed on the stack, all variadic arguments follow them.
         if (i == functype->func.params->len && offset > 0)
           ireg_index = MAX_REG_ARGS;
         p->is_flo = false;
         p->fp_as_gp = true;
+        p->by_ref = is_stack_param(arg->type);
+        if (p->by_ref)
+          p->size = TARGET_POINTER_SIZE;
       }
 #endif
       p->stack_arg = is_stack_param(arg->type);
+#if VAARG_FP_AS_GP
+      if (p->by_ref)
+        p->stack_arg = false;
+#endif
 #if VAARG_ON_STACK
       if (functype->func.vaargs && functype->func.params != NULL && i >= functype->func.params->len)
         p->stack_arg = true;
@@ -423,6 +433,16 @@ static VReg *gen_funcall(Expr *expr) {
         }
       }
     }
+#if VAARG_FP_AS_GP
+    for (int i = 0; i < arg_count; ++i) {
+      ArgInfo *p = &arg_infos[i];
+      if (p->by_ref) {
+        const Type *type = ((Expr*)args->data[i])->type;
+        p->copy_offset = offset = ALIGN(offset, align_size(type));
+        offset += ALIGN(type_size(type), TARGET_POINTER_SIZE);
+      }
+    }
+#endif
   }
 
   int total_arg_count = arg_count + (ret_varinfo != NULL ? 1 : 0);
@@ -436,6 +456,15 @@ static VReg *gen_funcall(Expr *expr) {
       Expr *arg = args->data[i];
       VReg *vreg = gen_expr(arg);
       const ArgInfo *p = &arg_infos[i];
+      bool copied = false;
+#if VAARG_FP_AS_GP
+      if (p->by_ref) {
+        VReg *copy = new_ir_sofs(new_const_vreg(p->copy_offset, 2))->dst;
+        gen_memcpy(arg->type, copy, vreg);
+        vreg = copy;
+        copied = true;
+      }
+#endif
       if (p->offset < 0) {
         if (p->is_flo) {
           ++fregarg;
@@ -458,7 +487,7 @@ static VReg *gen_funcall(Expr *expr) {
         enum VRegSize offset_type = 2;  //{.size = 4, .align = 4};  // TODO:
         int ofs = p->offset;
         VReg *dst = new_ir_sofs(new_const_vreg(ofs, offset_type))->dst;
-        if (is_stack_param(arg->type)) {
+        if (is_stack_param(arg->type) && !copied) {
           gen_memcpy(arg->type, dst, vreg);
         } else {
           int flag = is_unsigned(arg->type) ? IRF_UNSIGNED : 0;
-- 
2.43.0


From 3b065ad54eb1aedb3e88a58cf8d164cc9fbfdcb0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 120/162] fix: riscv64 assembler rejects load and store offsets
 that do not fit

---
 src/as/arch/riscv64/asm_code.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index ecbb1a4..263c071 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -291,14 +291,14 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs = inst->opr[1].indirect.reg.no;
     switch (inst->op) {
     case LB:
-      // TODO: Check offset range.
       W_LB(rd, ofs, rs);
       return code->buf;
     case LH:
-      // TODO: Check offset range.
       W_LH(rd, ofs, rs);
       return code->buf;
     case LW:
@@ -306,7 +306,6 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LW(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
@@ -318,19 +317,15 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
         C_LD(rd, ofs, rs);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_LD(rd, ofs, rs);
       return code->buf;
     case LBU:
-      // TODO: Check offset range.
       W_LBU(rd, ofs, rs);
       return code->buf;
     case LHU:
-      // TODO: Check offset range.
       W_LHU(rd, ofs, rs);
       return code->buf;
     case LWU:
-      // TODO: Check offset range.
       W_LWU(rd, ofs, rs);
       return code->buf;
     default: break;
@@ -343,15 +338,15 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs2 = inst->opr[0].reg.no;
     int rs1 = inst->opr[1].indirect.reg.no;
     switch (inst->op) {
     case SB:
-      // TODO: Check offset range.
       W_SB(rs2, ofs, rs1);
       return code->buf;
     case SH:
-      // TODO: Check offset range.
       W_SH(rs2, ofs, rs1);
       return code->buf;
     case SW:
@@ -359,7 +354,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SW(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SW(rs2, ofs, rs1);
       return code->buf;
     case SD:
@@ -371,7 +365,6 @@ static unsigned char *asm_sd(Inst *inst, Code *code) {
         C_SD(rs2, ofs, rs1);
         return code->buf;
       }
-      // TODO: Check offset range.
       W_SD(rs2, ofs, rs1);
       return code->buf;
     default: break;
@@ -510,6 +503,8 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs = inst->opr[1].indirect.reg.no;
     if (inst->op == FLD) {
       if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
@@ -521,7 +516,6 @@ static unsigned char *asm_fld(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FLD:  W_FLD(rd, ofs, rs); break;
     case FLW:  W_FLW(rd, ofs, rs); break;
@@ -536,6 +530,8 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
   Expr *offset = inst->opr[1].indirect.offset;
   if (offset == NULL || offset->kind == EX_FIXNUM) {
     int64_t ofs = offset != NULL ? offset->fixnum : 0;
+    if (!is_im12(ofs))
+      return NULL;
     int rs2 = inst->opr[0].freg;
     int rs1 = inst->opr[1].indirect.reg.no;
     if (inst->op == FSD) {
@@ -548,7 +544,6 @@ static unsigned char *asm_fsd(Inst *inst, Code *code) {
         return code->buf;
       }
     }
-    // TODO: Check offset range.
     switch (inst->op) {
     case FSD:  W_FSD(rs2, ofs, rs1); break;
     case FSW:  W_FSW(rs2, ofs, rs1); break;
-- 
2.43.0


From 3903def99e08d174dd1b700392ec95a8fb55716d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 121/162] fix: riscv64 assembler uses the dynamic rounding mode
 unless one is written

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 src/as/arch/riscv64/inst.h     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 263c071..433a650 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -578,7 +578,7 @@ static unsigned char *asm_if(Inst *inst, Code *code) {
   assert(inst->opr[1].type == FREG);
   int rd = inst->opr[0].reg.no;
   int rs = inst->opr[1].freg;
-  int rm = inst->opr[2].type == ROUNDMODE ? inst->opr[2].roundmode : 0;
+  int rm = inst->opr[2].type == ROUNDMODE ? inst->opr[2].roundmode : DYN;
   switch (inst->op) {
   case FMV_X_D:   W_FMV_X_D(rd, rs); break;
   case FMV_X_W:   W_FMV_X_W(rd, rs); break;
diff --git a/src/as/arch/riscv64/inst.h b/src/as/arch/riscv64/inst.h
index e5f30bf..930be13 100644
--- a/src/as/arch/riscv64/inst.h
+++ b/src/as/arch/riscv64/inst.h
@@ -71,6 +71,7 @@ enum RoundMode {
   RDN,  // Round Down (towards -Inf)
   RUP,  // Round Up (towards +Inf)
   RMM,  // Round to Nearest, ties to Max Magnitude
+  DYN = 7,  // Dynamic rounding mode (default)
 };
 
 enum OperandType {
-- 
2.43.0


From 9b09c2189ac40b474f4c260d6b08b4237ed318e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 122/162] fix: riscv64 assembler rejects 32-bit shifts by 32 or
 more

---
 src/as/arch/riscv64/asm_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index 433a650..f16711d 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -181,7 +181,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
   case SRLIW:
   case SRAI:
   case SRAIW:
-    if (imm >= 64 || (inst->op == SLLIW && imm >= 32) || imm < 0)
+    if (imm >= (inst->op == SLLIW || inst->op == SRLIW || inst->op == SRAIW ? 32 : 64) || imm < 0)
       return NULL;
     switch (inst->op) {
     case SLLI:   W_SLLI(rd, rs, imm); break;
-- 
2.43.0


From 74ca32fccc49a646970c7d652157bd3adc0e0aaf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 123/162] fix: riscv64 assembler drops no bit of the offset of
 a compressed SW

---
 src/as/arch/riscv64/riscv64_code.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index f640c5f..cd9622b 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -144,7 +144,7 @@
 #define C_SRAI(rd, imm)           MAKE_CODE16(inst, code, 0x8401 | (IMM(imm, 5, 5) << 12) | (to_rvc_reg(rd) << 7) | (IMM(imm, 4, 0) << 2))
 #define C_LW(rd, imm, rs)         MAKE_CODE16(inst, code, 0x4000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rd) << 2))
 #define C_LD(rd, imm, rs)         MAKE_CODE16(inst, code, 0x6000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rd) << 2))
-#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
+#define C_SW(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xc000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 2, 2) << 6) | (IMM(imm, 6, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_SD(rs2, imm, rs1)       MAKE_CODE16(inst, code, 0xe000 | (IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_LDSP(rd, imm)           MAKE_CODE16(inst, code, 0x6002 | (IMM(imm, 5, 5) << 12) | ((rd) << 7) | (IMM(imm, 4, 3) << 5) | (IMM(imm, 8, 6) << 2))
 #define C_SDSP(rs, imm)           MAKE_CODE16(inst, code, 0xe002 | (IMM(imm, 5, 3) << 10) | (IMM(imm, 8, 6) << 7) | ((rs) << 2))
-- 
2.43.0


From 367fc3633fbc09eed00cf1170bb16b43f079312b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 124/162] fix: riscv64 assembler does not use compressed forms
 that mean something else for zero and sp

---
 src/as/arch/riscv64/asm_code.c     | 22 ++++++++++++++--------
 src/as/arch/riscv64/riscv64_code.h |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/as/arch/riscv64/asm_code.c b/src/as/arch/riscv64/asm_code.c
index f16711d..3f965c7 100644
--- a/src/as/arch/riscv64/asm_code.c
+++ b/src/as/arch/riscv64/asm_code.c
@@ -80,9 +80,9 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
 
   switch (inst->op) {
   case ADD:
-    if (rd == rs1)
+    if (rd == rs1 && rs2 != ZERO)
       C_ADD(rd, rs2);
-    else if (rd == rs2)
+    else if (rd == rs2 && rs1 != ZERO)
       C_ADD(rd, rs1);
     else
       W_ADD(rd, rs1, rs2);
@@ -134,7 +134,7 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
     if (is_im6(imm)) {
       switch (inst->op) {
       case ADDI:   if (imm != 0) { C_ADDI(rd, imm); return code->buf; } break;
-      case ADDIW:  C_ADDIW(rd, imm); return code->buf;
+      case ADDIW:  if (rd != ZERO) { C_ADDIW(rd, imm); return code->buf; } break;
       case ANDI:   if (is_rvc_reg(rd)) { C_ANDI(rd, imm); return code->buf; } break;
       default: break;
       }
@@ -250,11 +250,11 @@ static void li_sub(Inst *inst, Code *code, int64_t imm) {
       l = l - 0x1000;
       imm += 1 << 12;
     }
-    if (is_im6(imm >> 12))
+    if (is_im6(imm >> 12) && rd != ZERO && rd != SP)  // C.LUI to sp is C.ADDI16SP.
       C_LUI(rd, imm);
     else
       W_LUI(rd, imm);
-    if (is_im6(l))
+    if (is_im6(l) && rd != ZERO)
       C_ADDIW(rd, l);
     else
       W_ADDIW(rd, rd, l);
@@ -309,7 +309,7 @@ static unsigned char *asm_ld(Inst *inst, Code *code) {
       W_LW(rd, ofs, rs);
       return code->buf;
     case LD:
-      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP) {
+      if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == SP && rd != ZERO) {
         C_LDSP(rd, ofs);
         return code->buf;
       }
@@ -381,13 +381,19 @@ static unsigned char *asm_j(Inst *inst, Code *code) {
 
 static unsigned char *asm_jr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JR(rs);
+  if (rs != ZERO)
+    C_JR(rs);
+  else
+    W_JALR(ZERO, rs, 0);
   return code->buf;
 }
 
 static unsigned char *asm_jalr(Inst *inst, Code *code) {
   int rs = inst->opr[0].reg.no;
-  C_JALR(rs);
+  if (rs != ZERO)
+    C_JALR(rs);
+  else
+    W_JALR(RA, rs, 0);
   return code->buf;
 }
 
diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index cd9622b..2256e4f 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -166,7 +166,7 @@
 #define P_NOT(rd, rs)             W_XORI(rd, rs, -1)
 #define P_SEXT_B(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 56); else W_SLLI(rd, rs, 56); if (is_rvc_reg(rd)) C_SRAI(rd, 56); else W_SRAI(rd, rd, 56); } while (0)
 #define P_SEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRAI(rd, 48); else W_SRAI(rd, rd, 48); } while (0)
-#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs)) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
+#define P_SEXT_W(rd, rs)          do { if ((rd) == (rs) && (rd) != ZERO) C_ADDIW(rd, 0); else W_ADDIW(rd, rs, 0); } while (0)
 #define P_ZEXT_B(rd, rs)          W_ANDI(rd, rs, 0xff)
 #define P_ZEXT_H(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 48); else W_SLLI(rd, rs, 48); if (is_rvc_reg(rd)) C_SRLI(rd, 48); else W_SRLI(rd, rd, 48); } while (0)
 #define P_ZEXT_W(rd, rs)          do { if ((rd) == (rs)) C_SLLI(rd, 32); else W_SLLI(rd, rs, 32); if (is_rvc_reg(rd)) C_SRLI(rd, 32); else W_SRLI(rd, rd, 32); } while (0)
-- 
2.43.0


From 5a0e2412da0c71082c4938f7647e27299ca620d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 125/162] fix: riscv64 assembler puts the label of a lower part
 right on its auipc

---
 src/as/arch/riscv64/ir_asm_riscv64.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index 77faf3a..5a2816c 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -161,14 +161,10 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
     SectionInfo *section = sections->data[sec];
     Vector *irs = section->irs;
     uint64_t start_address = irs->len > 0 ? ((IR*)irs->data[0])->address : 0;
-    const Name *last_label = NULL;
     for (int i = 0, len = irs->len; i < len; ++i) {
       IR *ir = irs->data[i];
       uint64_t address = ir->address;
       switch (ir->kind) {
-      case IR_LABEL:
-        last_label = ir->label;
-        break;
       case IR_CODE:
         {
           Inst *inst = ir->code.inst;
@@ -177,12 +173,19 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             if (inst->opr[1].type == DIRECT) {
               Value value = calc_expr(label_table, inst->opr[1].direct.expr);
               if (value.label != NULL) {
-                if (last_label == NULL) {
-                  const Name *label = alloc_dummy_label();
-                  IR *ir = new_ir_label(label);
-                  vec_insert(irs, i++, ir);
+                // PCREL_LO refers to AUIPC instruction, so a label is needed just on it.
+                const Name *hilabel;
+                IR *prev = i > 0 ? irs->data[i - 1] : NULL;
+                if (prev != NULL && prev->kind == IR_LABEL) {
+                  hilabel = prev->label;
+                } else {
+                  hilabel = alloc_dummy_label();
+                  IR *label_ir = new_ir_label(hilabel);
+                  label_ir->address = address;
+                  vec_insert(irs, i++, label_ir);
                   ++len;
-                  last_label = label;
+                  LabelInfo *label_info = add_label_table(label_table, hilabel, section, true, false);
+                  label_info->address = address;
                 }
 
                 uint64_t offset = address - start_address;
@@ -203,8 +206,6 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                 info->add = value.offset;
                 vec_push(unresolved, info);
 
-                // hilabel points to AUIPC instruction, just above one.
-                const Name *hilabel = last_label;
                 info = calloc_or_die(sizeof(*info));
                 info->kind = UNRES_PCREL_LO;
                 info->label = hilabel;
@@ -407,6 +408,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
           vec_push(unresolved, info);
         }
         break;
+      case IR_LABEL:
       case IR_DATA:
       case IR_BSS:
       case IR_ZERO:
-- 
2.43.0


From 3e434670a5994cc8b3efb745a70ea14d6a3d77b4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 126/162] fix: riscv64 assembler leaves branches to other
 sections to the linker, and resolves labels at address 0

---
 src/as/arch/riscv64/ir_asm_riscv64.c | 38 ++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/as/arch/riscv64/ir_asm_riscv64.c b/src/as/arch/riscv64/ir_asm_riscv64.c
index 5a2816c..230573b 100644
--- a/src/as/arch/riscv64/ir_asm_riscv64.c
+++ b/src/as/arch/riscv64/ir_asm_riscv64.c
@@ -153,6 +153,14 @@ static bool make_jmp_long(IR *ir) {
   return true;
 }
 
+static bool get_label_address(Table *label_table, const Name *label, SectionInfo *section, uint64_t *address) {
+  LabelInfo *info = table_get(label_table, label);
+  if (info == NULL || !(info->flag & LF_DEFINED) || info->section != section)
+    return false;
+  *address = info->address;
+  return true;
+}
+
 bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unresolved) {
   assert(unresolved != NULL);
   vec_clear(unresolved);
@@ -228,6 +236,7 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
           case J:
             if (inst->opr[0].type == DIRECT) {
               uint64_t target_address = 0;
+              bool known = false;
               Value value = calc_expr(label_table, inst->opr[0].direct.expr);
               if (value.label != NULL) {
                 // Put rela even if the label is defined in the same object file.
@@ -240,12 +249,13 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
                 info->add = value.offset;
                 vec_push(unresolved, info);
 
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info != NULL)
-                  target_address = label_info->address + value.offset;
+                known = get_label_address(label_table, value.label, section, &target_address);
+                target_address += value.offset;
+                if (!known)  // The linker decides the distance.
+                  size_upgraded |= make_jmp_long(ir);
               }
 
-              if (target_address != 0) {
+              if (known) {
                 Code *code = &ir->code;
                 int64_t offset = target_address - address;
                 bool is_long = ir->code.flag & INST_LONG_OFFSET;
@@ -275,34 +285,30 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
             break;
           case BEQ: case BNE: case BLT: case BGE: case BLTU: case BGEU:
             if (inst->opr[2].type == DIRECT) {
-              bool comp = false;
               uint64_t target_address = 0;
+              bool known;
               Value value = calc_expr(label_table, inst->opr[2].direct.expr);
               if (value.label != NULL) {
-                LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info != NULL)
-                  target_address = label_info->address + value.offset;
-
-                int64_t offset = target_address - address;
-                comp = inst->opr[1].reg.no == 0 && is_rvc_reg(inst->opr[0].reg.no) &&
-                  (inst->op == BEQ || inst->op == BNE) &&
-                  offset < (1 << 8) && offset >= -(1 << 8);
+                known = get_label_address(label_table, value.label, section, &target_address);
+                target_address += value.offset;
+                if (!known)  // The linker decides the distance.
+                  size_upgraded |= make_bxx_long(ir);
 
-                assert(inst->opr[1].type == REG);
                 // Put rela even if the label is defined in the same object file.
                 UnresolvedInfo *info;
                 info = calloc_or_die(sizeof(*info));
-                info->kind = comp ? UNRES_RISCV_RVC_BRANCH : UNRES_RISCV_BRANCH;
+                info->kind = (ir->code.flag & INST_LONG_OFFSET) ? UNRES_RISCV_BRANCH : UNRES_RISCV_RVC_BRANCH;
                 info->label = value.label;
                 info->src_section = section;
                 info->offset = address - start_address;
                 info->add = value.offset;
                 vec_push(unresolved, info);
               } else {
+                known = true;
                 target_address = address + value.offset;
               }
 
-              if (target_address != 0) {
+              if (known) {
                 Code *code = &ir->code;
                 int64_t offset = target_address - address;
                 bool is_long = ir->code.flag & INST_LONG_OFFSET;
-- 
2.43.0


From 706886723bee9c60b41ace24814cfca197825b43 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 127/162] fix: aarch64 assembler reports a jump to a label
 which is not in the section

---
 src/as/arch/aarch64/ir_asm_aarch64.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/as/arch/aarch64/ir_asm_aarch64.c b/src/as/arch/aarch64/ir_asm_aarch64.c
index 65ff4ae..d2792e4 100644
--- a/src/as/arch/aarch64/ir_asm_aarch64.c
+++ b/src/as/arch/aarch64/ir_asm_aarch64.c
@@ -202,16 +202,8 @@ bool resolve_relative_address(Vector *sections, Table *label_table, Vector *unre
               Value value = calc_expr(label_table, inst->opr[0].direct.expr.expr);
               if (value.label != NULL) {
                 LabelInfo *label_info = table_get(label_table, value.label);
-                if (label_info == NULL) {
-                  /*UnresolvedInfo *info = malloc_or_die(sizeof(*info));
-                  info->kind = UNRES_EXTERN;
-                  info->label = value.label;
-                  info->src_section = section;
-                  info->offset = address - start_address;
-                  info->add = value.offset - 4;
-                  vec_push(unresolved, info);
-                  break;*/
-                  assert(false);
+                if (label_info == NULL || !(label_info->flag & LF_DEFINED) || label_info->section != section) {
+                  error("Jump to `%.*s', which is not in the section", NAMES(value.label));
                 } else {
                   value.offset += label_info->address;
                 }
-- 
2.43.0


From 765fc63a28742b5883b8dff2079b23d805cfb20f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 128/162] fix: aarch64 assembler rejects a number as the base
 and sp as the index

---
 src/as/arch/aarch64/parse_aarch64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/as/arch/aarch64/parse_aarch64.c b/src/as/arch/aarch64/parse_aarch64.c
index d63f74e..997eeb2 100644
--- a/src/as/arch/aarch64/parse_aarch64.c
+++ b/src/as/arch/aarch64/parse_aarch64.c
@@ -296,6 +296,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, Operand *operand) {
     operand->indirect.reg.no = reg - X0;
   } else {
     parse_error(info, "Base register expected");
+    return 0;
   }
 
   ExprWithFlag offset_with_flag = {NULL, 0};
@@ -321,7 +322,7 @@ static unsigned int parse_indirect_register(ParseInfo *info, Operand *operand) {
       }
     } else {
       reg2 = find_register(&p, R32 | R64);
-      if (reg2 == NOREG)
+      if (reg2 == NOREG || reg2 == SP)
         return 0;  // Error
 
       p = skip_whitespaces(p);
-- 
2.43.0


From 53c252416151043058a87e760e9756ebdc4e04c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 129/162] fix: aarch64 assembler moves the immediate written or
 rejects it

---
 src/as/arch/aarch64/asm_code.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index 08b7c8e..dfa8f52 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -88,11 +88,24 @@ static unsigned char *asm_mov(Inst *inst, Code *code) {
     {
       uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
       int64_t imm = opr2->immediate;
-      if (imm >= 0)
-        W_MOVZ(sz, opr1->reg.no, imm, 0);
-      else
-        W_MOVN(sz, opr1->reg.no, ~imm, 0);
-      return code->buf;
+      if (!sz && (imm < INT32_MIN || imm > UINT32_MAX))
+        return NULL;
+      // 16 bits at any position, or the inversion of them.
+      for (int inv = 0; inv < 2; ++inv) {
+        uint64_t value = inv ? ~imm : imm;
+        if (!sz)
+          value = (uint32_t)value;
+        for (int hw = 0; hw < (sz ? 4 : 2); ++hw) {
+          if ((value & ~(0xffffULL << (hw * 16))) != 0)
+            continue;
+          if (inv)
+            W_MOVN(sz, opr1->reg.no, value >> (hw * 16), hw);
+          else
+            W_MOVZ(sz, opr1->reg.no, value >> (hw * 16), hw);
+          return code->buf;
+        }
+      }
+      return NULL;
     }
   default: assert(false); break;
   }
-- 
2.43.0


From 07e04270b5c6500739dd799221f40788f17c2306 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 130/162] fix: aarch64 assembler rejects operands that have no
 encoding

---
 src/as/arch/aarch64/asm_code.c | 55 +++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index dfa8f52..f4c4fda 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -52,8 +52,15 @@ static inline int64_t get_fixnum(Expr *expr) {
   return expr != NULL && expr->kind == EX_FIXNUM ? expr->fixnum : 0;
 }
 
+// uxtw: 2, lsl: 3, sxtw: 6, sxtx: 7
+static const uint32_t kIndexExtends[] = {3, 6, 2, 3, 7};
+
 // Whether the index register is shifted by the access size.
 static bool get_register_offset_scale(Operand *opr, uint32_t scale, uint32_t *result) {
+  // 32-bit index must be extended from word.
+  bool word = (kIndexExtends[opr->register_offset.extend] & 1) == 0;
+  if (word != (opr->register_offset.index_reg.size == REG32))
+    return false;
   int64_t n = get_fixnum(opr->register_offset.scale);
   if (n != 0 && n != scale)
     return false;
@@ -61,9 +68,6 @@ static bool get_register_offset_scale(Operand *opr, uint32_t scale, uint32_t *re
   return true;
 }
 
-// uxtw: 2, lsl: 3, sxtw: 6, sxtx: 7
-static const uint32_t kIndexExtends[] = {3, 6, 2, 3, 7};
-
 static unsigned char *asm_noop(Inst *inst, Code *code) {
   UNUSED(inst);
   unsigned char *p = code->buf;
@@ -118,10 +122,17 @@ static unsigned char *asm_movk(Inst *inst, Code *code) {
   Operand *opr3 = &inst->opr[2];
   assert(opr3->type == SHIFT && (opr3->immediate & 15) == 0);
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
+  if (opr2->immediate < 0 || opr2->immediate > 0xffff || opr3->immediate >= (sz ? 64 : 32))
+    return NULL;
   W_MOVK(sz, opr1->reg.no, opr2->immediate, opr3->immediate >> 4);
   return code->buf;
 }
 
+static bool is_valid_extend(Operand *ext, uint32_t sz) {
+  int64_t max = ext->extend.option < 8 ? 4 : sz ? 63 : 31;
+  return ext->extend.imm >= 0 && ext->extend.imm <= max;
+}
+
 static unsigned char *asm_3r(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
@@ -142,8 +153,9 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
     } else {
       Operand *ext = &inst->opr[3];
       assert(ext->type == EXTEND);
-      // TODO: Range check for imm.
       int option = ext->extend.option;
+      if (!is_valid_extend(ext, sz))
+        return NULL;
       if (option < 8)  // extend
         W_ADD_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, ext->extend.imm);
       else
@@ -161,8 +173,9 @@ static unsigned char *asm_3r(Inst *inst, Code *code) {
     } else {
       Operand *ext = &inst->opr[3];
       assert(ext->type == EXTEND);
-      // TODO: Range check for imm.
       int option = ext->extend.option;
+      if (!is_valid_extend(ext, sz))
+        return NULL;
       if (option < 8)  // extend
         W_SUB_E(sz, opr1->reg.no, opr2->reg.no, opr3->reg.no, option, ext->extend.imm);
       else
@@ -193,17 +206,27 @@ static unsigned char *asm_2ri(Inst *inst, Code *code) {
   int64_t imm = 0;
   if (opr3->type == IMMEDIATE) {
     imm = opr3->immediate;
-    if (imm < -(1 << 12) || imm >= (1 << 12)) {
-      switch (inst->op) {
-      case LSL_I:  case LSR_I: case ASR_I:
-        imm &= 63;
-        break;
-      default:
+    switch (inst->op) {
+    case LSL_I:  case LSR_I: case ASR_I:
+      if (imm < 0 || imm >= (sz ? 64 : 32))
         return NULL;
-      }
+      break;
+    default:
+      if (imm <= -(1 << 12) || imm >= (1 << 12))
+        return NULL;
+      break;
     }
   }
 
+  if (inst->op == ADD_I || inst->op == SUB_I) {
+    // Register number 31 is SP, not ZR.
+    if ((opr1->reg.no == ZERO && !opr1->reg.sp) || (opr2->reg.no == ZERO && !opr2->reg.sp))
+      return NULL;
+    // Only the lower part of an address can be embedded.
+    if (opr3->type == DIRECT && (opr3->direct.expr.flag & LF_PAGEOFF) == 0)
+      return NULL;
+  }
+
   switch (inst->op) {
   case ADD_I:
     if (imm >= 0)  W_ADD_I(sz, opr1->reg.no, opr2->reg.no, imm);
@@ -261,7 +284,7 @@ static unsigned char *asm_ri(Inst *inst, Code *code) {
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   uint32_t imm = 0;
   if (opr2->type == IMMEDIATE) {
-    if (opr2->immediate < 0 || opr2->immediate >= (1 << 12))
+    if (opr2->immediate < 0 || opr2->immediate >= (1 << 12) || opr1->reg.no == ZERO)
       return NULL;
     imm = opr2->immediate;
   }
@@ -374,7 +397,7 @@ static unsigned char *asm_ldpstp(Inst *inst, Code *code) {
 
 static unsigned char *asm_adrp(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
-  if (opr1->reg.size == REG64) {
+  if (opr1->reg.size == REG64 && inst->opr[1].direct.expr.expr->kind != EX_FIXNUM) {
     W_ADRP(opr1->reg.no, 0);
     return code->buf;
   }
@@ -384,6 +407,8 @@ static unsigned char *asm_adrp(Inst *inst, Code *code) {
 static unsigned char *asm_cset(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
   Operand *opr2 = &inst->opr[1];
+  if (opr2->cond >= 14)  // The condition is inverted, so `al' and `nv' are not available.
+    return NULL;
   uint32_t sz = opr1->reg.size == REG64 ? 1 : 0;
   P_CSET(sz, opr1->reg.no, opr2->cond);
   return code->buf;
@@ -430,6 +455,8 @@ static unsigned char *asm_ret(Inst *inst, Code *code) {
 
 static unsigned char *asm_svc(Inst *inst, Code *code) {
   Operand *opr1 = &inst->opr[0];
+  if (opr1->immediate < 0 || opr1->immediate > 0xffff)
+    return NULL;
   W_SVC(opr1->immediate);
   return code->buf;
 }
-- 
2.43.0


From 9bd6f8b3eac84dd5fa0d545ffbce6467e8482780 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 131/162] fix: static variables used by a function whose
 address is taken in an unused initializer are emitted

---
 src/cc/frontend/fe_misc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 3a58734..6291927 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -616,6 +616,7 @@ void propagate_var_used(void) {
         continue;
       if (((varinfo->storage & VS_STATIC) ||
           (varinfo->storage & (VS_INLINE | VS_EXTERN)) == VS_INLINE) &&
+          !(varinfo->storage & VS_REF_TAKEN) &&  // Its address is needed, so it is emitted.
           (func->attributes == NULL ||
            (!table_try_get(func->attributes, constructor_name, NULL) &&
             !table_try_get(func->attributes, destructor_name, NULL)))) {
-- 
2.43.0


From 3d91cccac1a07285bee2717f21f9058c2c0b9cbf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 132/162] fix: wasm lseek receives its 64-bit result in a
 64-bit object

---
 libsrc/_wasm/unistd/lseek.c | 2 +-
 libsrc/_wasm/wasi.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/_wasm/unistd/lseek.c b/libsrc/_wasm/unistd/lseek.c
index f47b385..6f37d7c 100644
--- a/libsrc/_wasm/unistd/lseek.c
+++ b/libsrc/_wasm/unistd/lseek.c
@@ -3,7 +3,7 @@
 #include "../wasi.h"
 
 off_t lseek(int fd, off_t offset, int whence) {
-  size_t size;
+  uint64_t size;
   int result = fd_seek(fd, offset, whence, &size);
   if (result == 0)
     return size;
diff --git a/libsrc/_wasm/wasi.h b/libsrc/_wasm/wasi.h
index 5e21730..07a842c 100644
--- a/libsrc/_wasm/wasi.h
+++ b/libsrc/_wasm/wasi.h
@@ -118,7 +118,7 @@ WASI_MODULE int path_filestat_get(int fd, int flags, const char *path, size_t pa
 WASI_MODULE int fd_read(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_write(int fd, const void *iov, int count, size_t *out);
 WASI_MODULE int fd_close(int fd);
-WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, size_t *psize);
+WASI_MODULE int fd_seek(int fd, int64_t offset, int whence, uint64_t *psize);
 WASI_MODULE int fd_filestat_get(int fd, Filestat *out);
 
 WASI_MODULE int clock_time_get(int clockid, uint64_t precision, uint64_t *out);
-- 
2.43.0


From 1f29706dd4da8fba2a868155289589bca2f9367d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 133/162] fix: wasm close reports a bad descriptor

---
 libsrc/_wasm/unistd/close.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libsrc/_wasm/unistd/close.c b/libsrc/_wasm/unistd/close.c
index 3b2a9d4..c086d39 100644
--- a/libsrc/_wasm/unistd/close.c
+++ b/libsrc/_wasm/unistd/close.c
@@ -1,6 +1,11 @@
 #include "unistd.h"
+#include "errno.h"
 #include "../wasi.h"
 
 int close(int fd) {
-  return fd_close(fd);
+  int result = fd_close(fd);
+  if (result == 0)
+    return 0;
+  errno = EBADF;
+  return -1;
 }
-- 
2.43.0


From 2c136c17f9a4b94776f7ed2fa353cd392084061e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 134/162] fix: wasm open honours O_EXCL, O_APPEND and O_CREAT
 with O_RDONLY

---
 libsrc/_wasm/unistd/open.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libsrc/_wasm/unistd/open.c b/libsrc/_wasm/unistd/open.c
index bed3f42..25014c8 100644
--- a/libsrc/_wasm/unistd/open.c
+++ b/libsrc/_wasm/unistd/open.c
@@ -27,12 +27,15 @@ int open(const char *fn, int flag, ...) {
   }
   uint64_t fs_rights_inheriting = fs_rights_base;
 
-  if (fs_rights_base & FD_WRITE) {
-    if (flag & O_CREAT)
-      oflags |= OFLAGS_CREAT;
-    if (flag & O_TRUNC)
-      oflags |= OFLAGS_TRUNC;
+  if (flag & O_CREAT) {
+    oflags |= OFLAGS_CREAT;
+    if (flag & O_EXCL)
+      oflags |= OFLAGS_EXCL;
   }
+  if ((fs_rights_base & FD_WRITE) && (flag & O_TRUNC))
+    oflags |= OFLAGS_TRUNC;
+  if (flag & O_APPEND)
+    fdflags |= FDFLAGS_APPEND;
 
   // Search from preopens
   size_t fnlen = strlen(fn);
-- 
2.43.0


From 4146e6dbe953948f303390172e657600cb57244a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 135/162] fix: wcc finds the libraries its -l options name

---
 src/wcc/wcc.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/wcc/wcc.c b/src/wcc/wcc.c
index d171113..6b2abf3 100644
--- a/src/wcc/wcc.c
+++ b/src/wcc/wcc.c
@@ -86,8 +86,12 @@ static bool add_lib(Vector *lib_paths, const char *fn, Vector *sources) {
 
 // search 'wlibXXX.a' from library paths.
 static const char *search_library(Vector *lib_paths, const char *libname) {
-  char libfn[128];  // TODO: Avoid overflow.
-  snprintf(libfn, sizeof(libfn), "wlib%s.a", libname);
+  StringBuffer sb;
+  sb_init(&sb);
+  sb_append(&sb, "wlib", NULL);
+  sb_append(&sb, libname, NULL);
+  sb_append(&sb, ".a", NULL);
+  const char *libfn = sb_to_string(&sb);
 
   for (int i = 0; i < lib_paths->len; ++i) {
     const char *dir = lib_paths->data[i];
@@ -390,7 +394,7 @@ static void parse_options(int argc, char *argv[], Options *opts) {
         } else {
           StringBuffer sb;
           sb_init(&sb);
-          sb_append(&sb, "-l", optarg);
+          sb_append(&sb, "-l", NULL);
           sb_append(&sb, optarg, NULL);
           p = sb_to_string(&sb);
         }
@@ -582,11 +586,11 @@ static int do_compile(Options *opts) {
         UNUSED(search_library);
         vec_push(obj_files, src);
 #else
-        const char *path = search_library(opts->lib_paths, optarg);
+        const char *path = search_library(opts->lib_paths, src + 2);
         if (path != NULL) {
           vec_push(obj_files, path);
         } else {
-          fprintf(stderr, "%s: library not found\n", optarg);
+          fprintf(stderr, "%s: library not found\n", src + 2);
           ++error_count;
         }
 #endif
-- 
2.43.0


From 87663f64346d845f347a8d87b763e2872523ca65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 136/162] fix: streams are flushed after atexit functions ran
 on wasm

---
 libsrc/stdlib/__cxa_atexit.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libsrc/stdlib/__cxa_atexit.c b/libsrc/stdlib/__cxa_atexit.c
index 7c49384..727312f 100644
--- a/libsrc/stdlib/__cxa_atexit.c
+++ b/libsrc/stdlib/__cxa_atexit.c
@@ -34,6 +34,14 @@ static void call_cxa_atexit_funcs(void) {
 __attribute__((constructor))
 static void register_atexit(void) {
   static OnExitChain chain = {NULL, call_cxa_atexit_funcs};
+#if defined(__WASM)
+  // Destructors are registered here too, they must follow functions of `atexit'.
+  OnExitChain **pp = &__on_exit_chain;
+  while (*pp != NULL)
+    pp = &(*pp)->next;
+  *pp = &chain;
+#else
   chain.next = __on_exit_chain;
   __on_exit_chain = &chain;
+#endif
 }
-- 
2.43.0


From c299c8d9633a41d5eda45809d874d560efe13fd3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 137/162] fix: structures are passed as variable arguments on
 wasm

---
 src/wcc/gen_wasm.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index cda54ed..38917cc 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -374,7 +374,6 @@ static void gen_funcall(Expr *expr) {
         sarg_offset += size;
       }
     } else {
-      assert(!is_stack_param(arg->type));
       // *(global.sp + sarg_siz + vaarg_offset) = arg
       size_t offset = sarg_siz + vaarg_offset;
       if (offset != 0) {
@@ -386,10 +385,17 @@ static void gen_funcall(Expr *expr) {
       }
       const Type *t = arg->type;
       assert(!(t->kind == TY_FIXNUM && t->fixnum.kind < FX_INT));
-      vaarg_offset += type_size(t);
+      size_t size = type_size(t);
+      vaarg_offset += size;
 
       gen_expr(arg, true);
-      gen_store(t);
+      if (!is_stack_param(t)) {
+        gen_store(t);
+      } else {
+        ADD_CODE(OP_I32_CONST);
+        ADD_LEB128(size);
+        ADD_CODE(OP_0xFC, OPFC_MEMORY_COPY, 0, 0);  // src, dst
+      }
     }
   }
   if (functype->func.vaargs) {
-- 
2.43.0


From c1ed763e4661394baa3770e518e9a7e575a5f538 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:47:14 +0000
Subject: [PATCH 138/162] fix: duplicate symbols brought in by archive members
 are reported for wasm

---
 src/wcc/wasm_linker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index b1772f7..bae6a8b 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -647,6 +647,7 @@ static void *load_wasmobj(FILE *fp, const char *name, size_t size) {
 static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
   Table *unresolved = &linker->unresolved;
   Table *table = &ar->symbol_table;
+  int err_count = 0;
   for (;;) {
     bool retry = false;
     const Name *name;
@@ -658,7 +659,7 @@ static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
 
       WasmObj *wasmobj = load_archive_content(ar, symbol, load_wasmobj);
       if (wasmobj != NULL) {
-        resolve_symbols_wasmobj(linker, wasmobj);
+        err_count += resolve_symbols_wasmobj(linker, wasmobj);
         retry = true;
         break;
       }
@@ -666,7 +667,7 @@ static int resolve_symbols_archive(WasmLinker *linker, Archive *ar) {
     if (!retry)
       break;
   }
-  return 0;
+  return err_count;
 }
 
 static void resolve_symbols_auto_fill(WasmLinker *linker) {
-- 
2.43.0


From 3a5b03c3c090fe1058d16a29ac1185f19ab4ba99 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 139/162] fix: basename and dirname handle empty paths,
 trailing slashes and the root

---
 libsrc/misc/basename.c | 15 +++++++++------
 libsrc/misc/dirname.c  | 23 +++++++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/libsrc/misc/basename.c b/libsrc/misc/basename.c
index 4419ae0..cdc9a49 100644
--- a/libsrc/misc/basename.c
+++ b/libsrc/misc/basename.c
@@ -1,10 +1,13 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "string.h"  // strlen
 
 char *basename(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL)
-    return p + 1;
-  else
-    return path;
+  if (path == NULL || *path == '\0')
+    return ".";
+  char *p = path + strlen(path) - 1;
+  for (; p > path && *p == '/'; --p)  // Remove trailing slashes.
+    *p = '\0';
+  for (; p > path && p[-1] != '/'; --p)
+    ;
+  return p;
 }
diff --git a/libsrc/misc/dirname.c b/libsrc/misc/dirname.c
index 64b76ac..214e755 100644
--- a/libsrc/misc/dirname.c
+++ b/libsrc/misc/dirname.c
@@ -1,11 +1,22 @@
 #include "libgen.h"
-#include "string.h"  // strrchr
+#include "string.h"  // strlen
 
 char *dirname(char *path) {
-  char *p = strrchr(path, '/');
-  if (p != NULL) {
-    *p = '\0';
-    return path;
+  if (path == NULL || *path == '\0')
+    return ".";
+  char *p = path + strlen(path) - 1;
+  for (; *p == '/'; --p) {  // Skip trailing slashes.
+    if (p == path)
+      return "/";
   }
-  return ".";
+  for (; *p != '/'; --p) {  // Skip the last component.
+    if (p == path)
+      return ".";
+  }
+  for (; *p == '/'; --p) {  // Remove slashes before it.
+    if (p == path)
+      return "/";
+  }
+  p[1] = '\0';
+  return path;
 }
-- 
2.43.0


From 832bdb5cd7dd2a74d1c19c8e2853ce21c2fa0775 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 140/162] fix: escaped percent signs in an __asm string
 overflow its buffer

---
 src/cc/backend/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index c408e9d..928e533 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -302,7 +302,7 @@ extern inline void gen_asm(Stmt *stmt) {
     // TODO: Embed parameters.
     //   Here, just escape %.
     if (strchr(str, '%') != NULL) {
-      size_t len = strlen(str + 1);
+      size_t len = strlen(str);  // At least one `%' is removed.
       char *buf = malloc_or_die(len);
       char *dst = buf;
       for (const char *src = str;;) {
-- 
2.43.0


From ded72aac5ebad9f5d94c7caef9ecc543e4a1a591 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:12:50 +0000
Subject: [PATCH 141/162] fix: the result register of an __asm is not used for
 other values

---
 src/cc/arch/aarch64/ir_aarch64.c |  6 ++++++
 src/cc/arch/riscv64/ir_riscv64.c | 10 +++++++++-
 src/cc/arch/x64/ir_x64.c         |  6 ++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index d89be5c..23105f6 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -81,6 +81,12 @@ static unsigned long detect_extra_occupied(RegAlloc *ra, IR *ir) {
     // of the branch instruction.
     ioccupy = 1UL << GET_X16_INDEX();
     break;
+  case IR_ASM:
+    if (ir->dst != NULL) {
+      // The result is put in X0 register.
+      ioccupy = 1UL << GET_X0_INDEX();
+    }
+    break;
   default: break;
   }
   if (ra->flag & RAF_STACK_FRAME)
diff --git a/src/cc/arch/riscv64/ir_riscv64.c b/src/cc/arch/riscv64/ir_riscv64.c
index ea93602..e3abbc6 100644
--- a/src/cc/arch/riscv64/ir_riscv64.c
+++ b/src/cc/arch/riscv64/ir_riscv64.c
@@ -51,8 +51,16 @@ static const int kCalleeSaveFRegs[] = {8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
 static const int kCallerSaveFRegs[] = {20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31};
 
 static unsigned long detect_extra_occupied(RegAlloc *ra, IR *ir) {
-  UNUSED(ir);
   unsigned long ioccupy = 0;
+  switch (ir->kind) {
+  case IR_ASM:
+    if (ir->dst != NULL) {
+      // The result is put in A0 register.
+      ioccupy = 1UL << GET_A0_INDEX();
+    }
+    break;
+  default: break;
+  }
   if (ra->flag & RAF_STACK_FRAME)
     ioccupy |= 1UL << GET_FPREG_INDEX();
   return ioccupy;
diff --git a/src/cc/arch/x64/ir_x64.c b/src/cc/arch/x64/ir_x64.c
index ed3093d..d56ad89 100644
--- a/src/cc/arch/x64/ir_x64.c
+++ b/src/cc/arch/x64/ir_x64.c
@@ -68,6 +68,12 @@ static unsigned long detect_extra_occupied(RegAlloc *ra, IR *ir) {
       ioccupy = 1UL << GET_AREG_INDEX();
     }
     break;
+  case IR_ASM:
+    if (ir->dst != NULL) {
+      // The result is put in A register.
+      ioccupy = 1UL << GET_AREG_INDEX();
+    }
+    break;
   default: break;
   }
   if (ra->flag & RAF_STACK_FRAME)
-- 
2.43.0


From 00997020eb0c7e52daaadb0cc174011d83b766b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:19:01 +0000
Subject: [PATCH 142/162] fix: the assemblers for RISC-V and AArch64 do not
 shift into the sign bit

---
 src/as/arch/aarch64/asm_code.c     | 2 +-
 src/as/arch/riscv64/riscv64_code.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/as/arch/aarch64/asm_code.c b/src/as/arch/aarch64/asm_code.c
index f4c4fda..8274b8d 100644
--- a/src/as/arch/aarch64/asm_code.c
+++ b/src/as/arch/aarch64/asm_code.c
@@ -271,7 +271,7 @@ static unsigned char *asm_2r(Inst *inst, Code *code) {
     break;
   case UXTW:
     // P_MOV(0, opr1->reg.no, opr2->reg.no);
-    W_UBFM(1, opr1->reg.no, 1, opr2->reg.no, 0, 31);
+    W_UBFM(1U, opr1->reg.no, 1, opr2->reg.no, 0, 31);
     break;
   default: assert(false); return NULL;
   }
diff --git a/src/as/arch/riscv64/riscv64_code.h b/src/as/arch/riscv64/riscv64_code.h
index 2256e4f..9c98c6e 100644
--- a/src/as/arch/riscv64/riscv64_code.h
+++ b/src/as/arch/riscv64/riscv64_code.h
@@ -6,10 +6,10 @@
 #define RA    1
 #define SP    2
 
-#define IMM(imm, t, b)  (((imm) >> (b)) & ((1 << (t - b + 1)) - 1))
+#define IMM(imm, t, b)  (((imm) >> (b)) & ((1U << (t - b + 1)) - 1))
 
 // Instruction formats: 32bit=[7|5|5|3|5|7]
-#define RTYPE(funct7, rs2, rs1, funct3, rd, opcode)  (((funct7) << 25) | ((rs2) << 20) | ((rs1) << 15) | ((funct3) << 12) | ((rd) << 7) | (opcode))
+#define RTYPE(funct7, rs2, rs1, funct3, rd, opcode)  (((uint32_t)(funct7) << 25) | ((rs2) << 20) | ((rs1) << 15) | ((funct3) << 12) | ((rd) << 7) | (opcode))
 #define ITYPE(imm, rs1, funct3, rd, opcode)          ((IMM(imm, 11, 0) << 20) | ((rs1) << 15) | ((funct3) << 12) | ((rd) << 7) | (opcode))
 #define STYPE(imm, rs2, rs1, funct3, opcode)         ((IMM(imm, 11, 5) << 25) | ((rs2) << 20) | ((rs1) << 15) | ((funct3) << 12) | (IMM(imm, 4, 0) << 7) | (opcode))
 #define BTYPE(imm, rs2, rs1, funct3, opcode)         ((IMM(imm, 12, 12) << 31) | (IMM(imm, 10, 5) << 25) | ((rs2) << 20) | ((rs1) << 15) | ((funct3) << 12) | (IMM(imm, 4, 0) << 7) | (opcode))
-- 
2.43.0


From 51bde171bd2fe4af1a0e8c4ba949213f55a2127b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 143/162] fix: an enumeration constant may be INT_MAX

---
 src/cc/frontend/parser_type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 384ad69..50b85ea 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -36,7 +36,7 @@ static void parse_enum_members(Type *type) {
     } else {
       define_enum_member(ctype, ident, value);
     }
-    ++value;
+    value = (unsigned int)value + 1;  // Might be beyond the last one.
 
     if (!match(TK_COMMA)) {
       if (fetch_token()->kind != TK_RBRACE) {
-- 
2.43.0


From e7f363a6aaa08a3a4f14cfe91f75814fb750ede5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 144/162] fix: the range of switch cases does not overflow

---
 src/cc/backend/codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/backend/codegen.c b/src/cc/backend/codegen.c
index 928e533..6518d16 100644
--- a/src/cc/backend/codegen.c
+++ b/src/cc/backend/codegen.c
@@ -455,7 +455,8 @@ static void gen_switch_cond_recur(Stmt *swtch, VReg *vreg, Stmt **cases, int len
   } else {
     Stmt *min = cases[0];
     Stmt *max = cases[len - 1];
-    Fixnum range = max->case_.value->fixnum - min->case_.value->fixnum + 1;
+    // It is not positive if the difference is too large.
+    Fixnum range = (UFixnum)max->case_.value->fixnum - (UFixnum)min->case_.value->fixnum + 1;
     if (range >= 4 && len > (range >> 1)) {
       gen_switch_cond_table_jump(swtch, vreg, cases, len, cond_flag);
       return;
-- 
2.43.0


From fcbb089885a8739d3188ecf1c4cbf808db56b42d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:25:05 +0000
Subject: [PATCH 145/162] fix: a call through an expression with a wrong number
 of arguments is reported

---
 src/cc/frontend/fe_misc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 6291927..970f489 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -1502,8 +1502,12 @@ void check_funcall_args(Expr *func, Vector *args, Scope *scope) {
     int argc = args->len;
     int paramc = types->len;
     if (!(argc == paramc || (vaargs && argc >= paramc))) {
-      parse_error(PE_NOFATAL, func->token, "function `%.*s' expect %d arguments, but %d",
-                  NAMES(func->var.name), paramc, argc);
+      if (func->kind == EX_VAR) {
+        parse_error(PE_NOFATAL, func->token, "function `%.*s' expect %d arguments, but %d",
+                    NAMES(func->var.name), paramc, argc);
+      } else {
+        parse_error(PE_NOFATAL, func->token, "function expect %d arguments, but %d", paramc, argc);
+      }
       return;
     }
   }
-- 
2.43.0


From 6458f35029991bde74c2ff1448d1981d0ac83aee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 146/162] fix: folding integer constants neither overflows nor
 traps in the compiler

---
 src/cc/arch/aarch64/ir_aarch64.c |  4 ++--
 src/cc/backend/ir.c              | 14 +++++++-------
 src/cc/backend/optimize.c        | 15 +++++++++------
 src/cc/frontend/fe_misc.c        |  7 ++++++-
 src/cc/frontend/parser_expr.c    |  2 +-
 5 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/cc/arch/aarch64/ir_aarch64.c b/src/cc/arch/aarch64/ir_aarch64.c
index 23105f6..22f770a 100644
--- a/src/cc/arch/aarch64/ir_aarch64.c
+++ b/src/cc/arch/aarch64/ir_aarch64.c
@@ -1029,7 +1029,7 @@ void tweak_irs(FuncBackend *fnbe) {
           if (ir->opr2->fixnum < 0) {
             ir->kind = IR_SUB;
             VReg *old = ir->opr2;
-            ir->opr2 = reg_alloc_spawn_const(ra, -old->fixnum, old->vsize);
+            ir->opr2 = reg_alloc_spawn_const(ra, -(uint64_t)old->fixnum, old->vsize);
             ir->opr2->flag = old->flag;
           }
           if (!is_im13_addsubimm(ir->opr2->fixnum))
@@ -1051,7 +1051,7 @@ void tweak_irs(FuncBackend *fnbe) {
           if (ir->opr2->fixnum < 0) {
             ir->kind = IR_ADD;
             VReg *old = ir->opr2;
-            ir->opr2 = reg_alloc_spawn_const(ra, -old->fixnum, old->vsize);
+            ir->opr2 = reg_alloc_spawn_const(ra, -(uint64_t)old->fixnum, old->vsize);
             ir->opr2->flag = old->flag;
           }
           if (!is_im13_addsubimm(ir->opr2->fixnum))
diff --git a/src/cc/backend/ir.c b/src/cc/backend/ir.c
index f4a5183..fa86892 100644
--- a/src/cc/backend/ir.c
+++ b/src/cc/backend/ir.c
@@ -91,25 +91,25 @@ VReg *new_ir_bop(enum IrKind kind, VReg *opr1, VReg *opr2, enum VRegSize vsize,
         int64_t rval = opr2->fixnum;
         int64_t value = 0;
         switch (kind) {
-        case IR_ADD:     value = lval + rval; break;
-        case IR_SUB:     value = lval - rval; break;
-        case IR_MUL:     value = lval * rval; break;
+        case IR_ADD:     value = (uint64_t)lval + (uint64_t)rval; break;
+        case IR_SUB:     value = (uint64_t)lval - (uint64_t)rval; break;
+        case IR_MUL:     value = (uint64_t)lval * (uint64_t)rval; break;
         case IR_DIV:
           if (flag & IRF_UNSIGNED)
             value = (uint64_t)lval / (uint64_t)rval;
           else
-            value = lval / rval;
+            value = rval == -1 ? -(uint64_t)lval : (uint64_t)(lval / rval);
           break;
         case IR_MOD:
           if (flag & IRF_UNSIGNED)
             value = (uint64_t)lval % (uint64_t)rval;
           else
-            value = lval % rval;
+            value = rval == -1 ? 0 : lval % rval;
           break;
         case IR_BITAND:  value = lval & rval; break;
         case IR_BITOR:   value = lval | rval; break;
         case IR_BITXOR:  value = lval ^ rval; break;
-        case IR_LSHIFT:  value = lval << rval; break;
+        case IR_LSHIFT:  value = (uint64_t)lval << rval; break;
         case IR_RSHIFT:
           //assert(opr1->type->kind == TY_FIXNUM);
           if (flag & IRF_UNSIGNED)
@@ -220,7 +220,7 @@ VReg *new_ir_unary(enum IrKind kind, VReg *opr, enum VRegSize vsize, int flag) {
   if ((opr->flag & (VRF_FLONUM | VRF_CONST)) == VRF_CONST) {
     int64_t value = 0;
     switch (kind) {
-    case IR_NEG:     value = -opr->fixnum; break;
+    case IR_NEG:     value = -(uint64_t)opr->fixnum; break;
     case IR_BITNOT:  value = ~opr->fixnum; break;
     default: assert(false); break;
     }
diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index a383ee8..4b59288 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -338,17 +338,17 @@ static int64_t calc_const_expr(IR *ir) {
 
 #define CALC_CONST(kind) \
   switch (kind) { \
-  case IR_ADD: value = opr1 + opr2; break; \
-  case IR_SUB: value = opr1 - opr2; break; \
-  case IR_MUL: value = opr1 * opr2; break; \
+  case IR_ADD: value = (uint64_t)opr1 + opr2; break; \
+  case IR_SUB: value = (uint64_t)opr1 - opr2; break; \
+  case IR_MUL: value = (uint64_t)opr1 * opr2; break; \
   case IR_DIV: assert(opr2 != 0); value = opr1 / opr2; break; \
   case IR_MOD: assert(opr2 != 0); value = opr1 % opr2; break; \
   case IR_BITAND: value = opr1 & opr2; break; \
   case IR_BITOR: value = opr1 | opr2; break; \
   case IR_BITXOR: value = opr1 ^ opr2; break; \
-  case IR_LSHIFT: value = opr1 << opr2; break; \
+  case IR_LSHIFT: value = (uint64_t)opr1 << opr2; break; \
   case IR_RSHIFT: value = opr1 >> opr2; break; \
-  case IR_NEG: value = -opr1; break; \
+  case IR_NEG: value = -(uint64_t)opr1; break; \
   case IR_BITNOT: value = ~opr1; break; \
   default: assert(false); break; \
   }
@@ -361,7 +361,10 @@ static int64_t calc_const_expr(IR *ir) {
   } else {
     int64_t opr1 = wrap_value(ir->opr1->fixnum, 1 << ir->opr1->vsize, false);
     int64_t opr2 = ir->opr2 != NULL ? wrap_value(ir->opr2->fixnum, 1 << ir->opr2->vsize, false) : 0;
-    CALC_CONST(ir->kind);
+    if (opr2 == -1 && (ir->kind == IR_DIV || ir->kind == IR_MOD))
+      value = ir->kind == IR_DIV ? -(uint64_t)opr1 : 0;  // The quotient might overflow.
+    else
+      CALC_CONST(ir->kind);
   }
 #undef CALC
 
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 970f489..d10f662 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -870,7 +870,12 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
         } else {
           Fixnum lval = lhs->fixnum;
           Fixnum rval = rhs->fixnum;
-          CALC(kind, lval, rval, value)
+          if (kind == EX_MUL || (rval == -1 && kind == EX_DIV))
+            value = (UFixnum)lval * (UFixnum)rval;  // Might overflow.
+          else if (rval == -1 && kind == EX_MOD)
+            value = 0;
+          else
+            CALC(kind, lval, rval, value)
         }
 #undef CALC
         Type *type = lhs->type->fixnum.kind >= rhs->type->fixnum.kind ? lhs->type : rhs->type;
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 3ab04f3..f4a7be9 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -385,7 +385,7 @@ static Expr *unary(Token *tok) {
           }
 #endif
           assert(is_fixnum(type->kind));
-          expr->fixnum = wrap_value(-expr->fixnum, type_size(type), type->fixnum.is_unsigned);
+          expr->fixnum = wrap_value(-(UFixnum)expr->fixnum, type_size(type), type->fixnum.is_unsigned);
           expr->type = type;
         }
         return expr;
-- 
2.43.0


From 77ae36da35ca6c29d76bea5a551d44ea04d50cde Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:33:45 +0000
Subject: [PATCH 147/162] fix: an array parameter may have constant lengths
 around variable ones

---
 src/cc/frontend/parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cc/frontend/parser.c b/src/cc/frontend/parser.c
index 9fd029e..749f711 100644
--- a/src/cc/frontend/parser.c
+++ b/src/cc/frontend/parser.c
@@ -811,8 +811,7 @@ static void modify_funparam_vla_type(Type *type, Scope *scope) {
   for (;;) {
     if (!ptr_or_array(type))
       break;
-    if (type->pa.vla != NULL) {
-      assert(type->pa.vla->kind == EX_VAR);
+    if (type->pa.vla != NULL && type->pa.vla->kind == EX_VAR) {
       type->pa.vla->var.scope = scope;  // Fix scope, which set in `parse_direct_declarator_suffix()`
     }
     type = type->pa.ptrof;
-- 
2.43.0


From 35adeea7968b9f13cde433d2037294f42131d738 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 148/162] fix: compound literals of scalars, of strings in
 braces and of nested records at file scope

---
 src/cc/frontend/initializer.c | 31 -------------------------------
 src/cc/frontend/parser_expr.c |  3 +--
 2 files changed, 1 insertion(+), 33 deletions(-)

diff --git a/src/cc/frontend/initializer.c b/src/cc/frontend/initializer.c
index b919cd2..20c2dac 100644
--- a/src/cc/frontend/initializer.c
+++ b/src/cc/frontend/initializer.c
@@ -505,34 +505,6 @@ static Initializer *flatten_initializer_multi(Type *type, Initializer *init) {
   return flattener.flattened;
 }
 
-static void flatten_initializer_single(Expr *value) {
-  switch (value->kind) {
-  case EX_REF:
-  case EX_DEREF:
-  case EX_CAST:
-    flatten_initializer_single(value->unary.sub);
-    break;
-
-  case EX_COMPLIT:
-    {
-      Initializer *init = flatten_initializer(value->type, value->complit.original_init);
-      value->complit.original_init = init;
-
-      Expr *var = value->complit.var;
-      if (is_global_scope(var->var.scope)) {
-        assert(init->kind == IK_MULTI);
-        VarInfo *varinfo = scope_find(var->var.scope, var->var.name, NULL);
-        assert(varinfo != NULL);
-        varinfo->global.init = init;
-      }
-    }
-    break;
-  default:
-    // TODO: Confirm.
-    break;
-  }
-}
-
 Initializer *flatten_initializer(Type *type, Initializer *init) {
   if (init == NULL)
     return NULL;
@@ -547,8 +519,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
         Expr *e = init->single;
         if (!same_type_without_qualifier(type, e->type, true))
           parse_error(PE_NOFATAL, init->token, "Incompatible type");
-        if (e->kind == EX_COMPLIT)
-          flatten_initializer_single(e);
       }
       break;
     case TY_ARRAY:
@@ -588,7 +558,6 @@ Initializer *flatten_initializer(Type *type, Initializer *init) {
       assert(init->kind == IK_SINGLE);
       // Fallthrough
     case IK_SINGLE:
-      flatten_initializer_single(init->single);
       break;
     default:
       parse_error(PE_NOFATAL, init->token, "Error initializer");
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index f4a7be9..e0cd4d2 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -133,20 +133,19 @@ static Expr *parse_compound_literal(Type *type) {
     parse_error(PE_NOFATAL, token, "Illegal type for compound literal");
     return new_expr_fixlit(&tyInt, token, 0);  // Dummy
   }
+  init = flatten_initializer(type, init);
   if (type->kind == TY_ARRAY)
     type = fix_array_size(type, init, token);
 
   Expr *var = alloc_tmp_var(curscope, type);
   Vector *inits = NULL;
   if (is_global_scope(curscope)) {
-    // Global variable initializer is flattened in `check_vardecl()`
     const Name *name = var->var.name;
     VarInfo *varinfo = scope_find(curscope, name, NULL);
     assert(varinfo != NULL);
     varinfo->storage |= VS_STATIC;
     varinfo->global.init = init;
   } else {
-    init = flatten_initializer(type, init);
     inits = assign_initial_value(var, init, NULL);
   }
 
-- 
2.43.0


From 70de58bb58cc4a3c51768e91aec2ec0fa1e41424 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 149/162] fix: negated comparisons are true for NaN on wasm

---
 src/wcc/gen_wasm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index 38917cc..eb826ae 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -1092,6 +1092,15 @@ static void gen_cond(Expr *cond, bool tf, bool needval) {
   case EX_GT:
   case EX_LE:
   case EX_GE:
+#ifndef __NO_FLONUM
+    if (!tf && ck > EX_NE && is_flonum(cond->bop.lhs->type)) {
+      // Not the same as the opposite comparison if an operand is NaN.
+      gen_compare_expr(ck, cond->bop.lhs, cond->bop.rhs, needval);
+      if (needval)
+        ADD_CODE(OP_I32_EQZ);
+      break;
+    }
+#endif
     if (!tf) {
       if (ck <= EX_NE)
         ck = (EX_EQ + EX_NE) - ck;
-- 
2.43.0


From d20a005522949896278f94aeed5d74a48a493d2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:11:09 +0000
Subject: [PATCH 150/162] fix: unused static inline functions are not emitted
 when they were called from others

---
 src/cc/frontend/cc_misc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/cc_misc.c b/src/cc/frontend/cc_misc.c
index 9effc84..e016834 100644
--- a/src/cc/frontend/cc_misc.c
+++ b/src/cc/frontend/cc_misc.c
@@ -13,10 +13,11 @@
 bool is_function_omitted(const VarInfo *funcvi) {
   assert(funcvi != NULL);
   int storage = funcvi->storage;
-  if ((storage & VS_REF_TAKEN) || ((storage & (VS_INLINE | VS_EXTERN)) == (VS_INLINE | VS_EXTERN)))
+  if (storage & VS_REF_TAKEN)
     return false;
-  return (satisfy_inline_criteria(funcvi) ||
-      (storage & (VS_STATIC | VS_USED)) == VS_STATIC);  // Static function but not used.
+  if ((storage & (VS_STATIC | VS_USED)) == VS_STATIC)  // Static function but not used.
+    return true;
+  return (storage & (VS_INLINE | VS_EXTERN)) != (VS_INLINE | VS_EXTERN) && satisfy_inline_criteria(funcvi);
 }
 
 static void eval_initial_value(Expr *expr, Expr **pvar, int64_t *poffset) {
-- 
2.43.0


From 767bf8d944fe1177ee6bd4f24b8f22282836bfeb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 151/162] fix: parameters, nested parentheses and ## work with
 __VA_OPT__

---
 src/cpp/macro.c | 85 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 14 deletions(-)

diff --git a/src/cpp/macro.c b/src/cpp/macro.c
index 3931049..c063cba 100644
--- a/src/cpp/macro.c
+++ b/src/cpp/macro.c
@@ -220,6 +220,59 @@ static void hsadd(HideSet *hs, Vector *ts) {
   }
 }
 
+static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs);
+
+// Replacement of `__VA_OPT__(...)` at `*pindex` in the body: null if it is not closed.
+static Vector *subst_va_opt(Macro *macro, Table *param_table, Vector *args, HideSet *hs,
+                            int *pindex) {
+  Vector *body = macro->body;
+  int start = *pindex + 2;
+  int end;
+  for (int depth = 0, i = start; ; ++i) {
+    if (i >= body->len)
+      return NULL;
+    const Token *tok = body->data[i];
+    if (tok->kind == TK_LPAR) {
+      ++depth;
+    } else if (tok->kind == TK_RPAR) {
+      if (--depth < 0) {
+        end = i;
+        break;
+      }
+    }
+  }
+  *pindex = end;
+
+  // Nothing if the variable arguments are expanded to no tokens.
+  Vector *vaargs = new_vector();
+  vec_concat(vaargs, args->data[args->len - 1]);
+  bool bak = pp_set_fetch(false);
+  macro_expand(vaargs);
+  pp_set_fetch(bak);
+  bool empty = true;
+  for (int i = 0; i < vaargs->len && empty; ++i)
+    empty = ((Token*)vaargs->data[i])->kind == PPTK_SPACE;
+
+  Vector *opt_body = new_vector();
+  if (!empty) {
+    while (start < end && ((Token*)body->data[start])->kind == PPTK_SPACE)
+      ++start;
+    while (start < end && ((Token*)body->data[end - 1])->kind == PPTK_SPACE)
+      --end;
+    for (int i = start; i < end; ++i)
+      vec_push(opt_body, body->data[i]);
+  }
+  Macro opt = *macro;
+  opt.body = opt_body;
+  Vector *result = subst(&opt, param_table, args, hs);
+  // Both ends might be concatenated.
+  while (result->len > 0 && ((Token*)result->data[0])->kind == PPTK_SPACE)
+    vec_remove_at(result, 0);
+  while (result->len > 0 && ((Token*)result->data[result->len - 1])->kind == PPTK_SPACE)
+    vec_pop(result);
+  return result;
+}
+
 static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs) {
   Vector *os = new_vector();
   Vector *body = macro->body;
@@ -283,6 +336,17 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
             ++i;
             continue;
           }
+          if (macro->vaargs_ident != NULL && equal_name(next->ident, va_opt) &&
+              i + 3 < body->len && ((Token*)body->data[i + 2])->kind == TK_LPAR) {
+            int k = i + 1;
+            Vector *sub = subst_va_opt(macro, param_table, args, hs, &k);
+            if (sub != NULL) {
+              if (sub->len > 0)
+                glue(os, sub);
+              i = k;
+              continue;
+            }
+          }
         }
         glue1(os, next);
         ++i;
@@ -333,20 +397,13 @@ static Vector *subst(Macro *macro, Table *param_table, Vector *args, HideSet *hs
       // Handle GNU extension: __VA_OPT__
       if (macro->vaargs_ident != NULL && equal_name(tok->ident, va_opt) &&
           i + 2 < body->len && ((Token*)body->data[i + 1])->kind == TK_LPAR) {
-        int j;
-        for (j = i + 2; j < body->len; ++j) {
-          if (((Token*)body->data[j])->kind == TK_RPAR)
-            break;
-        }
-        if (j < body->len) {
-          Vector *arg = args->data[args->len - 1];
-          if (arg->len > 0) {  // vaargs is not empty
-            // TODO: expand?
-            for (int k = i + 2; k < j; ++k) {
-              vec_push(os, body->data[k]);
-            }
-          }
-          i = j;
+        Vector *sub = subst_va_opt(macro, param_table, args, hs, &i);
+        if (sub != NULL) {
+          vec_push(os, boundary_token());
+          vec_concat(os, sub);
+          if (sub->len > 0 && !(i + 1 < body->len &&
+                                ((Token*)body->data[i + 1])->kind == PPTK_CONCAT))
+            vec_push(os, boundary_token());
           continue;
         }
       }
-- 
2.43.0


From 5f7eb6a1d33641e96b008768826120a102284c89 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 152/162] fix: members accessed through a pointer inherit its
 qualifiers

---
 src/cc/frontend/parser_expr.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index e0cd4d2..7813ee4 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -80,9 +80,8 @@ static Expr *parse_member_access(Expr *target, Token *acctok) {
   int index = find_struct_member(type->struct_.info, ident->ident);
   if (index >= 0) {
     const MemberInfo *minfo = &type->struct_.info->members[index];
-    Type *type = acctok->kind == TK_DOT ? qualified_type(minfo->type, target->type->qualifier)
-                                        : minfo->type;
-    return new_expr_member(acctok, type, target, ident->ident, minfo);
+    Type *member_type = qualified_type(minfo->type, type->qualifier);
+    return new_expr_member(acctok, member_type, target, ident->ident, minfo);
   } else {
     Vector *stack = new_vector();
     const MemberInfo *member = search_from_anonymous(type, ident->ident, ident, stack);
-- 
2.43.0


From 171e467580d692302c7f9bd2de8fe43c76805866 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 153/162] fix: volatile objects are read even if the value is
 not used

---
 src/cc/backend/optimize.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/backend/optimize.c b/src/cc/backend/optimize.c
index 4b59288..6580a38 100644
--- a/src/cc/backend/optimize.c
+++ b/src/cc/backend/optimize.c
@@ -156,6 +156,9 @@ static void remove_unused_vregs(RegAlloc *ra, BBContainer *bbcon) {
           if (vreg != NULL && !(vreg->flag & VRF_CONST))
             vreg_read[vreg->virt] = true;
         }
+        // Volatile object must be read even if the value is unused.
+        if (ir->kind == IR_LOAD && ir->dst->flag & VRF_VOLATILE)
+          vreg_read[ir->dst->virt] = true;
       }
     }
 
-- 
2.43.0


From 882d68ec2a5ba0b06c92c5ea04cf42bf5b2ca049 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:39:24 +0000
Subject: [PATCH 154/162] fix: conversions read volatile operands, once, as
 volatile

---
 src/cc/frontend/fe_misc.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index d10f662..4ba4c16 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -371,6 +371,8 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
   if (same_type(type, sub->type)) {
     if (is_promoted_bitfield(sub))  // Converted value is no longer a subject of the promotion.
       return new_expr_cast(type, token, sub);
+    if (sub->type->qualifier & TQ_VOLATILE && is_prim_type(sub->type))  // Must be read as volatile.
+      return new_expr_cast(type, token, sub);
     sub->type = type;
     return sub;
   }
@@ -437,10 +439,13 @@ Expr *make_cast(Type *type, const Token *token, Expr *sub, bool is_explicit) {
     //                             : ((int64_t)(flonum - (INT64_MAX + 1UL)) ^ (1L << 63))
     Type *i64t = get_fixnum_type_from_size(type_size(type));
     Expr *assign = NULL;
-    if (sub->kind != EX_VAR && !is_global_scope(curscope)) {
+    if ((sub->kind != EX_VAR || sub->type->qualifier & TQ_VOLATILE) && !is_global_scope(curscope)) {
       // Evaluate the operand only once.
-      Expr *tmp = alloc_tmp_var(curscope, sub->type);
-      assign = new_expr_bop(EX_ASSIGN, sub->type, token, tmp, sub);
+      Type *tmp_type = sub->type->flonum.kind == FL_FLOAT    ? &tyFloat
+                       : sub->type->flonum.kind == FL_DOUBLE ? &tyDouble
+                                                             : &tyLDouble;
+      Expr *tmp = alloc_tmp_var(curscope, tmp_type);
+      assign = new_expr_bop(EX_ASSIGN, tmp_type, token, tmp, make_cast(tmp_type, token, sub, false));
       sub = tmp;
     }
     Expr *cond = new_expr_bop(EX_LT, &tyInt, token, sub,
-- 
2.43.0


From 8e5b132df8d9f8325266efbb5fe40ff0d880dae9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:39:24 +0000
Subject: [PATCH 155/162] fix: the address of a member keeps the qualifiers

---
 src/cc/backend/codegen_expr.c | 3 ++-
 src/cc/frontend/fe_misc.c     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cc/backend/codegen_expr.c b/src/cc/backend/codegen_expr.c
index e9bc977..1118ab8 100644
--- a/src/cc/backend/codegen_expr.c
+++ b/src/cc/backend/codegen_expr.c
@@ -617,7 +617,8 @@ static VReg *gen_member(Expr *expr) {
 #ifndef __NO_BITFIELD
   const MemberInfo *minfo = expr->member.info;
   if (minfo->bitfield.width > 0) {
-    Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned, 0);
+    Type *type = get_fixnum_type(minfo->bitfield.base_kind, minfo->type->fixnum.is_unsigned,
+                                 expr->type->qualifier);
     Expr *ptr = make_cast(ptrof(type), expr->token, make_refer(expr->token, expr), true);
     Expr *load = new_expr_deref(NULL, ptr);
     Expr *e = extract_bitfield_value(load, minfo);
diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 4ba4c16..f63e10f 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -719,7 +719,7 @@ Expr *reduce_refer(Expr *expr) {
       }
 
       const MemberInfo *minfo = expr->member.info;
-      Type *ptype = minfo->type;
+      Type *ptype = expr->type;  // Might be qualified.
       ptype = ptrof(ptype->kind == TY_ARRAY ? array_to_ptr(ptype) : ptype);
       // target->field => *(target + offset(field))
       Expr *result = reduce_refer_deref_add(expr, ptype, target, minfo->offset);
@@ -735,8 +735,8 @@ Expr *reduce_refer(Expr *expr) {
           // target.field => (&target)->field
           target = new_expr_unary(EX_REF, ptrof(target->type), target->token, target);
         }
-        return new_expr_unary(EX_DEREF, minfo->type, expr->token,
-                              new_expr_bop(EX_ADD, ptrof(minfo->type), expr->token, target,
+        return new_expr_unary(EX_DEREF, expr->type, expr->token,
+                              new_expr_bop(EX_ADD, ptrof(expr->type), expr->token, target,
                                            new_expr_fixlit(&tySize, expr->token, minfo->offset)));
       default:
         // ex. funcall().x cannot be taken its reference, so keep the expression.
-- 
2.43.0


From 75271be1ffdf49c0a9eaca4f5bf2bea9ebcf66dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:54:46 +0000
Subject: [PATCH 156/162] fix: anonymous structure with a flexible array member

---
 src/cc/frontend/parser_type.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index 50b85ea..a113a9c 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -130,10 +130,8 @@ static StructInfo *parse_struct(bool is_union) {
         break;
       case TY_STRUCT:
         assert(type->struct_.info != NULL);
-        if (type->struct_.info->is_flexible) {
-          assert(ident != NULL);
-          flex_arr_mem = ident;
-        }
+        if (type->struct_.info->is_flexible)
+          flex_arr_mem = ident != NULL ? ident : fetch_token();  // Might be anonymous.
         break;
       case TY_AUTO:
         parse_error(PE_NOFATAL, ident, "auto type not allowed in struct/union");
-- 
2.43.0


From 0c6d60b254505fe102554b85bd47c35834d9a4d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 157/162] fix: members of function type are rejected

---
 src/cc/frontend/parser_type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc/frontend/parser_type.c b/src/cc/frontend/parser_type.c
index a113a9c..01f6eb9 100644
--- a/src/cc/frontend/parser_type.c
+++ b/src/cc/frontend/parser_type.c
@@ -133,6 +133,10 @@ static StructInfo *parse_struct(bool is_union) {
         if (type->struct_.info->is_flexible)
           flex_arr_mem = ident != NULL ? ident : fetch_token();  // Might be anonymous.
         break;
+      case TY_FUNC:
+        parse_error(PE_NOFATAL, ident, "function not allowed in struct/union");
+        type = &tyInt;
+        break;
       case TY_AUTO:
         parse_error(PE_NOFATAL, ident, "auto type not allowed in struct/union");
         type = &tyInt;
-- 
2.43.0


From 693bf4db60bc8419cbd0bd18d08ccbbd4f4baaa4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 158/162] fix: alignment of data in wasm objects which refer to
 data of others

---
 src/wcc/wasm_linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wcc/wasm_linker.c b/src/wcc/wasm_linker.c
index bae6a8b..a679d00 100644
--- a/src/wcc/wasm_linker.c
+++ b/src/wcc/wasm_linker.c
@@ -415,7 +415,7 @@ static void read_linking(WasmObj *wasmobj, unsigned char *p, unsigned char *end)
           // Search correspoinding symbol.
           for (; index < (uint32_t)symtab->len; ++index) {
             SymbolInfo *sym = symtab->data[index];
-            if (sym->kind == SIK_SYMTAB_DATA)
+            if (sym->kind == SIK_SYMTAB_DATA && !(sym->flags & WASM_SYM_UNDEFINED))
               break;
           }
           if (index >= (uint32_t)symtab->len) {
-- 
2.43.0


From bdda48b01fc771b453609b162c4bf696f32f4821 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:06:07 +0000
Subject: [PATCH 159/162] fix: volatile objects are read on wasm even if the
 value is not used

---
 src/wcc/gen_wasm.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/wcc/gen_wasm.c b/src/wcc/gen_wasm.c
index eb826ae..6ec7984 100644
--- a/src/wcc/gen_wasm.c
+++ b/src/wcc/gen_wasm.c
@@ -901,10 +901,16 @@ static void gen_cast(Expr *expr, bool needval) {
 
 static void gen_ref(Expr *expr, bool needval) {
   Expr *sub = expr->unary.sub;
-  if (needval)
+  if (needval) {
     gen_ref_sub(sub);
-  else
-    gen_expr(sub, false);
+    return;
+  }
+  switch (sub->kind) {
+  case EX_VAR: break;
+  case EX_DEREF: gen_expr(sub->unary.sub, false); break;  // The object itself is not read.
+  case EX_MEMBER: gen_expr(sub->member.target, false); break;
+  default: gen_expr(sub, false); break;
+  }
 }
 
 static void gen_deref(Expr *expr, bool needval) {
@@ -1041,7 +1047,12 @@ void gen_expr(Expr *expr, bool needval) {
 
   assert(expr->kind < (int)ARRAY_SIZE(table));
   assert(table[expr->kind] != NULL);
-  (*table[expr->kind])(expr, needval);
+  bool volatile_read = !needval && (expr->type->qualifier & TQ_VOLATILE) &&
+                       is_prim_type(expr->type) &&
+                       (expr->kind == EX_VAR || expr->kind == EX_DEREF || expr->kind == EX_MEMBER);
+  (*table[expr->kind])(expr, needval || volatile_read);
+  if (volatile_read)
+    ADD_CODE(OP_DROP);
 }
 
 static void gen_compare_expr(enum ExprKind kind, Expr *lhs, Expr *rhs, bool needval) {
-- 
2.43.0


From c963fdb5fd4be73fa40e0fc4b64786b73797a6bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 160/162] fix: elements and members through a pointer at a
 constant address

---
 src/cc/frontend/fe_misc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index f63e10f..6197783 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -692,11 +692,12 @@ static Expr *reduce_refer_deref_add(Expr *expr, Type *subtype, Expr *lhs, Fixnum
   if (lhs->kind == EX_FIXNUM) {
     return new_expr_unary(EX_DEREF, expr->type, expr->token,
                           new_expr_fixlit(subtype, lhs->token, lhs->fixnum + rhs));
-  } else if (lhs->kind == EX_DEREF && lhs->unary.sub->kind == EX_FIXNUM) {
-    // Concat 2 deref.
+  } else if (lhs->kind == EX_DEREF && lhs->type->kind == TY_ARRAY &&
+             lhs->unary.sub->kind == EX_FIXNUM) {
+    // Array at a constant address: Concat 2 deref.
     Expr *sub = lhs->unary.sub;
     return new_expr_unary(EX_DEREF, expr->type, expr->token,
-                          new_expr_fixlit(sub->type, sub->token, sub->fixnum + rhs));
+                          new_expr_fixlit(subtype, sub->token, sub->fixnum + rhs));
   } else if (lhs->kind == EX_ADD && lhs->bop.rhs->kind == EX_FIXNUM) {
     // *(((lhs->lhs) + (lhs->rhs)) + rhs) => *(lhs->lhs + (lhs->rhs + rhs))
     return new_expr_unary(EX_DEREF, expr->type, expr->token,
-- 
2.43.0


From dbb844707e67a623a3023989bde041a6c049d866 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:19:55 +0000
Subject: [PATCH 161/162] fix: type of the address of an array member of a
 member or an element

---
 src/cc/frontend/fe_misc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index 6197783..cff0d72 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -720,8 +720,7 @@ Expr *reduce_refer(Expr *expr) {
       }
 
       const MemberInfo *minfo = expr->member.info;
-      Type *ptype = expr->type;  // Might be qualified.
-      ptype = ptrof(ptype->kind == TY_ARRAY ? array_to_ptr(ptype) : ptype);
+      Type *ptype = ptrof(expr->type);  // Might be qualified.
       // target->field => *(target + offset(field))
       Expr *result = reduce_refer_deref_add(expr, ptype, target, minfo->offset);
       if (result != NULL)
-- 
2.43.0


From df7d48ff9524047c87b15e82bd849e955a05a080 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:26:15 +0000
Subject: [PATCH 162/162] fix: an operand an expression is reduced to is not an
 lvalue

---
 src/cc/frontend/fe_misc.c     | 26 ++++++++++++++++++++------
 src/cc/frontend/fe_misc.h     |  1 +
 src/cc/frontend/parser_expr.c |  4 ++--
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/cc/frontend/fe_misc.c b/src/cc/frontend/fe_misc.c
index cff0d72..13ae2b6 100644
--- a/src/cc/frontend/fe_misc.c
+++ b/src/cc/frontend/fe_misc.c
@@ -682,6 +682,20 @@ void check_lval(const Token *tok, Expr *expr, const char *error) {
   }
 }
 
+// The value of an expression which is not an lvalue, even if it is optimized to its operand.
+Expr *to_rvalue(Expr *expr) {
+  switch (expr->kind) {
+  case EX_VAR:
+  case EX_DEREF:
+  case EX_MEMBER:
+    if (is_prim_type(expr->type))
+      return new_expr_unary(EX_POS, expr->type, expr->token, expr);
+    break;
+  default: break;
+  }
+  return expr;
+}
+
 static void check_referable(const Token *tok, Expr *expr, const char *error) {
   if (expr->kind == EX_COMPLIT)
     return;
@@ -900,7 +914,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
             // Fallthrough.
           case EX_DIV:
             if (rval == 1.0)
-              return lhs;  // no effect.
+              return to_rvalue(lhs);  // no effect.
             break;
           default: break;
           }
@@ -917,7 +931,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           // Fallthrough.
         case EX_DIV:
           if (rval == 1)
-            return lhs;  // no effect.
+            return to_rvalue(lhs);  // no effect.
           break;
         case EX_BITAND:
           if (rval == 0)
@@ -926,7 +940,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
         case EX_BITOR:
         case EX_BITXOR:
           if (rval == 0)
-            return lhs;  // no effect.
+            return to_rvalue(lhs);  // no effect.
           break;
         default: break;
         }
@@ -940,7 +954,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           switch (kind) {
           case EX_MUL:
             if (lval == 1.0)
-              return rhs;  // no effect.
+              return to_rvalue(rhs);  // no effect.
             if (lval == -1.0)
               return new_expr_unary(EX_NEG, rhs->type, rhs->token, rhs);  // -rhs
             break;
@@ -957,7 +971,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
           if (lval == -1)
             return new_expr_unary(EX_NEG, rhs->type, rhs->token, rhs);  // -rhs
           if (lval == 1)
-            return rhs;  // no effect.
+            return to_rvalue(rhs);  // no effect.
           break;
         case EX_BITAND:
           if (lval == 0)
@@ -966,7 +980,7 @@ Expr *new_expr_num_bop(enum ExprKind kind, const Token *tok, Expr *lhs, Expr *rh
         case EX_BITOR:
         case EX_BITXOR:
           if (lval == 0)
-            return rhs;  // no effect.
+            return to_rvalue(rhs);  // no effect.
           break;
         default: break;
         }
diff --git a/src/cc/frontend/fe_misc.h b/src/cc/frontend/fe_misc.h
index 312dd8f..ae8897d 100644
--- a/src/cc/frontend/fe_misc.h
+++ b/src/cc/frontend/fe_misc.h
@@ -97,6 +97,7 @@ void mark_var_used(Expr *expr);
 void mark_var_used_for_func(Expr *expr);
 void propagate_var_used(void);
 void check_lval(const Token *tok, Expr *expr, const char *error);
+Expr *to_rvalue(Expr *expr);
 Expr *reduce_refer(Expr *expr);
 Expr *make_refer(const Token *tok, Expr *expr);
 Expr *promote_to_int(Expr *expr);
diff --git a/src/cc/frontend/parser_expr.c b/src/cc/frontend/parser_expr.c
index 7813ee4..7d0c81d 100644
--- a/src/cc/frontend/parser_expr.c
+++ b/src/cc/frontend/parser_expr.c
@@ -495,7 +495,7 @@ static Expr *binary(Expr *lhs, Token *tok) {
       return new_expr_bop(kind + (EX_LOGAND - TK_LOGAND), &tyInt, tok, lhs, rhs);
   case TK_COMMA:
     if (is_const(lhs))
-      return rhs;
+      return to_rvalue(rhs);
     return new_expr_bop(EX_COMMA, rhs->type, tok, lhs, rhs);
 
   default: assert(false); return NULL;  // Unreachable.
@@ -533,7 +533,7 @@ static Expr *ternary(Expr *expr, Token *tok) {
 
   expr = make_cond(expr);
   if (expr->kind == EX_FIXNUM)
-    return expr->fixnum != 0 ? tval : fval;
+    return to_rvalue(expr->fixnum != 0 ? tval : fval);
   else
     return new_expr_ternary(tok, expr, tval, fval, type);
 }
-- 
2.43.0

