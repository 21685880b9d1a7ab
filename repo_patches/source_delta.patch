From 32d691d883332f409171e0ff79b6b22f6ccc5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 01/98] fix: IF/ELSEIF/.ERRE/.ERRNZ/WHILE test all 64 bits of
 the condition

---
 condasm.c | 12 ++++++------
 loop.c    |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/condasm.c b/condasm.c
index 63e9ce4..8382504 100644
--- a/condasm.c
+++ b/condasm.c
@@ -255,7 +255,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             /* v2.11: don't exit, assume 0 */
             //return( ERROR );
             opndx.kind = EXPR_CONST;
-            opndx.value = 0;
+            opndx.value64 = 0;
             i = Token_Count;
         }
 #if 0 /* v2.05: obsolete */
@@ -266,7 +266,7 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST )
             ;
         else if ( opndx.kind == EXPR_ADDR && opndx.indirect == FALSE ) {
-            opndx.value += opndx.sym->offset;
+            opndx.value64 += opndx.sym->offset;
             /* v2.07: Masm doesn't accept a relocatable item,
              * so emit at least a warning!
              */
@@ -275,9 +275,9 @@ ret_code CondAsmDirective( int i, struct asm_tok tokenarray[] )
             return( EmitError( CONSTANT_EXPECTED ) );
         }
         if ( directive == T_IF || directive == T_ELSEIF )
-            NextIfState = ( opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         else
-            NextIfState = ( !opndx.value ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
+            NextIfState = ( !opndx.value64 ) ? BLOCK_ACTIVE : BLOCK_INACTIVE;
         break;
     case CC_LITARG: /*  [ELSE]IFDIF[I], [ELSE]IFIDN[I] */
         string1 = tokenarray[i].string_ptr;
@@ -487,9 +487,9 @@ ret_code ErrorDirective( int i, struct asm_tok tokenarray[] )
         }
         if ( Parse_Pass == PASS_1 )
             break;
-        if ( direct == T_DOT_ERRNZ && opndx.value ) {
+        if ( direct == T_DOT_ERRNZ && opndx.value64 ) {
             errmsg = FORCED_NOT_ZERO;
-        } else if ( direct == T_DOT_ERRE && !opndx.value ) {
+        } else if ( direct == T_DOT_ERRE && !opndx.value64 ) {
             errmsg = FORCED_EQUAL;
         }
 
diff --git a/loop.c b/loop.c
index 3c7e5da..50013a8 100644
--- a/loop.c
+++ b/loop.c
@@ -213,7 +213,7 @@ ret_code LoopDirective( int i, struct asm_tok tokenarray[] )
         }
         break;
     case T_WHILE:
-        while ( opnd.kind == EXPR_CONST && opnd.value != 0 ) {
+        while ( opnd.kind == EXPR_CONST && opnd.value64 != 0 ) {
             DebugMsg1(("LoopDirective WHILE: cnt=%u\n", count++ ));
             RunMacro( macro, Token_Count, tokenarray, NULL, 0, &is_exitm );
             if ( is_exitm )
-- 
2.43.0


From c863dd250eddeb1108f1296d38e0a80610ee11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 02/98] fix: SHR of -1 in 32-bit code does not depend on the
 host's size of long

---
 expreval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreval.c b/expreval.c
index 6f4e2d7..c743ed0 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3762,8 +3762,8 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-		            if ( opnd1->value == -1 && ModuleInfo.Ofssize == USE32 )
-		              opnd1->llvalue = (unsigned long)opnd1->llvalue >> opnd2->value;
+		            if ( opnd1->value64 == -1 && ModuleInfo.Ofssize == USE32 )
+		              opnd1->llvalue = (uint_64)(uint_32)opnd1->llvalue >> opnd2->value;
 		           else
 		             opnd1->llvalue = opnd1->llvalue >> opnd2->value;
 	            }
-- 
2.43.0


From 2c9526c8d23553a743d94ee7684d6cc4b5fdf403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 03/98] fix: constant division overflow trap, shift counts
 beyond 32 bits

---
 expreval.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/expreval.c b/expreval.c
index c743ed0..7c54009 100644
--- a/expreval.c
+++ b/expreval.c
@@ -3574,7 +3574,11 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
             return( fnEmitErr( DIVIDE_BY_ZERO_IN_EXPR ) );
         }
 
-        opnd1->value64 /= opnd2->value64;
+        /* the quotient of the smallest value and -1 isn't representable (and traps) */
+        if ( opnd2->value64 == -1 )
+            opnd1->llvalue = 0 - opnd1->llvalue;
+        else
+            opnd1->value64 /= opnd2->value64;
         break;
     case T_BINARY_OPERATOR:
         DebugMsg1(("calculate(%s [T_BINARY_OPERATOR] ): t1-t2 kind %d/%d memtype %X-%X sym %s-%s type %s-%s\n",
@@ -3731,9 +3735,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
         case T_SHL:
             /* v2.04: check for shift count < 0 */
             DebugMsg1(("calculate(SHL): value=%" I64_SPEC "X << %" I32_SPEC "u (max=%u)\n", opnd1->llvalue, opnd2->value, 8 * sizeof( opnd1->llvalue ) ));
-            if ( opnd2->value < 0 )
+            if ( opnd2->value64 < 0 )
                 fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
                 opnd1->llvalue = 0;
             else
                 opnd1->llvalue = opnd1->llvalue << opnd2->value;
@@ -3756,9 +3760,9 @@ static ret_code calculate( struct expr *opnd1, struct expr *opnd2, const struct
              * there is a problem with some compilers if shift
              * count is >= 64. So in this case the result is zeroed manually
              */
-	            if ( opnd2->value < 0 )
+	            if ( opnd2->value64 < 0 )
 		             fnEmitErr( COUNT_MUST_BE_POSITIVE_OR_ZERO );
-	            else if ( opnd2->value >= ( 8 * sizeof( opnd1->llvalue ) ) )
+	            else if ( opnd2->value64 >= ( 8 * sizeof( opnd1->llvalue ) ) )
 		             opnd1->llvalue = 0;
 	            else {
                 /* Nidud fix v2.28*/
-- 
2.43.0


From a5974f3090658d022978604353c4e68df873a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 04/98] fix: % operator converts all 64 bits of a number to
 text

---
 expans.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/expans.c b/expans.c
index 24ef7a8..73f5e3c 100644
--- a/expans.c
+++ b/expans.c
@@ -84,7 +84,7 @@ char *myqtoa(uint_64 value, char *buffer, unsigned radix, bool sign, bool addzer
 {
   char   *p;
   char   *dst = buffer;
-  char   tmpbuf[34];
+  char   tmpbuf[66]; /* 64 digits if radix is 2 */
 #ifdef DEBUG_OUT
   uint_64 saved_value = value;
 #endif
@@ -97,11 +97,11 @@ char *myqtoa(uint_64 value, char *buffer, unsigned radix, bool sign, bool addzer
     *dst = NULLC;
     return(buffer);
     }
-  for (p = &tmpbuf[33], *p = NULLC; value; value = value / radix)
+  for (p = &tmpbuf[65], *p = NULLC; value; value = value / radix)
     *(--p) = __digits[value % radix];
   if (addzero && (*p > '9')) /* v2: add a leading '0' if first digit is alpha */
     *dst++ = '0';
-  memcpy(dst, p, &tmpbuf[33] + 1 - p);
+  memcpy(dst, p, &tmpbuf[65] + 1 - p);
   DebugMsg1(("myltoa( value=%" I32_SPEC "Xh, out=%s, radix=%u, sign=%u, %u)\n", saved_value, buffer, radix, sign, addzero));
   return(buffer);
 }
@@ -403,7 +403,7 @@ int RunMacro( struct dsym *macro, int idx, struct asm_tok tokenarray[], char *ou
                         }
                         DebugMsg1(( "RunMacro(%s.%u): num expansion, opndx.type=%d, value=%d\n", macro->sym.name, parmidx, opndx.type, opndx.value ));
                         /* v2.08: accept constant and copy any stuff that's following */
-                        myltoa( opndx.uvalue, StringBufferEnd, ModuleInfo.radix, opndx.hvalue < 0, FALSE );
+                        myqtoa( opndx.llvalue, StringBufferEnd, ModuleInfo.radix, opndx.value64 < 0, FALSE );
                         //ptr += strlen( ptr );
                         if ( i != max ) {
                             /* the evaluator was unable to evaluate the full expression. the rest
@@ -1313,7 +1313,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
     if ( evaluate ) {
         int old_tokencount = Token_Count;
         if ( i == (pos+1) ) { /* just a single %? */
-            opndx.value = 0;
+            opndx.llvalue = 0;
             i = pos;
         } else {
             i = pos++;
@@ -1323,7 +1323,7 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
             tmp = old_tokencount + 1;
             Token_Count = Tokenize( buffer, tmp, tokenarray, TOK_RESCAN );
             if ( EvalOperand( &tmp, tokenarray, Token_Count, &opndx, EXPF_NOUNDEF ) == ERROR )
-                opndx.value = 0; /* v2.09: assume value 0, don't return with ERROR */
+                opndx.llvalue = 0; /* v2.09: assume value 0, don't return with ERROR */
             else if ( opndx.kind != EXPR_CONST ) {
                 /* v2.09: with flag EXPF_NOUNDEF, EvalOperand() will have returned
                  * with error if there's an undefined symbol involved
@@ -1335,15 +1335,16 @@ static ret_code ExpandToken( char *line, int *pi, struct asm_tok tokenarray[], i
                     EmitError( CONSTANT_EXPECTED );
                 //}
                 //return( ERROR );
-                opndx.value = 0; /* assume value 0 */
+                opndx.llvalue = 0; /* assume value 0 */
             }
             Token_Count = old_tokencount;
         }
 #if TEVALUE_UNSIGNED
         /* v2.03: Masm compatible: returns an unsigned value */
-        myltoa( opndx.value, StringBufferEnd, ModuleInfo.radix, FALSE, FALSE );
+        /* a negative 32-bit value is displayed as unsigned 32-bit, anything else with its full value */
+        myqtoa( opndx.value64 == (int_64)opndx.value ? opndx.uvalue : opndx.llvalue, StringBufferEnd, ModuleInfo.radix, FALSE, FALSE );
 #else
-        myltoa( opndx.value, StringBufferEnd, ModuleInfo.radix, opndx.hvalue < 0, FALSE );
+        myqtoa( opndx.llvalue, StringBufferEnd, ModuleInfo.radix, opndx.value64 < 0, FALSE );
 #endif
             /* v2.05: get size of string to be "replaced" */
         tmp = tokenarray[*pi].tokpos - tokenarray[i].tokpos;
-- 
2.43.0


From 9bb67d6d527f8abe470d5409c9427693326fbd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 05/98] fix: data initializers that do not fit, LENGTHOF of DW
 strings

---
 data.c     | 6 +++---
 expreval.c | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/data.c b/data.c
index 33b981b..4befff2 100644
--- a/data.c
+++ b/data.c
@@ -642,7 +642,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
             return( ERROR );
         }
         /* max dup is 0x7fffffff */
-        if ( opndx.value < 0 ) {
+        if ( opndx.value < 0 || opndx.value64 != (int_64)opndx.value ) {
             return( EmitError( COUNT_MUST_BE_POSITIVE_OR_ZERO ) );
         }
         i++;
@@ -831,7 +831,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                         first = FALSE; /* avoid to touch first_xxx fields below */
                     }
                 }
-				else if (no_of_bytes == 2 && string_len > 1)
+				else if (no_of_bytes == 2 && string_len > 1 && Options.literal_strings && !Options.masm51_compat && !Options.strict_masm_compat) /* else the string is ONE item */
 				{
 					sym->isarray = TRUE;
 					total += (string_len - 1);
@@ -911,7 +911,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
                     if ( no_of_bytes <= sizeof( int_64 ) ) {
                         tmp = ( opndx.chararray[7] < 0x80 ? 0 : 0xFF );
                         memset( opndx.chararray, tmp, no_of_bytes );
-                        if ( opndx.llvalue != 0 && opndx.llvalue != -1 ) {
+                        if ( opndx.hlvalue != 0 || ( opndx.llvalue != 0 && opndx.llvalue != -1 ) ) {
                             DebugMsg(("data_item.CONST: error, unhandled data is %" I64_SPEC "X_%016" I64_SPEC "X\n", opndx.hlvalue, opndx.llvalue));
                             return( EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, opndx.sym ? opndx.sym->name : "" ) );
                         }
diff --git a/expreval.c b/expreval.c
index 7c54009..015b887 100644
--- a/expreval.c
+++ b/expreval.c
@@ -811,6 +811,7 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
     unsigned            len;
     const char          *end = src + size;
     uint_16             *px;
+    bool                toolarge = FALSE;
 
     dst[0] = 0;
     dst[1] = 0;
@@ -829,8 +830,12 @@ void myatoi128( const char *src, uint_64 dst[], int base, int size )
             val >>= 16;
         };
         //myassert( val == 0 ); /* if number doesn't fit in 128 bits */
+        if ( val )
+            toolarge = TRUE;
         src++;
     } while( src < end );
+    if ( toolarge )
+        EmitError( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
     return;
 }
 
@@ -3199,7 +3204,7 @@ static ret_code negative_op( struct expr *opnd1, struct expr *opnd2 )
          * a bit hackish.
          */
         if ( opnd2->hlvalue )
-            opnd1->hlvalue = -opnd2->hlvalue - 1;
+            opnd1->hlvalue = -opnd2->hlvalue - ( opnd2->llvalue != 0 ? 1 : 0 );
         opnd1->negative = 1 - opnd2->negative; /* ??? supposed to be used for EXPR_FLOAT only! */
     } else if( opnd2->kind == EXPR_FLOAT ) {
         opnd1->kind = EXPR_FLOAT;
-- 
2.43.0


From eefdd0ede0dc869ef3785b854e83b23e35e2f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 06/98] fix: round REAL4 and REAL10 literals correctly, reject
 REAL10 out of range, keep 64-bit integers in reals

---
 atofloat.c |  12 +-
 data.c     |  10 +-
 tbyte.c    | 469 +++++++++++------------------------------------------
 tokenize.c |   2 +-
 4 files changed, 111 insertions(+), 382 deletions(-)

diff --git a/atofloat.c b/atofloat.c
index 7ce89d7..ecde71e 100644
--- a/atofloat.c
+++ b/atofloat.c
@@ -57,17 +57,16 @@ void atofloat( void *out, const char *inp, unsigned size, bool negative, uint_8
             if( negative )
                 float_value *= -1;
 #else
-            double_value = strtod( inp, NULL );
+            /* strtof() rounds the decimal text just once; a conversion through double rounds twice */
+            float_value = strtof( inp, NULL );
             /* v2.06: check FLT_MAX added */
             /* v2.11: check FLT_MIN (min positive value) added */
-            //if ( double_value > FLT_MAX )
-            if ( double_value > FLT_MAX || ( double_value < FLT_MIN && double_value != 0 ) ) {
+            if ( float_value > FLT_MAX || ( float_value < FLT_MIN && strtod( inp, NULL ) != 0 ) ) {
                 DebugMsg(("atofloat(%s, 4): magnitude too large; FLT_MAX=%e FLT_MIN=%e\n", inp, FLT_MAX, FLT_MIN ));
                 EmitErr( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
             }
             if( negative )
-                double_value *= -1;
-            float_value = double_value;
+                float_value *= -1;
 #endif
             *(float *)out = float_value;
             break;
@@ -84,7 +83,8 @@ void atofloat( void *out, const char *inp, unsigned size, bool negative, uint_8
             *(double *)out = double_value;
             break;
         case 10:
-            strtotb( inp, (struct TB_LD *)out, negative );
+            if ( strtotb( inp, (struct TB_LD *)out, negative ) == NULL )
+                EmitErr( MAGNITUDE_TOO_LARGE_FOR_SPECIFIED_SIZE );
             break;
         default:
             /* sizes != 4,8 or 10 aren't accepted.
diff --git a/data.c b/data.c
index 4befff2..e5cb7a6 100644
--- a/data.c
+++ b/data.c
@@ -507,7 +507,7 @@ static void output_float( const struct expr *opnd, unsigned size )
     } 
 	else if (opnd->kind == EXPR_FLOATI)
 	{
-		snprintf(tstr, sizeof(tstr), "%f", opnd->fvalue);
+		snprintf(tstr, sizeof(tstr), "%" I64_SPEC "u.0", opnd->llvalue);
 		atofloat( buffer, tstr, size, opnd->negative, 0 );
 	}
 	else {
@@ -754,12 +754,12 @@ next_item:  /* <--- continue scan if a comma has been detected */
         break;
     case EXPR_CONST:
         if ( is_float ) {
-			opndx.fvalue = (float)opndx.value;
 			opndx.kind = EXPR_FLOATI;
-			opndx.negative = (opndx.fvalue < 0) ? 1 : 0;
+			opndx.negative = (opndx.value64 < 0) ? 1 : 0;
 			if (opndx.negative)
-				opndx.fvalue *= -1;
-			output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
+				opndx.llvalue = 0 - opndx.llvalue;
+			if (!inside_struct)
+				output_float( &opndx, no_of_bytes); /* Coerce const integer value to float in data definitions */
 			total++;
 			break;
             //return( EmitError( MUST_USE_FLOAT_INITIALIZER ) );
diff --git a/tbyte.c b/tbyte.c
index 85f1bf8..17aa6bc 100644
--- a/tbyte.c
+++ b/tbyte.c
@@ -30,9 +30,8 @@
 ****************************************************************************/
 
 /*
-    It use 96bit x 96bit -> 192bit multiply for converting decimal to
-       80-bit extended double.
-    Math operation is on 96-bit wide operands (mantisa).
+    The decimal text is converted exactly: digits * 10^exp is held as a fraction
+    of two large integers, so that the 64-bit mantissa can be rounded correctly.
 */
 
 #include <ctype.h>
@@ -48,421 +47,151 @@
 #define MAXUI64    0xffffffffffffffffui64
 #endif
 
-union u192 {
-    uint_64 m64[3];
-    uint_32 m32[6];
-};
-
-union u96 {
-    uint_32 m32[3];
-};
-
-/* extended (112-bit, 96+16) long double */
-struct ELD {
-    uint_32 m32[3];
-    unsigned short e;
-};
-
 #define EXPONENT_BIAS 0x3FFF
+#define EXP_LIMIT     20000  /* decimal exponents beyond can't be in range */
+#define BIGSIZE       ( ( MAX_LINE_LEN * 4 + ( MAX_LINE_LEN + 5000 ) * 5 / 2 ) / 32 + 8 )
 
-#define SET_SIGN(x,y) if( y < 0 ) x->e |= 0x8000
-#define U96ISNOTZERO(x) (x.m32[0] || x.m32[1] || x.m32[2])
-
-#define MAX_EXP_INDEX 13 /* # of items in tab_plus_exp[] and tab_minus_exp[] */
-
-static const struct ELD tab_plus_exp[MAX_EXP_INDEX] = {
-    { { 0x00000000UL, 0x00000000UL, 0xA0000000UL }, 0x4002 }, /* 1e1L   */
-    { { 0x00000000UL, 0x00000000UL, 0xC8000000UL }, 0x4005 }, /* 1e2L   */
-    { { 0x00000000UL, 0x00000000UL, 0x9C400000UL }, 0x400C }, /* 1e4L   */
-    { { 0x00000000UL, 0x00000000UL, 0xBEBC2000UL }, 0x4019 }, /* 1e8L   */
-    { { 0x00000000UL, 0x04000000UL, 0x8E1BC9BFUL }, 0x4034 }, /* 1e16L  */
-    { { 0xF0200000UL, 0x2B70B59DUL, 0x9DC5ADA8UL }, 0x4069 }, /* 1e32L  */
-    { { 0x3CBF6B71UL, 0xFFCFA6D5UL, 0xC2781F49UL }, 0x40D3 }, /* 1e64L  */
-    { { 0xC66F336BUL, 0x80E98CDFUL, 0x93BA47C9UL }, 0x41A8 }, /* 1e128L */
-    { { 0xDDBB9018UL, 0x9DF9DE8DUL, 0xAA7EEBFBUL }, 0x4351 }, /* 1e256L */
-    { { 0xCC655C4BUL, 0xA60E91C6UL, 0xE319A0AEUL }, 0x46A3 }, /* 1e512L */
-    { { 0x650D3D17UL, 0x81750C17UL, 0xC9767586UL }, 0x4D48 }, /* 1e1024L*/
-    { { 0xA74D28B1UL, 0xC53D5DE4UL, 0x9E8b3B5DUL }, 0x5A92 }, /* 1e2048L*/
-    { { 0xC94C14F7UL, 0x8A20979AUL, 0xC4605202UL }, 0x7525 }  /* 1e4096L*/
+/* large unsigned integer, least significant dword first */
+struct big {
+    int      len;
+    uint_32  m32[BIGSIZE];
 };
 
-static const struct ELD tab_minus_exp[MAX_EXP_INDEX] = {
-    { { 0xCCCCCCCDUL, 0xCCCCCCCCUL, 0xCCCCCCCCUL }, 0x3FFB }, /* 1e-1L   */
-    { { 0x3D70A3D7UL, 0x70A3D70AUL, 0xA3D70A3DUL }, 0x3FF8 }, /* 1e-2L   */
-    { { 0xD3C36113UL, 0xE219652BUL, 0xD1B71758UL }, 0x3FF1 }, /* 1e-4L   */
-    { { 0xFDC20D2AUL, 0x8461CEFCUL, 0xABCC7711UL }, 0x3FE4 }, /* 1e-8L   */
-    { { 0x4C2EBE65UL, 0xC44DE15BUL, 0xE69594BEUL }, 0x3FC9 }, /* 1e-16L  */
-    { { 0x67DE18E7UL, 0x453994BAUL, 0xCFB11EADUL }, 0x3F94 }, /* 1e-32L  */
-    { { 0x3F2398CCUL, 0xA539E9A5UL, 0xA87FEA27UL }, 0x3F2A }, /* 1e-64L  */
-    { { 0xAC7CB3D9UL, 0x64BCE4A0UL, 0xDDD0467CUL }, 0x3E55 }, /* 1e-128L */
-    { { 0xFA911122UL, 0x637A1939UL, 0xC0314325UL }, 0x3CAC }, /* 1e-256L */
-    { { 0x7132D2E4UL, 0xDB23D21CUL, 0x9049EE32UL }, 0x395A }, /* 1e-512L */
-    { { 0x87A600A6UL, 0xDA57C0BDUL, 0xA2A682A5UL }, 0x32B5 }, /* 1e-1024L*/
-    { { 0x4925110FUL, 0x34362DE4UL, 0xCEAE534FUL }, 0x256B }, /* 1e-2048L*/
-    { { 0x2DE37E46UL, 0xD2CE9FDEUL, 0xA6DD04C8UL }, 0x0AD8 }  /* 1e-4096L*/
-};
-
-static int cmp_u96_max( const union u96 *x )
-/*******************************************
-    compare u96 with maximum value before u96
-    overflow after multiply by 10
-*/
-{
-    if( x->m32[2] > 0x19999999UL ) {
-        return( 1 );
-    } else if( x->m32[2] < 0x19999999UL ) {
-        return( -1 );
-    } else if( x->m32[1] > 0x99999999UL ) {
-        return( 1 );
-    } else if( x->m32[1] < 0x99999999UL ) {
-        return( -1 );
-    } else if( x->m32[0] > 0x99999998UL ) {
-        return( 1 );
-    } else if( x->m32[0] < 0x99999998UL ) {
-        return( -1 );
-    } else {
-        return( 0 );
-    }
-}
-
-static int add_check_u96_overflow( union u96 *x, unsigned int c )
-/****************************************************************
-    test u96 overflow after multiply by 10
-    add one decimal digit to u96
-*/
-{
-    uint_64 cy;
-    int i;
-
-    if( cmp_u96_max( x ) > 0 ) {
-        return( 1 );
-    } else {
-        cy = c;
-        for( i = 0; i < 3; i++ ) {
-            cy += (uint_64)x->m32[i] * 10;
-            x->m32[i] = cy;
-            cy >>= 32;
-        }
-        return( 0 );
-    }
-}
-
-static int bitsize32( uint_32 x )
-/********************************
-    calculate bitsize for uint_32
+static void big_muladd( struct big *x, uint_32 factor, uint_32 c )
+/*****************************************************************
+    x = x * factor + c
 */
 {
+    uint_64 cy = c;
     int i;
 
-    for( i = 32; i > 0 ; i-- ) {
-        if( x & 0x80000000U ) break;
-        x <<= 1;
-    }
-    return( i );
-}
-
-static int bitsize64( uint_64 x )
-/********************************
-    calculate bitsize for uint_64
-*/
-{
-    int i;
-
-    for( i = 64; i > 0 ; i-- ) {
-        if( x & MAXUI64BIT ) break;
-        x <<= 1;
-    }
-    return( i );
-}
-
-static int U96LD( const union u96 *op, struct ELD *res )
-/*******************************************************
-    convert u96 into internal extended long double
-*/
-{
-    int bs;
-    int shft;
-
-    memcpy( res, op, sizeof( union u96 ) );
-    bs = bitsize32( res->m32[2] ) + 64;
-    if( bs == 64 ) {
-        res->m32[2] = res->m32[1];
-        res->m32[1] = res->m32[0];
-        res->m32[0] = 0;
-        bs = bitsize32( res->m32[2] ) + 32;
-    }
-    if( bs == 32 ) {
-        res->m32[2] = res->m32[1];
-        res->m32[1] = res->m32[0];
-        res->m32[0] = 0;
-        bs = bitsize32( res->m32[2] );
-    }
-    if( bs == 0 ) {
-        res->e = 0;
-    } else {
-        res->e = bs - 1 + EXPONENT_BIAS;
-        bs %= 32;
-        if( bs ) {
-            shft = 32 - bs;
-            res->m32[2] <<= shft;
-            res->m32[2] |= res->m32[1] >> bs;
-            res->m32[1] <<= shft;
-            res->m32[1] |= res->m32[0] >> bs;
-            res->m32[0] <<= shft;
-        }
-    }
-    return( 0 );
-}
-
-static int normalize( union u192 *res )
-/**************************************
-    normalize internal extended long double u192
-    return exponent shift
-*/
-{
-    int shft;
-    int bs;
-    int bs1;
-
-    bs = bitsize64( res->m64[2] ) + 128;
-    if( bs == 128 ) {
-        res->m64[2] = res->m64[1];
-        res->m64[1] = res->m64[0];
-        res->m64[0] = 0;
-        bs = bitsize64( res->m64[2] ) + 64;
-    }
-    if( bs == 64 ) {
-        res->m64[2] = res->m64[1];
-        res->m64[1] = res->m64[0];
-        res->m64[0] = 0;
-        bs = bitsize64( res->m64[2] );
-    }
-    if( bs == 0 ) {
-        return( 0 );
-    }
-    bs1 = bs % 64;
-    if ( bs1 ) {
-        shft = 64 - bs1;
-        res->m64[2] <<= shft;
-        res->m64[2] |= res->m64[1] >> bs1;
-        res->m64[1] <<= shft;
-        res->m64[1] |= res->m64[0] >> bs1;
-        res->m64[0] <<= shft;
+    for( i = 0; i < x->len; i++ ) {
+        cy += (uint_64)x->m32[i] * factor;
+        x->m32[i] = (uint_32)cy;
+        cy >>= 32;
     }
-    return( bs - 192 );
+    if( cy )
+        x->m32[x->len++] = (uint_32)cy;
 }
 
-static int add192( union u192 *res, const uint_64 x, int pos )
-/*************************************************************
-    add uint_64 to u192 on uint_32 position
-*/
+static int big_cmp( const struct big *x, const struct big *y )
+/*************************************************************/
 {
-    uint_64 cy;
     int i;
 
-    cy = (uint_32)x;
-    for( i = pos; i < 6; i++ ) {
-        cy += res->m32[i];
-        res->m32[i] = cy;
-        cy >>= 32;
-    }
-    cy = x >> 32;
-    for( i = pos + 1; i < 6; i++ ) {
-        cy += res->m32[i];
-        res->m32[i] = cy;
-        cy >>= 32;
-    }
+    if( x->len != y->len )
+        return( x->len < y->len ? -1 : 1 );
+    for( i = x->len - 1; i >= 0; i-- )
+        if( x->m32[i] != y->m32[i] )
+            return( x->m32[i] < y->m32[i] ? -1 : 1 );
     return( 0 );
 }
 
-static int multiply( const struct ELD *op1, const struct ELD *op2, struct ELD *res )
-/***********************************************************************************
-    multiply u96 by u96 into u96
-    normalize and round result
+static void big_sub( struct big *x, const struct big *y )
+/********************************************************
+    x = x - y; x must not be less than y
 */
 {
-    uint_64 x1;
-    union u192 r1;
-    int_32 exp;
-
-    exp = (int_32)(op1->e & 0x7fff) + (int_32)(op2->e & 0x7fff) - EXPONENT_BIAS + 1;
-    r1.m64[0] = (uint_64)(op1->m32[0]) * (uint_64)(op2->m32[0]);
-    r1.m64[1] = (uint_64)(op1->m32[1]) * (uint_64)(op2->m32[1]);
-    r1.m64[2] = (uint_64)(op1->m32[2]) * (uint_64)(op2->m32[2]);
-    x1 = (uint_64)(op1->m32[1]) * (uint_64)(op2->m32[0]);
-    add192( &r1, x1, 1 );
-    x1 = (uint_64)(op1->m32[0]) * (uint_64)(op2->m32[1]);
-    add192( &r1, x1, 1 );
-    x1 = (uint_64)(op1->m32[0]) * (uint_64)(op2->m32[2]);
-    add192( &r1, x1, 2 );
-    x1 = (uint_64)(op1->m32[2]) * (uint_64)(op2->m32[0]);
-    add192( &r1, x1, 2 );
-    x1 = (uint_64)(op1->m32[1]) * (uint_64)(op2->m32[2]);
-    add192( &r1, x1, 3 );
-    x1 = (uint_64)(op1->m32[2]) * (uint_64)(op2->m32[1]);
-    add192( &r1, x1, 3 );
-    exp += normalize( &r1 );
-    /* round result */
-    if( r1.m32[2] & 0x80000000U ) {
-        if( r1.m32[5] == 0xffffffffU && r1.m32[4] == 0xffffffffU && r1.m32[3] == 0xffffffffU ) {
-            r1.m32[3] = 0;
-            r1.m32[4] = 0;
-            r1.m32[5] = 0x80000000U;
-            exp++;
-        } else {
-            x1 = 1L;
-            add192( &r1, x1, 3 );
-        }
-    }
-    res->m32[0] = r1.m32[3];
-    res->m32[1] = r1.m32[4];
-    res->m32[2] = r1.m32[5];
-    res->e = exp;
-    return( 0 );
-}
-
-static int TB_create( union u96 *value, int_32 exponent, struct TB_LD *ld )
-/**************************************************************************
-    create tbyte/long double from u96 value and
-    decimal exponent, round result
-*/
-{
-    const struct ELD *tabExp;
+    uint_64 t;
+    uint_32 borrow = 0;
     int i;
-    struct ELD res;
 
-    if( exponent < 0 ) {
-        exponent = -exponent;
-        tabExp = tab_minus_exp;
-    } else {
-        tabExp = tab_plus_exp;
-    }
-    U96LD(value, &res);
-    for( i = 0; i < MAX_EXP_INDEX; i++ ) {
-        if ( exponent & 1 ) {
-            multiply(&res, tabExp + i, &res);
-        }
-        exponent >>= 1;
-        if( exponent == 0 ) break;
-    }
-    if( exponent != 0 ) {
-        /* exponent overflow */
-    }
-    ld->e = res.e;
-    ld->m = res.m32[1] + ((uint_64)res.m32[2] << 32) ;
-    /* round result */
-    if( res.m32[0] & 0x80000000U ) {
-        if( ld->m == MAXUI64 ) {
-            ld->m = MAXUI64BIT;
-            ld->e++;
-        } else {
-            ld->m++;
-        }
+    for( i = 0; i < x->len; i++ ) {
+        t = (uint_64)x->m32[i] - ( i < y->len ? y->m32[i] : 0 ) - borrow;
+        x->m32[i] = (uint_32)t;
+        borrow = (uint_32)( t >> 32 ) & 1;
     }
-    return( 0 );
+    while( x->len && x->m32[x->len - 1] == 0 )
+        x->len--;
 }
 
 struct TB_LD *strtotb( const char *p, struct TB_LD *ld, char negative )
 /**********************************************************************
     convert string into tbyte/long double
     set result sign
+    return NULL if the magnitude is out of range
 */
 {
-    int              sign = +1;
     int              exp_sign = +1;
-    int_32           exp_value;
-    int              overflow;
-    int_32           exp1;
-    int_32           exponent;
-    int_32           exponent_tmp;
-    union u96        value;
-    union u96        value_tmp;
+    int              got_point = 0;
+    int_32           exp_value = 0;
+    int_32           exponent = 0;
+    int_32           exp2;
+    int              i;
+    struct big       num;   /* value = num / den * 2^exp2 */
+    struct big       den;
 
     while ( isspace( *p ) ) p++;
     switch (*p) {
     case '-':
-        sign = -1;
+        negative = !negative;
     case '+':
         p++;
     default :
         break;
     }
-    if( negative ) {
-        sign = -sign;
-    }
-    memset( &value, 0, sizeof( value ) );
-    memset( &value_tmp, 0, sizeof( value_tmp ) );
-    //exponent = 0;
-    exp1 = 0;
-    exponent_tmp = 0;
-    overflow = 0;
-    while ( (unsigned int)(*p - '0') < 10u ) {
-        if( overflow ) {
-            exponent_tmp++;
-            exp1++;
+    num.len = 0;
+    for( ; (unsigned int)(*p - '0') < 10u || ( *p == '.' && got_point == 0 ); p++ ) {
+        if( *p == '.' ) {
+            got_point = 1;
         } else {
-            if( add_check_u96_overflow( &value_tmp, *p - '0' ) ) {
-                overflow = 1;
-                exponent_tmp++;
-                exp1++;
-            } else if( *p != '0' ) {
-                memcpy( &value, &value_tmp, sizeof( value ) );
-                exp1 = 0;
-            } else if( U96ISNOTZERO(value) ) {
-                exp1++;
-            }
+            big_muladd( &num, 10, *p - '0' );
+            exponent -= got_point;
         }
-        p++;
     }
-    exponent = exp1;
-    if ( *p == '.' ) {
+    if ( (*p | 0x20) == 'e' ) {
         p++;
-        while ( (unsigned int)(*p - '0') < 10u ) {
-            if( overflow == 0 ) {
-                if( add_check_u96_overflow( &value_tmp, *p - '0' ) ) {
-                    overflow = 1;
-                } else {
-                    exponent_tmp--;
-                    if( *p != '0' ) {
-                        memcpy( &value, &value_tmp, sizeof( value ) );
-                        exponent = exponent_tmp;
-                    }
-                }
-            }
+        if( *p == '-' || *p == '+' ) {
+            if( *p == '-' )
+                exp_sign = -1;
             p++;
         }
+        for( ; (unsigned int)(*p - '0') < 10u; p++ )
+            if( exp_value < EXP_LIMIT )
+                exp_value = 10 * exp_value + (*p - '0');
+    }
+    exponent += exp_sign * exp_value;
+    ld->m = 0;
+    ld->e = ( negative ? 0x8000 : 0 );
+    if( num.len == 0 ) /* zero? */
+        return( ld );
+    if( exponent > 5000 || exponent < -5000 - MAX_LINE_LEN )
+        return( NULL );
+    den.len = 1;
+    den.m32[0] = 1;
+    exp2 = exponent;
+    for( i = exponent; i > 0; i-- )
+        big_muladd( &num, 5, 0 );
+    for( i = exponent; i < 0; i++ )
+        big_muladd( &den, 5, 0 );
+    /* scale so that den <= num < 2 * den */
+    for( ; big_cmp( &num, &den ) < 0; exp2-- )
+        big_muladd( &num, 2, 0 );
+    for( ; big_cmp( &num, &den ) >= 0; exp2++ )
+        big_muladd( &den, 2, 0 );
+    big_muladd( &num, 2, 0 );
+    exp2--;
+    for( i = 0; i < 64; i++ ) {
+        ld->m <<= 1;
+        if( big_cmp( &num, &den ) >= 0 ) {
+            big_sub( &num, &den );
+            ld->m |= 1;
+        }
+        big_muladd( &num, 2, 0 );
     }
-    exp_value   = 0;
-    if ( (*p | 0x20) == 'e' ) {
-        switch ( *++p ) {
-        case '-':
-            exp_sign = -1;
-        case '+': p++;
-            break;
-        case '0':
-        case '1':
-        case '2':
-        case '3':
-        case '4':
-        case '5':
-        case '6':
-        case '7':
-        case '8':
-        case '9':
-            break;
-        default :
-            ld->m = 0;
-            ld->e = 0;
-            SET_SIGN( ld, sign );
-            return( ld );
+    /* round to nearest, ties to even */
+    i = big_cmp( &num, &den );
+    if( i > 0 || ( i == 0 && ( ld->m & 1 ) ) ) {
+        if( ld->m == MAXUI64 ) {
+            ld->m = MAXUI64BIT;
+            exp2++;
+        } else {
+            ld->m++;
         }
-        while ( (unsigned int)(*p - '0') < 10u )
-            exp_value = 10 * exp_value + (*p++ - '0');
-        if( exp_sign < 0 )
-            exp_value = -exp_value;
     }
-    exp_value += exponent;
-    TB_create( &value, exp_value, ld );
-    SET_SIGN( ld, sign );
+    exp2 += EXPONENT_BIAS;
+    if( exp2 <= 0 || exp2 >= 0x7FFF )
+        return( NULL );
+    ld->e |= exp2;
     return( ld );
 }
diff --git a/tokenize.c b/tokenize.c
index cb71c11..0629c5d 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -295,7 +295,7 @@ static ret_code get_float( struct asm_tok *buf, struct line_status *p )
         char c = *ptr;
         if( isdigit( c ) ) {
             ;
-        } else if ( c == '.' && got_decimal == FALSE ) {
+        } else if ( c == '.' && got_decimal == FALSE && got_e == FALSE ) {
             got_decimal = TRUE;
         } else if ( tolower( c ) == 'e' && got_e == FALSE ) {
             got_e = TRUE;
-- 
2.43.0


From 3af09a9d17e279812e9d8fca956a549bc39135f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 07/98] fix: encodings of movq r64,mm, 16-bit
 lzcnt/tzcnt/rdrand/rdseed, string instructions with a displacement

---
 H/instruct.h |  6 +++---
 codegen.c    | 13 ++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index 187eee7..ee7c1a0 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -871,7 +871,7 @@ insn(MOVQ, 5,                   OpCls( XMM,      XMM_M64,  NONE ), F_F30F, 1,  n
 insn(MOVQ, 6,                   OpCls( M64,      MMX,      NONE ), F_0F,   0,  no_WDS, 0x7F,     0x00,       P_586|P_MMX, QSIZE)
 insn(MOVQ, 7,                   OpCls( M64,      MMX,      NONE ), F_0F,   1,  no_WDS, 0x7F,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
 insn(MOVQ, 8,                   OpCls( MMX,      R64_M64,  NONE ), F_0F,   1,  no_WDS, 0x6E,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
-insn(MOVQ, 9,                   OpCls( R64,      MMX,      NONE ), F_0F,   1,  no_WDS, 0x7E,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
+insn(MOVQ, 9,                   OpCls( R64,      MMX,      NONE ), F_0F,   0,  no_WDS, 0x7E,     0x00,       P_686|P_MMX, W1|QSIZE|T1S)
 #endif
 
 ins (MOVAPD, movapd,            OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0x28,     0x00,       P_686|P_SSE2,W1|QSIZE|FVM)
@@ -1320,8 +1320,8 @@ ins (PCMPISTRM, pcmpistrm,      OpCls( XMM,      XMM_M128, I8_U ), F_660F3A, 1,
 ins (PCMPISTRI, pcmpistri,      OpCls( XMM,      XMM_M128, I8_U ), F_660F3A, 1,  no_WDS, 0x63,     0x00,       P_686|P_SSE4, 0)
 ins (PCMPGTQ, pcmpgtq,          OpCls( XMM,      XMM_M128, NONE ), F_660F38, 1,  no_WDS, 0x37,     0x00,       P_686|P_SSE4, W1|QSIZE|FV)
 ins (POPCNT, popcnt,            OpCls( RGT8,     RGT8_MS,  NONE ), F_F30F,   1,  no_WDS ,0xB8,     0x00,       P_686|P_SSE4, 0)
-ins (RDRAND, rdrand,            OpCls( R,        NONE,     NONE ), F_0F,     0,  no_WDS, 0xC7,     0x30,       P_686|P_SSE4, 0)
-ins (RDSEED, rdseed,            OpCls( R,        NONE,     NONE ), F_0F,     0,  no_WDS, 0xC7,     0x38,       P_686|P_SSE4, 0)
+ins (RDRAND, rdrand,            OpCls( RGT8,     NONE,     NONE ), F_0F,     0,  no_WDS, 0xC7,     0x30,       P_686|P_SSE4, 0)
+ins (RDSEED, rdseed,            OpCls( RGT8,     NONE,     NONE ), F_0F,     0,  no_WDS, 0xC7,     0x38,       P_686|P_SSE4, 0)
 ins (LZCNT, lzcnt,              OpCls( RGT8,     RGT8_MS,  NONE ), F_F30F,   1,  no_WDS ,0xBD,     0x00,       P_686|P_SSE4, 0)
 ins (TZCNT, tzcnt,              OpCls( RGT8,     RGT8_MS,  NONE ), F_F30F,   1,  no_WDS ,0xBC,     0x00,       P_686|P_SSE4, 0)
 ins(INVPCID, invpcid,           OpCls( RGT8,     MS,       NONE ), F_660F38, 1,  no_WDS, 0x82,     0x00,       P_686|P_SSE4, 0)
diff --git a/codegen.c b/codegen.c
index ddb3f14..b97683f 100644
--- a/codegen.c
+++ b/codegen.c
@@ -189,13 +189,15 @@ static void output_opc(struct code_info *CodeInfo)
 #if SSE4SUPP
     /* there are 2 exceptions. how to avoid this ugly hack? */
     if (CodeInfo->token != T_CRC32 &&
-      CodeInfo->token != T_POPCNT)
+      CodeInfo->token != T_POPCNT && CodeInfo->token != T_LZCNT && CodeInfo->token != T_TZCNT)
 #endif
       CodeInfo->prefix.opsiz = FALSE;
   }
   if ((CodeInfo->token == T_RDRAND) || (CodeInfo->token == T_RDSEED)){
-    if ((CodeInfo->opnd[OPND1].type == OP_R16) || (CodeInfo->opnd[OPND1].type == OP_AX))
-      CodeInfo->prefix.opsiz = TRUE;
+    if (CodeInfo->opnd[OPND1].type & OP_R16)
+      CodeInfo->prefix.opsiz = ( CodeInfo->Ofssize != USE16 );
+    else
+      CodeInfo->prefix.opsiz = ( CodeInfo->Ofssize == USE16 && ( CodeInfo->opnd[OPND1].type & OP_R32 ) );
   } 
   /*
    * Check if CPU, FPU and extensions are within the limits
@@ -2687,8 +2689,9 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
   if (CodeInfo->token == T_XLAT || CodeInfo->token == T_XLATB)
 	  return;
 
-  /* Never output immediate data for a lods, movs or stos */
-  if (CodeInfo->token == T_LODS || CodeInfo->token == T_MOVS || CodeInfo->token == T_STOS)
+  /* Never output a displacement for string instructions, their operands are implicit */
+  if (CodeInfo->pinstr->rm_info == no_RM &&
+	  (CodeInfo->pinstr->allowed_prefix == AP_REP || CodeInfo->pinstr->allowed_prefix == AP_REPxx))
 	  return;
 
 #if AVXSUPP
-- 
2.43.0


From 4c4c3d12b3fc3eaded96df2de7f1d18ea41ea45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 08/98] fix: reject immediates for SSE register operands, bound
 registers in other instructions, ARPL/BOUND/INTO in 64-bit code

---
 H/instruct.h |  6 +++---
 codegen.c    |  2 +-
 parser.c     | 29 ++++++++++++++++++++++++++++-
 reswords.c   |  2 ++
 4 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index ee7c1a0..65fa57e 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -243,7 +243,7 @@ insn(RETW, 1,                   OpCls( NONE,     NONE,       NONE ), F_16,   0,
  * to make Uasm accept, change OP_R16 to OP_RGT8
  */
 
-ins (ARPL, arpl,                OpCls( R16_M16,  R16,      NONE ), 0,       0,  no_WDS, 0x63,     0x00,       P_286,       0)
+insx(ARPL, arpl,                OpCls( R16_M16,  R16,      NONE ), 0,       0,  no_WDS, 0x63,     0x00,       P_286,       0, RWF_IA32)
 ins (LLDT, lldt,                OpCls( R16_M16,  NONE,     NONE ), F_0FNO66,0,  no_WDS, 0x00,     0x10,       P_286p,      0)
 ins (LMSW, lmsw,                OpCls( R16_M16,  NONE,     NONE ), F_0FNO66,0,  no_WDS, 0x01,     0x30,       P_286p,      0)
 ins (LTR,  ltr,                 OpCls( R16_M16,  NONE,     NONE ), F_0FNO66,0,  no_WDS, 0x00,     0x18,       P_286p,      0)
@@ -376,7 +376,7 @@ insn(MOVBE, 1,                  OpCls( MGT8,     RGT8,       NONE ), F_0F38,  0,
 
 /* rest */
 
-ins (BOUND_, bound,             OpCls( RGT8,     MS,         NONE ), 0,      1,  no_WDS, 0x62,     0x00,       P_186,       0)
+insx(BOUND_, bound,             OpCls( RGT8,     MS,         NONE ), 0,      1,  no_WDS, 0x62,     0x00,       P_186,       0, RWF_IA32)
 ins (BSF, bsf,                  OpCls( RGT8,     RGT8_MS,    NONE ), F_0F,   1,  no_WDS, 0xBC,     0x00,       P_386,       0)
 ins (BSR, bsr,                  OpCls( RGT8,     RGT8_MS,    NONE ), F_0F,   1,  no_WDS, 0xBD,     0x00,       P_386,       0)
 ins (BSWAP, bswap,              OpCls( RGT16,    NONE,       NONE ), F_0F,   0,  R_in_OP,0xC8,     0x00,       P_486,       0)
@@ -403,7 +403,7 @@ ins (IN, in,                    OpCls( A,        DX_ONLY,    NONE ), 0,      0,
 insn(IN, 1,                     OpCls( A,        I8_U,       NONE ), 0,      0,  no_RM,  0xE4,     0x00,       P_86,        0)
 ins (INT, int,                  OpCls( I_3,      NONE,       NONE ), 0,      0,  no_RM,  0xCC,     0x00,       P_86,        0)
 insn(INT, 1,                    OpCls( I8_U,     NONE,       NONE ), 0,      0,  no_RM,  0xCD,     0x00,       P_86,        0)
-ins (INTO, into,                OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0xCE,     0x00,       P_86,        0)
+insx(INTO, into,                OpCls( NONE,     NONE,       NONE ), 0,      0,  no_RM,  0xCE,     0x00,       P_86,        0, RWF_IA32)
 ins (INVD, invd,                OpCls( NONE,     NONE,       NONE ), F_0F,   0,  no_RM,  0x08,     0x00,       P_486,       0)
 ins (INVLPG, invlpg,            OpCls( M_ANY,    NONE,       NONE ), F_0F,   0,  no_WDS, 0x01,     0x38,       P_486,       0)
 ins (IRET, iret,                OpCls( NONE,     NONE,       NONE ), F_16,   0,  no_RM,  0xCF,     0x00,       P_86,        0)
diff --git a/codegen.c b/codegen.c
index b97683f..81a207e 100644
--- a/codegen.c
+++ b/codegen.c
@@ -3212,7 +3212,7 @@ static ret_code match_phase_3( struct code_info *CodeInfo, enum operand_type opn
             /* v2.06: condition made more restrictive */
             if (CodeInfo->token < T_VBROADCASTSS)(CodeInfo->evex_flag = 0);
             //if( ( opnd2 & tbl_op2 ) || (CodeInfo->mem_type == MT_EMPTY && (opnd2 & OP_M_ANY) || (tbl_op2 & OP_M_ANY) )) {
-              if ((opnd2 & tbl_op2) || (CodeInfo->mem_type == MT_EMPTY && opnd2 == OP_I8 && CodeInfo->opnd[OPND1].type == OP_XMM) ||
+              if ((opnd2 & tbl_op2) ||
                   ((CodeInfo->evex_flag)&&(CodeInfo->token < T_VPBROADCASTB) || (CodeInfo->token > T_VPBROADCASTQ))) {     // 
                 if( check_3rd_operand( CodeInfo ) == ERROR )
                     break;
diff --git a/parser.c b/parser.c
index fc5239a..f693011 100644
--- a/parser.c
+++ b/parser.c
@@ -3042,6 +3042,31 @@ static struct asym *IsType( const char *name )
     return( NULL );
 }
 
+static ret_code check_bnd( const struct code_info *CodeInfo )
+/************************************************************
+ * OP_BND shares its bits with OP_R8 and OP_R64, so the operand classes
+ * alone cannot tell a bound register from a general-purpose one.
+ */
+{
+    enum operand_type op1 = CodeInfo->opnd[OPND1].type;
+    enum operand_type op2 = CodeInfo->opnd[OPND2].type;
+
+    switch( CodeInfo->token ) {
+    case T_BNDMOV:
+        return( ( ( op1 & OP_R ) && op1 != OP_BND ) || ( ( op2 & OP_R ) && op2 != OP_BND ) ? ERROR : NOT_ERROR );
+    case T_BNDSTX:
+        return( op2 == OP_BND ? NOT_ERROR : ERROR );
+    case T_BNDMK:
+    case T_BNDCL:
+    case T_BNDCU:
+    case T_BNDCN:
+    case T_BNDLDX:
+        return( op1 != OP_BND || op2 == OP_BND || ( op2 & ( OP_R8 | OP_R16 ) ) ? ERROR : NOT_ERROR );
+    default:
+        return( op1 == OP_BND || op2 == OP_BND || CodeInfo->opnd[OPND3].type == OP_BND ? ERROR : NOT_ERROR );
+    }
+}
+
 /*
  * ParseLine() is the main parser function.
  * It scans the tokens in tokenarray[] and does:
@@ -4053,7 +4078,9 @@ dataInProc:
 	/* *********************************************************** */
 	/* Use the V2 CodeGen, else fallback to the standard CodeGen   */
 	/* *********************************************************** */
-	if (ModuleInfo.Ofssize == USE32 || ModuleInfo.Ofssize == USE64)
+	if (check_bnd(&CodeInfo) == ERROR)
+		temp = EmitError(INVALID_INSTRUCTION_OPERANDS);
+	else if (ModuleInfo.Ofssize == USE32 || ModuleInfo.Ofssize == USE64)
 	{
 		temp = CodeGenV2(opcodePtr, &CodeInfoV2, oldofs, opndCount, opndxV2);
 		if (temp == EMPTY)
diff --git a/reswords.c b/reswords.c
index 7048998..81827a1 100644
--- a/reswords.c
+++ b/reswords.c
@@ -905,6 +905,8 @@ static const enum instr_token patchtab32[] = {
   T_TR3,          /* registers invalid for IA32+              */
   T_DOT_SAFESEH,  /* directives invalid for IA32+             */
   T_AAA,          /* instructions invalid for IA32+           */
+  T_BOUND_,
+  T_INTO,
   T_JCXZ,         /* 1. branch instructions invalid for IA32+ */
   T_LOOPW         /* 2. branch instructions invalid for IA32+ */
 };
-- 
2.43.0


From 7ae442fbb12cabdc45b3e034afb620ab09df5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 09/98] fix: no SIB byte for 16-bit addresses in 32-bit code

---
 codegen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.c b/codegen.c
index 81a207e..08d8d70 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2654,7 +2654,8 @@ static void output_opc(struct code_info *CodeInfo)
         //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
         //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
         //    return; /* no SIB for 16bit */
-        if ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) 
+        if ( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
+           ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 && CodeInfo->evex_flag == 0 ) )
             return; /* no SIB for 16bit */
 
         switch ( tmp & NOT_BIT_345 ) {
-- 
2.43.0


From 94d924520b2d4d2e24c1f489c871a190c60f1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 10/98] fix: 16-bit addresses in MOV in 32-bit code,
 pminub/pmaxub mm with r8-r15, immediates beyond 32 bits

---
 H/instruct.h |  4 ++--
 codegenv2.c  | 10 ++++++++--
 parser.c     |  5 +++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index 65fa57e..be134b9 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -974,11 +974,11 @@ ins (PMADDWD, pmaddwd,          OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  n
 insn(PMADDWD, 1,                OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0xF5,     0x00,       P_686|P_SSE2,WSIZE|FVM)
 ins (PMAXSW, pmaxsw,            OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  no_WDS, 0xEE,     0x00,       P_686|P_SSE1,WSIZE|FVM)
 insn(PMAXSW, 1,                 OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0xEE,     0x00,       P_686|P_SSE2,WSIZE|FVM)
-ins (PMAXUB, pmaxub,            OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  no_WDS, 0xDE,     0x00,       P_686|P_SSE1,BSIZE|FVM)
+ins (PMAXUB, pmaxub,            OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  no_WDS, 0xDE,     0x00,       P_686|P_SSE1,WSIZE|FVM)
 insn(PMAXUB, 1,                 OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0xDE,     0x00,       P_686|P_SSE2,BSIZE|FVM)
 ins (PMINSW, pminsw,            OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  no_WDS, 0xEA,     0x00,       P_686|P_SSE1,WSIZE|FVM)
 insn(PMINSW, 1,                 OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0xEA,     0x00,       P_686|P_SSE2,WSIZE|FVM)
-ins (PMINUB, pminub,            OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  no_WDS, 0xDA,     0x00,       P_686|P_SSE1,BSIZE|FVM)
+ins (PMINUB, pminub,            OpCls( MMX,      MMX_M64,  NONE ), F_0F,   1,  no_WDS, 0xDA,     0x00,       P_686|P_SSE1,WSIZE|FVM)
 insn(PMINUB, 1,                 OpCls( XMM,      XMM_M128, NONE ), F_660F, 1,  no_WDS, 0xDA,     0x00,       P_686|P_SSE2,BSIZE|FVM)
 ins (PMOVMSKB, pmovmskb,        OpCls( RGT16,    MMX,      NONE ), F_0F,   1,  no_WDS, 0xD7,     0x00,       P_686|P_SSE1,BSIZE)
 insn(PMOVMSKB, 1,               OpCls( RGT16,    XMM,      NONE ), F_660F, 1,  no_WDS, 0xD7,     0x00,       P_686|P_SSE2,BSIZE)
diff --git a/codegenv2.c b/codegenv2.c
index ae4b814..f72ac6a 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1217,6 +1217,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	int             idxRegSize = 0;
 	int             symSize = 0;
 	bool			skipSIB = FALSE;
+	bool needDisp = FALSE;
 
 	/* Absolute addressing modes can skip this */
 	if (instr->memOpnd != MEM_ABS_1 && instr->memOpnd != MEM_ABS_0)
@@ -1312,6 +1313,11 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 				* pmodRM |= 4;
 			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_DI)
 				* pmodRM |= 5;
+			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BP)
+			{
+				* pmodRM |= 6;
+				needDisp = TRUE;	/* mod=00 rm=110 is a plain disp16 */
+			}
 			else if (!opExpr[instr->memOpnd].base_reg && !opExpr[instr->memOpnd].idx_reg)
 				* pmodRM |= 6;
 			else if (opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->tokval == T_BX)
@@ -1360,7 +1366,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	/* Either: User specified
 	           RIP relative addressing mandates it
 	           Specified address format can only be encoded with a displacement. */
-	if (instr->memOpnd > NO_MEM || opExpr[instr->memOpnd].value != 0 ||
+	if (instr->memOpnd > NO_MEM || needDisp || opExpr[instr->memOpnd].value != 0 ||
 		(ModuleInfo.Ofssize == USE64 && opExpr[instr->memOpnd].base_reg && opExpr[instr->memOpnd].base_reg->token == T_RIP) ||
 		MemTable[memModeIdx].flags & MEMF_DSP || MemTable[memModeIdx].flags & MEMF_DSP32 || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state != SYM_STACK))
 	{
@@ -1391,7 +1397,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 			}
 			else
 			{
-				if (ModuleInfo.Ofssize == USE16)
+				if (ModuleInfo.Ofssize == USE16 || skipSIB)
 					*dispSize = 2;	/* 16bit addressing. */
 				else
 					*dispSize = 4;	/* 32bit or 64bit sign extended addressing. */
diff --git a/parser.c b/parser.c
index f693011..11bfb5d 100644
--- a/parser.c
+++ b/parser.c
@@ -975,8 +975,9 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
     CodeInfo->opnd[CurrOpnd].data32l = value;
 
 	/* 64bit immediates are restricted to MOV <reg>,<imm64> */
-	if (opndx->value64 > 0xFFFFFFFF && (CodeInfo->token != T_MOV || 
-		(CodeInfo->token == T_MOV && (CodeInfo->opnd[OPND1].type & OP_R64) == 0) ))
+	if ((opndx->value64 > 0xFFFFFFFF && (CodeInfo->token != T_MOV || 
+		(CodeInfo->token == T_MOV && (CodeInfo->opnd[OPND1].type & OP_R64) == 0) )) ||
+		(opndx->value64 < -0xFFFFFFFFLL - 1 && CodeInfo->token != T_MOV))
 	{ 
 		/* magnitude > 64 bits? */
 		DebugMsg1(("idata_nofixup: error, hlvalue=%" I64_SPEC "X\n", opndx->hlvalue));
-- 
2.43.0


From a10c19272e0922c0bc5b0b5f3f1e7e05a5f3cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 11/98] fix: BMI instructions: operand size of
 bextr/bzhi/sarx/shlx/shrx, opcode extension of blsi, zero displacement

---
 codegen.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/codegen.c b/codegen.c
index 08d8d70..12b2959 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1221,9 +1221,6 @@ static void output_opc(struct code_info *CodeInfo)
               c = ~c;
               c &= EVEX_P1VVVV;
               lbyte |= c;
-#if AMD64_SUPPORT
-              lbyte |=0x80;
-#endif
                if (ins->byte1_info == F_660F) lbyte |= 0x1;
                else if (ins->byte1_info == F_F30F38) lbyte |= 0x02;//SARX
                else if (ins->byte1_info == F_660F38) lbyte |= 0x01;//SHLX
@@ -2553,6 +2550,10 @@ static void output_opc(struct code_info *CodeInfo)
             }
           CodeInfo->rm_byte = tmp;
           }
+        if (CodeInfo->token == T_BLSI){
+          tmp &= ~0x38;
+          tmp |= 0x18;
+          }
         if (CodeInfo->token == T_BLSMSK){
           tmp &= ~0x38;
           tmp |= 0x10;
@@ -2699,11 +2700,11 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
     if (CodeInfo->token >= VEX_START){
       if ((CodeInfo->token == T_ANDN) || (CodeInfo->token == T_MULX) ||
         (CodeInfo->token == T_PDEP) || (CodeInfo->token == T_PEXT)){
-        if ((CodeInfo->opnd[OPND2].data32l == 0) || (index == 2))
+        if (!(CodeInfo->opnd[OPND2].type & OP_M_ANY) || (index == 2))
           return;
       }
       if ((CodeInfo->token >= T_BEXTR) && (CodeInfo->token <= T_SHRX) || (CodeInfo->token == T_BZHI)) {
-        if (CodeInfo->opnd[OPND2].data32l == 0) return;
+        if (!(CodeInfo->opnd[OPND2].type & OP_M_ANY)) return;
         if ((index == 0) || (index == 2))
           return;
       }
-- 
2.43.0


From 0e8a2d2db587b3fb1b2aeeea735eda1035af6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 12/98] fix: EVEX displacements that are not multiples of N,
 mask register results

---
 codegen.c | 7 +++++++
 parser.c  | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/codegen.c b/codegen.c
index 12b2959..d5c4552 100644
--- a/codegen.c
+++ b/codegen.c
@@ -2650,6 +2650,13 @@ static void output_opc(struct code_info *CodeInfo)
 				}
 
             }
+        /* EVEX scales a byte displacement by N: one that is not compressed needs 32 bits */
+        if (CodeInfo->evex_flag && CodeInfo->tuple == 0 && (tmp & 0xC0) == MOD_01 &&
+            (((CodeInfo->opnd[OPND1].type & OP_M_ANY) && CodeInfo->opnd[OPND1].data32l) ||
+             ((CodeInfo->opnd[OPND2].type & OP_M_ANY) && CodeInfo->opnd[OPND2].data32l))) {
+          tmp = (tmp & NOT_BIT_67) | MOD_10;
+          CodeInfo->rm_byte = tmp;
+          }
 		    OutputCodeByte( tmp );
 
         //if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
diff --git a/parser.c b/parser.c
index 11bfb5d..0df8275 100644
--- a/parser.c
+++ b/parser.c
@@ -2137,6 +2137,10 @@ static ret_code process_register( struct code_info *CodeInfo, unsigned CurrOpnd,
 		else
 			return(EmitError(UNAUTHORISED_USE_OF_EVEX_REGISTERS));
 	}
+	/* a mask register is a result or a source of EVEX instructions only, apart from the KXXX instructions */
+	if (evex && CodeInfo->opnd[CurrOpnd].type == OP_K && CodeInfo->token >= VEX_START &&
+		!((CodeInfo->token >= T_KADDB && CodeInfo->token <= T_KMOVW) || (CodeInfo->token >= T_KTESTB && CodeInfo->token <= T_KTESTQ)))
+		CodeInfo->evex_flag = TRUE;
 	if (CodeInfo->opnd[CurrOpnd].type == OP_K && regno > 7) 
 	{
 		return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
-- 
2.43.0


From 149b8889e4497e1573b5272d5eaae9105a4a7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 13/98] fix: predicate byte of the VPCMPxxD/Q/W/B pseudo
 instructions

---
 H/instruct.h | 110 +++++++++++++++++++++++++--------------------------
 codegen.c    |  19 ++++-----
 2 files changed, 65 insertions(+), 64 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index be134b9..a4020e2 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -1679,13 +1679,13 @@ insx(VPCMPB, vpcmpb,               OpCls( XMM,  XMM_M128, I8_U ),F_660F3A, 1,  n
 insx(VPCMPUB, vpcmpub,             OpCls( XMM,  XMM_M128, I8_U ),F_660F3A, 1,  no_WDS,0x3E,     0x00,     P_686|P_AVX,IZSZ|BSIZE|FVM, RWF_EVEX|RWF_VEX )
 
 //insx(VPCMPEQD,   vpcmpeqd,        OpCls( XMM,     XMM_M128, NONE), F_660F,   1,  no_WDS, 0x76,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPLTD,   vpcmpltd,        OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPLED,   vpcmpled,        OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPFALSED,vpcmpfalsed,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPNEQD,  vpcmpneqd,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPNLTD,  vpcmpnltd,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPNLED,  vpcmpnled,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
-insx(VPCMPTRUED, vpcmptrued,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPLTD,   vpcmpltd,        OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPLED,   vpcmpled,        OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPFALSED,vpcmpfalsed,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPNEQD,  vpcmpneqd,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPNLTD,  vpcmpnltd,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPNLED,  vpcmpnled,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
+insx(VPCMPTRUED, vpcmptrued,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
 
 insx(VPCMPEQUD,   vpcmpequd,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
 insx(VPCMPLTUD,   vpcmpltud,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
@@ -1697,58 +1697,58 @@ insx(VPCMPNLEUD,  vpcmpnleud,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,
 insx(VPCMPTRUEUD, vpcmptrueud,    OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,DSIZE|FV, RWF_VEX )
 //ins (PCMPEQQ, pcmpeqq,          OpCls( XMM,      XMM_M128, NONE ), F_660F38, 1,  no_WDS, 0x29,     0x00,       P_686|P_SSE4, 0)
 //insx(VPCMPEQQ,    vpcmpeqq,       OpCls( XMM,     XMM_M128, NONE), F_660F38, 1,  no_WDS, 0x29,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPLTQ,    vpcmpltq,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPLEQ,    vpcmpleq,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPFALSEQ, vpcmpfalseq,    OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPNEQQ,   vpcmpneqq,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPNLTQ,   vpcmpnltq,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPNLEQ,   vpcmpnleq,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPTRUEQ,  vpcmptrueq,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-
-insx(VPCMPEQUQ,   vpcmpequq,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPLTUQ,   vpcmpltuq,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPLEUQ,   vpcmpleuq,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPFALSEUQ,vpcmpfalseuq,   OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPNEQUQ,  vpcmpnequq,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPNLTUQ,  vpcmpnltuq,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPNLEUQ,  vpcmpnleuq,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
-insx(VPCMPTRUEUQ, vpcmptrueuq,    OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPLTQ,    vpcmpltq,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPLEQ,    vpcmpleq,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPFALSEQ, vpcmpfalseq,    OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPNEQQ,   vpcmpneqq,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPNLTQ,   vpcmpnltq,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPNLEQ,   vpcmpnleq,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPTRUEQ,  vpcmptrueq,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1F,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+
+insx(VPCMPEQUQ,   vpcmpequq,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPLTUQ,   vpcmpltuq,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPLEUQ,   vpcmpleuq,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPFALSEUQ,vpcmpfalseuq,   OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPNEQUQ,  vpcmpnequq,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPNLTUQ,  vpcmpnltuq,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPNLEUQ,  vpcmpnleuq,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
+insx(VPCMPTRUEUQ, vpcmptrueuq,    OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x1E,     0x00,       P_686|P_AVX,W1|QSIZE|FV, RWF_VEX )
 
 //insx(VPCMPEQW,    vpcmpeqw,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPLTW,    vpcmpltw,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPLEW,    vpcmplew,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPFALSEW, vpcmpfalsew,    OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPNEQW,   vpcmpneqw,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPNLTW,   vpcmpnltw,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPNLEW,   vpcmpnlew,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPTRUEW,  vpcmptruew,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-
-insx(VPCMPEQUW,   vpcmpequw,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPLTUW,   vpcmpltuw,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPLEUW,   vpcmpleuw,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPFALSEUW,vpcmpfalseuw,   OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPNEQUW,  vpcmpnequw,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPNLTUW,  vpcmpnltuw,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPNLEUW,  vpcmpnleuw,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
-insx(VPCMPTRUEUW, vpcmptrueuw,    OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPLTW,    vpcmpltw,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPLEW,    vpcmplew,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPFALSEW, vpcmpfalsew,    OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPNEQW,   vpcmpneqw,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPNLTW,   vpcmpnltw,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPNLEW,   vpcmpnlew,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPTRUEW,  vpcmptruew,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+
+insx(VPCMPEQUW,   vpcmpequw,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPLTUW,   vpcmpltuw,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPLEUW,   vpcmpleuw,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPFALSEUW,vpcmpfalseuw,   OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPNEQUW,  vpcmpnequw,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPNLTUW,  vpcmpnltuw,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPNLEUW,  vpcmpnleuw,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
+insx(VPCMPTRUEUW, vpcmptrueuw,    OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,W1|QSIZE|FVM, RWF_VEX )
 
 //insx(VPCMPEQB,   vpcmpeqb,        OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPLTB,   vpcmpltb,        OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPLEB,   vpcmpleb,        OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPFALSEB,vpcmpfalseb,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPNEQB,  vpcmpneqb,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPNLTB,  vpcmpnltb,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPNLEB,  vpcmpnleb,       OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPTRUEB, vpcmptrueb,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-
-insx(VPCMPEQUB,   vpcmpequb,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPLTUB,   vpcmpltub,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPLEUB,   vpcmpleub,      OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPFALSEUB,vpcmpfalseub,   OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPNEQUB,  vpcmpnequb,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPNLTUB,  vpcmpnltub,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPNLEUB,  vpcmpnleub,     OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
-insx(VPCMPTRUEUB, vpcmptrueub,    OpCls( XMM,     XMM_M128, NONE), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPLTB,   vpcmpltb,        OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPLEB,   vpcmpleb,        OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPFALSEB,vpcmpfalseb,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPNEQB,  vpcmpneqb,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPNLTB,  vpcmpnltb,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPNLEB,  vpcmpnleb,       OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPTRUEB, vpcmptrueb,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3F,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+
+insx(VPCMPEQUB,   vpcmpequb,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPLTUB,   vpcmpltub,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPLEUB,   vpcmpleub,      OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPFALSEUB,vpcmpfalseub,   OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPNEQUB,  vpcmpnequb,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPNLTUB,  vpcmpnltub,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPNLEUB,  vpcmpnleub,     OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
+insx(VPCMPTRUEUB, vpcmptrueub,    OpCls( XMM,     XMM_M128, HID ), F_660F3A, 1,  no_WDS, 0x3E,     0x00,       P_686|P_AVX,BSIZE|FVM, RWF_VEX )
 insx(VPERMD, vpermd,              OpCls( XMM,     XMM_M128, NONE), F_660F38, 1,  no_WDS, 0x36,     0x00,       P_686|P_AVX,DSIZE|FV,RWF_VEX )
 insx(VPERMW, vpermw,              OpCls( XMM,     XMM_M128, NONE), F_660F38, 1,  no_WDS, 0x8D,     0x00,       P_686|P_AVX,W1|IZSZ|WSIZE|FV,RWF_EVEX|RWF_VEX )
 insx(VPERMB, vpermb,              OpCls( XMM,     XMM_M128, NONE), F_660F38, 1,  no_WDS, 0x8D,     0x00,       P_686|P_AVX,IZSZ|BSIZE|FV,RWF_EVEX|RWF_VEX )
diff --git a/codegen.c b/codegen.c
index d5c4552..f8b6b5d 100644
--- a/codegen.c
+++ b/codegen.c
@@ -1174,7 +1174,8 @@ static void output_opc(struct code_info *CodeInfo)
             if (((CodeInfo->token <= T_VCOMPRESSPS))||((CodeInfo->token >= T_VCVTDQ2PD) &&
               (CodeInfo->token <= T_VCVTTSS2SI))|| (CodeInfo->token == T_VCVTPD2DQ)) 
               CodeInfo->evex_p2 &= ~EVEX_P1PPMASK;
-            if ((CodeInfo->token == T_VPCMPB) || (CodeInfo->token == T_VPCMPUB ))lbyte &= ~EVEX_P1WMASK;
+            if ((CodeInfo->token == T_VPCMPB) || (CodeInfo->token == T_VPCMPUB ) ||
+              (CodeInfo->token >= T_VPCMPLTB && CodeInfo->token <= T_VPCMPTRUEUB))lbyte &= ~EVEX_P1WMASK;
             if (CodeInfo->evex_flag){
               if ((CodeInfo->opnd[OPND2].type == OP_M64) || (CodeInfo->opnd[OPND1].type == OP_M64))
                 lbyte |= EVEX_P1WMASK;
@@ -2979,9 +2980,9 @@ static void output_3rd_operand( struct code_info *CodeInfo )
           OutputCodeByte((CodeInfo->token - T_VCMPEQPD) & 0x1F);
           return;
         }
-        else if (CodeInfo->token >= T_VPCMPEQD && CodeInfo->token <= T_VPCMPTRUED){
+        else if (CodeInfo->token >= T_VPCMPLTD && CodeInfo->token <= T_VPCMPTRUED){
           CodeInfo->opnd[OPND3].InsFixup = NULL;
-          OutputCodeByte((CodeInfo->token - T_VPCMPEQD) & 0x07);
+          OutputCodeByte((CodeInfo->token - T_VPCMPLTD) + 1);
           return;
         }
         else if (CodeInfo->token >= T_VPCMPEQUD && CodeInfo->token <= T_VPCMPTRUEUD){
@@ -2989,9 +2990,9 @@ static void output_3rd_operand( struct code_info *CodeInfo )
           OutputCodeByte((CodeInfo->token - T_VPCMPEQUD) & 0x07);
           return;
         }
-        else if (CodeInfo->token >= T_VPCMPEQQ && CodeInfo->token <= T_VPCMPTRUEQ){
+        else if (CodeInfo->token >= T_VPCMPLTQ && CodeInfo->token <= T_VPCMPTRUEQ){
           CodeInfo->opnd[OPND3].InsFixup = NULL;
-          OutputCodeByte((CodeInfo->token - T_VPCMPEQQ) & 0x07);
+          OutputCodeByte((CodeInfo->token - T_VPCMPLTQ) + 1);
           return;
         }
         else if (CodeInfo->token >= T_VPCMPEQUQ && CodeInfo->token <= T_VPCMPTRUEUQ){
@@ -2999,9 +3000,9 @@ static void output_3rd_operand( struct code_info *CodeInfo )
           OutputCodeByte((CodeInfo->token - T_VPCMPEQUQ) & 0x07);
           return;
         }
-        else if (CodeInfo->token >= T_VPCMPEQW && CodeInfo->token <= T_VPCMPTRUEW){
+        else if (CodeInfo->token >= T_VPCMPLTW && CodeInfo->token <= T_VPCMPTRUEW){
           CodeInfo->opnd[OPND3].InsFixup = NULL;
-          OutputCodeByte((CodeInfo->token - T_VPCMPEQW) & 0x07);
+          OutputCodeByte((CodeInfo->token - T_VPCMPLTW) + 1);
           return;
         }
         else if (CodeInfo->token >= T_VPCMPEQUW && CodeInfo->token <= T_VPCMPTRUEUW){
@@ -3009,9 +3010,9 @@ static void output_3rd_operand( struct code_info *CodeInfo )
           OutputCodeByte((CodeInfo->token - T_VPCMPEQUW) & 0x07);
           return;
         }
-        else if (CodeInfo->token >= T_VPCMPEQB && CodeInfo->token <= T_VPCMPTRUEB){
+        else if (CodeInfo->token >= T_VPCMPLTB && CodeInfo->token <= T_VPCMPTRUEB){
           CodeInfo->opnd[OPND3].InsFixup = NULL;
-          OutputCodeByte((CodeInfo->token - T_VPCMPEQB) & 0x07);
+          OutputCodeByte((CodeInfo->token - T_VPCMPLTB) + 1);
           return;
         }
         else if (CodeInfo->token >= T_VPCMPEQUB && CodeInfo->token <= T_VPCMPTRUEUB){
-- 
2.43.0


From 0ab24ba3fc491880bd0bba6fc22daa7b72f2252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 14/98] fix: 16-bit addresses of EVEX instructions, mask
 register results without EVEX enabled

---
 codegen.c | 7 +++++--
 parser.c  | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/codegen.c b/codegen.c
index f8b6b5d..c20bbec 100644
--- a/codegen.c
+++ b/codegen.c
@@ -124,6 +124,9 @@ uint_8 GetByteDisp(const struct code_info *CodeInfo)
     return n;
 }
 
+ /* a vector register as index always comes with 32- or 64-bit addresses */
+#define IS_VSIB( c ) ( (c)->indextype == OP_XMM || (c)->indextype == OP_YMM || (c)->indextype == OP_ZMM )
+
  /* Check if compressed displacement is available and stored it in comprdsp */
 bool Check4CompDisp8(const struct code_info *CodeInfo, int_8 *comprdsp,int *d, int disp)
 {
@@ -2664,7 +2667,7 @@ static void output_opc(struct code_info *CodeInfo)
         //   ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) )
         //    return; /* no SIB for 16bit */
         if ( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
-           ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 && CodeInfo->evex_flag == 0 ) )
+           ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 && !IS_VSIB( CodeInfo ) ) )
             return; /* no SIB for 16bit */
 
         switch ( tmp & NOT_BIT_345 ) {
@@ -2804,7 +2807,7 @@ static void output_data(const struct code_info *CodeInfo, enum operand_type dete
             break;
         case MOD_10:  /* 16- or 32-bit displacement */
             if( ( CodeInfo->Ofssize == USE16 && CodeInfo->prefix.adrsiz == 0 ) ||
-               ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 ) && (CodeInfo->evex_flag == 0)) {
+               ( CodeInfo->Ofssize == USE32 && CodeInfo->prefix.adrsiz == 1 && !IS_VSIB( CodeInfo ) )) {
                 size = 2;
             } else {
                 size = 4;
diff --git a/parser.c b/parser.c
index 0df8275..3d5a178 100644
--- a/parser.c
+++ b/parser.c
@@ -2138,9 +2138,13 @@ static ret_code process_register( struct code_info *CodeInfo, unsigned CurrOpnd,
 			return(EmitError(UNAUTHORISED_USE_OF_EVEX_REGISTERS));
 	}
 	/* a mask register is a result or a source of EVEX instructions only, apart from the KXXX instructions */
-	if (evex && CodeInfo->opnd[CurrOpnd].type == OP_K && CodeInfo->token >= VEX_START &&
+	if (CodeInfo->opnd[CurrOpnd].type == OP_K && CodeInfo->token >= VEX_START &&
 		!((CodeInfo->token >= T_KADDB && CodeInfo->token <= T_KMOVW) || (CodeInfo->token >= T_KTESTB && CodeInfo->token <= T_KTESTQ)))
+	{
+		if (!evex)
+			return(EmitError(UNAUTHORISED_USE_OF_EVEX_REGISTERS));
 		CodeInfo->evex_flag = TRUE;
+	}
 	if (CodeInfo->opnd[CurrOpnd].type == OP_K && regno > 7) 
 	{
 		return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
-- 
2.43.0


From ec3fb43e2bc25cef5b388f36bf7e92644b6be58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 15/98] fix: LENGTHOF of an embedded structure member

---
 types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.c b/types.c
index be9e008..9882f14 100644
--- a/types.c
+++ b/types.c
@@ -1116,6 +1116,7 @@ ret_code EndstructDirective( int i, struct asm_tok tokenarray[] )
         //sym->name = dir->sym.name;
         //sym->name_size = strlen( dir->sym.name );
         sym->total_size = dir->sym.total_size;
+        sym->total_length = 1;
         dir->sym.name = ""; /* the type becomes anonymous */
         dir->sym.name_size = 0;
     }
-- 
2.43.0


From 3c9d04cfb01db1091b9f85774a15ef8f082e120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 16/98] fix: range of record fields with 32 and more bits,
 128-bit records, record literals in instructions

---
 data.c     | 41 +++++++++++++++++++++++++++++++----------
 expreval.c | 43 +++++++++++++++----------------------------
 2 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/data.c b/data.c
index e5cb7a6..00bc765 100644
--- a/data.c
+++ b/data.c
@@ -105,13 +105,35 @@ static ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, cons
     } 
     else {
       orLo = orLo << pos;
-      num = num >> ~pos;
-      orHi |= num;
-    } 
+      if (pos)
+        orHi = num >> (0x40 - pos);
+    }
     *dstHi |= orHi;
     *dstLo |= orLo;
   }
 
+/* check the value for a RECORD field. The value's bits beyond the field are cleared,
+ * they are set only for negative numbers, which fields with 32 and more bits accept.
+ */
+bool CheckRecordValue( struct expr *opnd, const struct asym *field )
+  {
+    uint_64 max;
+
+    if ( opnd->kind != EXPR_CONST )
+        return( TRUE );
+    if ( field->total_size >= 64 )
+        return( field->total_size >= 128 || ( opnd->hlvalue >> ( field->total_size - 64 ) ) == 0 );
+    max = (uint_64)1 << field->total_size;
+    if ( opnd->hlvalue )
+        return( FALSE );
+    if ( opnd->llvalue >= max ) {
+        if ( field->total_size < 32 || opnd->value64 < -(int_64)( max >> 1 ) || opnd->value64 >= 0 )
+            return( FALSE );
+        opnd->llvalue &= max - 1;
+    }
+    return( TRUE );
+  }
+
 /* initialize an array inside a structure
  * if there are no brackets, the next comma, '>' or '}' will terminate
  *
@@ -313,7 +335,8 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
+                    opndx.hlvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
@@ -324,16 +347,14 @@ static ret_code InitStructuredVar( int index, struct asm_tok tokenarray[], const
             if ( opndx.kind != EXPR_CONST || opndx.quoted_string != NULL )
                 EmitError( CONSTANT_EXPECTED );
 
-            /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
-            if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
-                if ( opndx.value >= dwMax )
-                    EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
-            }
+            if ( CheckRecordValue( &opndx, &f->sym ) == FALSE )
+                EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
             if (symtype->sym.mem_type == MT_OWORD){
                 dwRecIHi = 0;  /* clear Hi 64 bit for the 128 bit RECORD */
                 dwRecILo = 0;  /* clear Lo 64 bit for the 128 bit RECORD */
                 ShiftLeft(&dwRecIHi,&dwRecILo,opndx.llvalue,f->sym.offset);
+                if ( f->sym.offset < 64 )
+                    dwRecIHi |= opndx.hlvalue << f->sym.offset;
                 dst128Hi |= dwRecIHi; /* OR Hi 64 bit for the 128 bit RECORD */
                 dst128Lo |= dwRecILo; /* clear Lo 64 bit for the 128 bit RECORD */
               }
diff --git a/expreval.c b/expreval.c
index 015b887..d1a86bc 100644
--- a/expreval.c
+++ b/expreval.c
@@ -78,6 +78,7 @@ static int evallvl = 0;
 #endif
 extern uint_32          GetCurrOffset( void );
 extern void ShiftLeft (uint_64 *dstHi, uint_64 *dstLo,uint_64 num, int pos);
+extern bool CheckRecordValue( struct expr *opnd, const struct asym *field );
 //extern ret_code data_item( int *, struct asm_tok[], struct asym *, uint_32, const struct asym *, uint_32, bool inside_struct, bool, bool, int );
 extern ret_code      BackPatch( struct asym *sym );
 /* the following static variables should be moved to ModuleInfo. */
@@ -263,8 +264,6 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
     char            buffer1[MAX_LINE_LEN];
     char            buff[16];
 	  int             tok_start = index - 1;
-	  int             len;
-	  char            *oldptr;
 
     /**/myassert( symtype->sym.state == SYM_TYPE && symtype->sym.typekind != TYPE_TYPEDEF );
     if ( tokenarray[index].token == T_STRING ) {
@@ -279,7 +278,8 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
          */
         index++;
 
-    } 
+    } else
+        return( EmitErr( SYNTAX_ERROR_EX, tokenarray[index].tokpos ) );
     if ( symtype->sym.typekind == TYPE_RECORD ) {
         dwRecInit = 0;
         dst128Hi = 0; /* clear Hi 64 bit for the 128 bit RECORD */
@@ -307,7 +307,8 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
                     EvalOperand( &j, tokenarray, max_item, &opndx, 0 );
                     is_record_set = TRUE;
                 } else {
-                    opndx.value = 0;
+                    opndx.llvalue = 0;
+                    opndx.hlvalue = 0;
                     opndx.kind = EXPR_CONST;
                     opndx.quoted_string = NULL;
                 }
@@ -318,17 +319,15 @@ static ret_code  InitRecordVar( struct expr *opnd1, int index, struct asm_tok to
             if ( opndx.kind != EXPR_CONST || opndx.quoted_string != NULL )
                 EmitError( CONSTANT_EXPECTED );
 
-            /* fixme: max bits in 64-bit is 64 - see MAXRECBITS! */
-            if ( f->sym.total_size < 32 ) {
-                uint_32 dwMax = (1 << f->sym.total_size);
-                if ( opndx.value >= dwMax )
-                    EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
-            }
+            if ( CheckRecordValue( &opndx, &f->sym ) == FALSE )
+                EmitErr( INITIALIZER_MAGNITUDE_TOO_LARGE, f->sym.name );
 #if AMD64_SUPPORT
             if (symtype->sym.mem_type == MT_OWORD){
                 dwRecIHi = 0;  /* clear Hi 64 bit for the 128 bit RECORD */
                 dwRecILo = 0;  /* clear Lo 64 bit for the 128 bit RECORD */
                 ShiftLeft(&dwRecIHi,&dwRecILo,opndx.llvalue,f->sym.offset);
+                if ( f->sym.offset < 64 )
+                    dwRecIHi |= opndx.hlvalue << f->sym.offset;
                 dst128Hi |= dwRecIHi; /* OR Hi 64 bit for the 128 bit RECORD */
                 dst128Lo |= dwRecILo; /* clear Lo 64 bit for the 128 bit RECORD */
               }
@@ -553,24 +552,12 @@ all:
         goto exit;
        }
      else{
-       strcpy(buffer, tokenarray->tokpos);
-       ptr = strstr(buffer, tokenarray[tok_start].string_ptr);
-       oldptr = ptr;
-       len = 0;
-       while (*ptr != '>')
-         {
-         ptr++;
-         len++;
-         }
-       ptr = tokenarray->tokpos + (oldptr - buffer);
-       for (i = 0; i <= len; i++)
-         *ptr++ = 0x20;
-       ptr = buffer;
-       sprintf(ptr, "0x%" PRIx64, dwRecInit);
-       oldptr = tokenarray->tokpos + (oldptr - buffer);
-       len = strlen(buffer);
-       for (i = 0; i < len; i++)
-         *oldptr++ = *ptr++;
+       /* replace the record's name and the literal by the value */
+       ptr = tokenarray[tok_start].tokpos;
+       strcpy(buffer, tokenarray[index].tokpos);
+       if (ptr - tokenarray->tokpos + strlen(buffer) + 20 > MAX_LINE_LEN)
+         return( EmitError( LINE_TOO_LONG ) );
+       sprintf(ptr, "0x%" PRIx64 " %s", dwRecInit, buffer);
        Token_Count = Tokenize(tokenarray->tokpos, 0, tokenarray, TOK_DEFAULT);
        goto exit;
        }
-- 
2.43.0


From fffbdc0e732eec9e67f2ca81221fb6975661d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 17/98] fix: macro lines with 256 parameter references or more
 than 37 parameters

---
 H/symbols.h |  2 +-
 macro.c     | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 6562c19..43e453c 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -446,7 +446,7 @@ struct mparm_list {
 
 struct srcline {
     struct srcline      *next;
-    uint_8              ph_count; /* placeholders contained in this line */
+    uint_16             ph_count; /* placeholders contained in this line */
     char                line[1];
 };
 
diff --git a/macro.c b/macro.c
index 10c9fd2..c36b7eb 100644
--- a/macro.c
+++ b/macro.c
@@ -121,7 +121,7 @@ static char * replace_parm( const char *line, char *start, int len, struct mname
 /*********************************************************************************************/
 {
     /* scan list of macro paras/locals if current word is found.
-     * - line: current line
+     * - line: current line, behind the last placeholder
      * - start: start 'current word' in line
      * - len: size current word
      * - mnames: list of macro params+locals
@@ -183,6 +183,7 @@ static int store_placeholders( char *line, struct mname_list *mnames )
      */
     char *p;
     char *start;
+    char *last = line; /* end of the last placeholder stored */
     char quote = NULLC;
     int brlevel = 0;
     int params = 0; /* number of replacements in this line */
@@ -206,12 +207,14 @@ static int store_placeholders( char *line, struct mname_list *mnames )
             start = p++;
             while ( is_valid_id_char( *p )) p++;
             /* v2.08: both a '&' before AND after the name trigger substitution (and disappear) */
-            substprf = ( ( start > line && *(start-1) == '&') || *p == '&' );
+            /* the char before the ID may be the index field of a placeholder, which isn't text */
+            substprf = ( ( start > last && *(start-1) == '&') || *p == '&' );
             if ( quote == NULLC || substprf ) {
                 /* look for this word in the macro parms, and replace it if it is */
-                if ( start = replace_parm( line, start, p - start, mnames ) ) {
+                if ( start = replace_parm( last, start, p - start, mnames ) ) {
                     params++;
                     p = start;
+                    last = start;
                 }
             }
         } else {
@@ -582,7 +585,7 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
          */
         if( store_data ) {
             int j;
-            uint_8 phs = 0;
+            uint_16 phs = 0;
             if ( mindex )
                 phs = store_placeholders( src, mnames );
             j = strlen( src );
@@ -916,7 +919,7 @@ ret_code StoreAutoMacro(struct dsym *macro, int i, struct asm_tok tokenarray[],
 		*/
 		if (store_data) {
 			int j;
-			uint_8 phs = 0;
+			uint_16 phs = 0;
 			if (mindex)
 				phs = store_placeholders(src, mnames);
 			j = strlen(src);
-- 
2.43.0


From 28772a529353581c7ec78dcfb6e0ee2a8eeae6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 18/98] fix: size of the token and string buffers for nested
 macro functions

---
 H/globals.h | 4 ++--
 input.c     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/H/globals.h b/H/globals.h
index bf4774f..0085ab1 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -66,8 +66,8 @@
 #endif
 
 #define MAX_LINE_LEN            1024 /* no restriction for this number */
-#define MAX_TOKEN               MAX_LINE_LEN - 32 /* max tokens in one line */
-#define MAX_STRING_LEN          MAX_LINE_LEN - 32 /* must be < MAX_LINE_LEN */
+#define MAX_TOKEN               ( MAX_LINE_LEN - 32 ) /* max tokens in one line */
+#define MAX_STRING_LEN          ( MAX_LINE_LEN - 32 ) /* must be < MAX_LINE_LEN */
 #define MAX_ID_LEN              247  /* must be < MAX_LINE_LEN */
 #define MAX_STRUCT_ALIGN        64
 #define MAX_SEGMENT_ALIGN       4096 /* maximum alignment/packing setting for segments */
diff --git a/input.c b/input.c
index b92720c..f40a3ac 100644
--- a/input.c
+++ b/input.c
@@ -798,7 +798,8 @@ static void GetFileCur( struct asym *sym )
 #else
 #define SIZE_SRCLINES     ( MAX_LINE_LEN * ( MAX_MACRO_NESTING + 1 ) )
 #define SIZE_TOKENARRAY   ( sizeof( struct asm_tok ) * MAX_TOKEN * MAX_MACRO_NESTING )
-#define SIZE_STRINGBUFFER ( MAX_LINE_LEN * MAX_MACRO_NESTING )
+/* token strings are pointer-aligned, and a line may be tokenized again when it is expanded */
+#define SIZE_STRINGBUFFER ( MAX_LINE_LEN * sizeof(void *) * 2 * MAX_MACRO_NESTING )
 #endif
 
 /* PushInputStatus() is used whenever a macro or generated code is to be "executed".
-- 
2.43.0


From 418e666c95a6a5ec2217209982af736188a72f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 19/98] fix: bound macro parameter counts and text expansions

---
 expans.c | 34 +++++++++++++++++++++++++++++++---
 macro.c  | 19 ++++++++++++++++++-
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/expans.c b/expans.c
index 73f5e3c..b215524 100644
--- a/expans.c
+++ b/expans.c
@@ -36,6 +36,7 @@
  */
 #define TEVALUE_UNSIGNED 1
 #define MAX_TEXTMACRO_NESTING 20
+#define MAX_TMACRO_EXPANSIONS 0x10000 /* subsequent expansions of one item */
 
 extern char *GetMacroLine( struct macro_instance *, char * );
 
@@ -162,7 +163,7 @@ static void SkipMacro( struct asm_tok tokenarray[] )
 #ifdef __I86__
 #define PARMSTRINGSIZE ( MAX_LINE_LEN + 16 )
 #else
-#define PARMSTRINGSIZE ( MAX_LINE_LEN * 2 )
+#define PARMSTRINGSIZE ( MAX_LINE_LEN * 4 )
 #endif
 
 /* run a macro.
@@ -304,6 +305,14 @@ int RunMacro( struct dsym *macro, int idx, struct asm_tok tokenarray[], char *ou
 
             for( ptr = currparm; ( tokenarray[idx].token != T_FINAL && tokenarray[idx].token != T_COMMA ) || inside_literal; idx++ ) {
 
+                /* each item may add up to MAX_LINE_LEN chars */
+                if ( ptr > parmstrings + PARMSTRINGSIZE - MAX_LINE_LEN - 16 ) {
+                    EmitErr( EXPANDED_LINE_TOO_LONG, tokenarray[0].tokpos );
+                    Token_Count = old_tokencount;
+                    StringBufferEnd = savedStringBuffer;
+                    return( -1 );
+                }
+
                 /* if were're inside a literal, go up one level and continue scanning the argument */
                 if ( tokenarray[idx].token == T_FINAL ) {
                     idx = tokenarray[idx].lastidx; /* restore token index */
@@ -882,11 +891,15 @@ ret_code ExpandText( char *line, struct asm_tok tokenarray[], unsigned int subst
         DebugMsg1(("ExpandText(line=>%s<, subst=%u ) enter\n", line, substitute ));
     sp[0] = line;
     pDst = StringBufferEnd;
-    StringBufferEnd += MAX_LINE_LEN;
+    StringBufferEnd += MAX_LINE_LEN * 2; /* a macro function may add MAX_LINE_LEN chars before the length is checked */
     rc = NOT_ERROR;
     for ( lvl = 0; lvl >= 0; lvl-- ) {
         pSrc = sp[lvl];
         while ( *pSrc ) {
+            if ( pDst - old_stringbufferend + MAX_ID_LEN >= MAX_LINE_LEN && ( pDst - old_stringbufferend + strlen( pSrc ) >= MAX_LINE_LEN ) ) {
+                StringBufferEnd = old_stringbufferend;
+                return( EmitErr( EXPANDED_LINE_TOO_LONG, line ) );
+            }
             if( is_valid_id_first_char( *pSrc ) && ( substitute != 0 || quoted_string == 0 ) ) {
                 pIdent = pDst;
                 do {
@@ -1023,7 +1036,9 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
     bool is_exitm;
     struct asym *sym;
     //char lvalue[MAX_LINE_LEN];    /* holds literal value */
-    char buffer[MAX_LINE_LEN];
+    char *old_stringbufferend = StringBufferEnd;
+    unsigned cnt = 0;
+    char buffer[MAX_LINE_LEN * 2]; /* a macro function may add MAX_LINE_LEN chars before the length is checked */
 
     DebugMsg1(("ExpandTMacro(text=>%s< equm=%u lvl=%u) enter\n", outbuf, equmode, level ));
 
@@ -1033,6 +1048,11 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
 
     while ( expanded == TRUE ) {
         i = old_tokencount + 1;
+        StringBufferEnd = old_stringbufferend; /* the tokens of the previous scan aren't needed anymore */
+        if ( ++cnt > MAX_TMACRO_EXPANSIONS ) {
+            Token_Count = old_tokencount;
+            return( EmitError( MACRO_NESTING_LEVEL_TOO_DEEP ) );
+        }
         Token_Count = Tokenize( outbuf, i, tokenarray, TOK_RESCAN );
         expanded = FALSE;
         for ( ; i < Token_Count; i++ ) {
@@ -1050,6 +1070,10 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
                         return( ERROR );
                     }
                     DebugMsg1(("ExpandTMacro(%u): repl >%s()< by >%s<\n", level, sym->name, buffer+len ));
+                    if ( len + strlen( buffer+len ) + strlen( tokenarray[i].tokpos ) >= MAX_LINE_LEN ) {
+                        Token_Count = old_tokencount;
+                        return( EmitErr( EXPANDED_LINE_TOO_LONG, outbuf ) );
+                    }
                     strcat( buffer+len, tokenarray[i].tokpos );
                     strcpy( outbuf, buffer );
                     expanded = TRUE;
@@ -1071,6 +1095,10 @@ static ret_code ExpandTMacro( char * const outbuf, struct asm_tok tokenarray[],
                         p = tokenarray[i].tokpos + sym->name_size;
                     //else
                     //    p = tokenarray[i+1].tokpos;
+                    if ( len + strlen( buffer+len ) + strlen( p ) >= MAX_LINE_LEN ) {
+                        Token_Count = old_tokencount;
+                        return( EmitErr( EXPANDED_LINE_TOO_LONG, outbuf ) );
+                    }
                     strcat( buffer+len, p );
                     strcpy( outbuf, buffer );
                     expanded = TRUE;
diff --git a/macro.c b/macro.c
index c36b7eb..e339009 100644
--- a/macro.c
+++ b/macro.c
@@ -81,6 +81,7 @@ void fill_placeholders( char *dst, const char *src, unsigned argc, unsigned loca
 {
     uint_32 i;
     const char *p;
+    char *start = dst;
     unsigned parmno;
 
     /* scan the string, replace the placeholders #nn */
@@ -92,6 +93,8 @@ void fill_placeholders( char *dst, const char *src, unsigned argc, unsigned loca
             p++;
             /* if parmno > argc, then it's a macro local */
             if ( parmno >= argc ) {
+                if ( dst - start >= MAX_LINE_LEN - 10 )
+                    goto toolong;
                 *dst++ = '?';
                 *dst++ = '?';
                 i = localstart + parmno - argc;
@@ -106,15 +109,24 @@ void fill_placeholders( char *dst, const char *src, unsigned argc, unsigned loca
                 }
             } else if ( argv[parmno] ) {  /* actual parameter might be empty (=NULL) */
                 i = strlen( argv[parmno] );
+                if ( dst - start + i >= MAX_LINE_LEN )
+                    goto toolong;
                 memcpy( dst, argv[parmno], i );
                 dst += i;
             }
         } else {
+            if ( dst - start >= MAX_LINE_LEN - 1 )
+                goto toolong;
             *dst++ = *p++;
         }
     }
     *dst = NULLC;
     return;
+toolong:
+    *dst = NULLC;
+    EmitErr( EXPANDED_LINE_TOO_LONG, start );
+    *start = NULLC;
+    return;
 }
 
 static char * replace_parm( const char *line, char *start, int len, struct mname_list *mnames )
@@ -302,7 +314,7 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
     struct line_status  ls;
     struct asm_tok      tok[2];
     struct mname_list   mnames[MAX_PLACEHOLDERS]; /* there are max 255 placeholders */
-    char                buffer[MAX_LINE_LEN];
+    char                buffer[MAX_LINE_LEN * 2]; /* a one-char name is replaced by a two-byte placeholder */
 
     DebugMsg1(("StoreMacro(%s, i=%u, store_data=%u) enter, params=>%s<\n", macro->sym.name, i, store_data, tokenarray[i].tokpos ));
     info = macro->e.macroinfo;
@@ -335,6 +347,11 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
             paranode->deflt = NULL;
             paranode->required = FALSE;
 
+            if ( mindex == ( MAX_PLACEHOLDERS - 1 ) ) {
+                EmitError( TOO_MANY_MACRO_PLACEHOLDERS );
+                break;
+            }
+
             /* first get the parm. name */
             j = strlen( token );
             mnames[mindex].label = token;
-- 
2.43.0


From 75860613ce475a566843a16beae4df083102f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 20/98] fix: ALIGN above the segment's alignment dereferenced a
 missing FLAT group

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 4715024..4ab1363 100644
--- a/posndir.c
+++ b/posndir.c
@@ -252,7 +252,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
     }
     if( align_value > seg_align ) {
         if (( Parse_Pass == PASS_1 )&&                   //We need 32 0r 64 bit for VEX and EVEX
-          (ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
+          (ModuleInfo.flat_grp == NULL || ModuleInfo.flat_grp->sym.isdefined == FALSE)) //No warning if "FLAT"
 		if ( Parse_Pass == PASS_1 && ModuleInfo.Ofssize != USE64 )
             EmitWarn( 1, ALIGN_TOO_HIGH, myltoa( align_value, buffer, 10, FALSE, FALSE ) );
         //return( ERROR ); /* v2.0: don't exit */
-- 
2.43.0


From 366e6f9cbcc97ef20a8d7ce8f49d0c3e403e9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 21/98] fix: ALIGN with a non power of 2 above 40000000h never
 returned

---
 posndir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posndir.c b/posndir.c
index 4ab1363..a33bfcd 100644
--- a/posndir.c
+++ b/posndir.c
@@ -216,7 +216,7 @@ ret_code AlignDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.kind == EXPR_CONST ) {
             int_32 power;
             /* check that the parm is a power of 2 */
-            for( power = 1; power < align_value; power <<= 1 );
+            for( power = 1; power < align_value && power < 0x40000000; power <<= 1 );
             if( power != align_value ) {
                 return( EmitErr( POWER_OF_2, align_value ) );
             }
-- 
2.43.0


From e9b7e568fb6eb629f855a2615c9b4804168b5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 22/98] fix: INCBIN overflowed the LEDATA buffer in OMF output

---
 assemble.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/assemble.c b/assemble.c
index 4c9e6e2..040ed97 100644
--- a/assemble.c
+++ b/assemble.c
@@ -274,7 +274,15 @@ void OutputByte( unsigned char byte )
 /* Added 2.14: to accelerate bulk writing of incbin data */
 void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 {
-	int i;
+	uint_32 i;
+
+	/* OMF: the buffer holds one LEDATA record only, it's flushed by OutputByte() */
+	if (Options.output_format == OFORMAT_OMF)
+	{
+		for (i = 0; i < len; i++)
+			OutputByte(*(pBytes++));
+		return;
+	}
 
 	if (write_to_file == TRUE) {
 		uint_32 idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
@@ -284,10 +292,6 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 		}
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && idx >= MAX_LEDATA_THRESHOLD) {
-			omf_FlushCurrSeg();
-			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
-		}
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
 		for (i = 0; i < len; i++)
 		{
-- 
2.43.0


From 7cf8d90f92757d498a83f740363ff69f0413c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 23/98] fix: ELF output of a segment that has space but no
 initialized bytes crashed

---
 elf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elf.c b/elf.c
index e0821e1..474cd58 100644
--- a/elf.c
+++ b/elf.c
@@ -1228,7 +1228,7 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
     for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
         size = curr->sym.max_offset - curr->e.seginfo->start_loc;
         DebugMsg(("elf_write_data(%s): program data at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->fileoffset, size ));
-        if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 ) {
+        if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 && curr->e.seginfo->CodeBuffer ) {
             fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET );
             /**/myassert( curr->e.seginfo->CodeBuffer );
             if ( fwrite( curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ] ) != size )
-- 
2.43.0


From 313edac7f9b779a846a97baff836d58950404bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:55 +0000
Subject: [PATCH 24/98] fix: wide strings overflowed the LEDATA buffer in OMF
 output

---
 assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assemble.c b/assemble.c
index 040ed97..799a275 100644
--- a/assemble.c
+++ b/assemble.c
@@ -421,7 +421,7 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 			_asm int 3;
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
-		if (Options.output_format == OFORMAT_OMF && ((idx + len) > MAX_LEDATA_THRESHOLD)) {
+		if (Options.output_format == OFORMAT_OMF && ((idx + len*2) > MAX_LEDATA_THRESHOLD)) {
 			omf_FlushCurrSeg();
 			idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
 		}
-- 
2.43.0


From 375b95813c095ca4fcb04bd87897a7f7e1ac036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 25/98] fix: a segment that grows by more than 25% in pass 2
 overflowed the code buffer

---
 H/symbols.h |  1 +
 assemble.c  | 24 +++++++++++++++++++-----
 segment.c   | 12 ++++++++----
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/H/symbols.h b/H/symbols.h
index 43e453c..0853c01 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -317,6 +317,7 @@ struct seg_info {
 #else
     uint_8              *CodeBuffer;
 #endif
+    uint_32             CodeBufferSize; /* size of CodeBuffer in this pass; not used for OMF */
     uint_32             bytes_written;  /* initialized bytes in segment */
     union {
         struct asym     *label_list;    /* linked list of labels in this seg */
diff --git a/assemble.c b/assemble.c
index 799a275..ee36608 100644
--- a/assemble.c
+++ b/assemble.c
@@ -234,6 +234,17 @@ char *ConvertSectionName( const struct asym *sym, enum seg_type *pst, char *buff
 }
 #endif
 
+/* true if <len> bytes at index <idx> fit into the segment's buffer. If a segment grows in
+ * pass 2-n, the rest isn't stored until the next pass, for which a larger buffer is used.
+ */
+static bool FitsBuffer( const struct dsym *seg, uint_32 idx, uint_32 len )
+/************************************************************************/
+{
+    if ( Options.output_format == OFORMAT_OMF || seg->e.seginfo->internal )
+        return( TRUE );
+    return( len <= seg->e.seginfo->CodeBufferSize && idx <= seg->e.seginfo->CodeBufferSize - len );
+}
+
 /* Write a byte to the segment buffer.
  * in OMF, the segment buffer is flushed when the max. record size is reached.
  */
@@ -253,7 +264,8 @@ void OutputByte( unsigned char byte )
             idx = CurrSeg->e.seginfo->current_loc - CurrSeg->e.seginfo->start_loc;
         }
         //DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
-        CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
+        if ( FitsBuffer( CurrSeg, idx, 1 ) )
+            CurrSeg->e.seginfo->CodeBuffer[idx] = byte;
     }
 #if 1
     /* check this in pass 1 only */
@@ -293,7 +305,7 @@ void OutputBinBytes(unsigned char* pBytes, uint_32 len)
 #endif
 		/**/myassert(CurrSeg->e.seginfo->current_loc >= CurrSeg->e.seginfo->start_loc);
 		//DebugMsg(("OutputByte: buff=%p, idx=%" I32_SPEC "X, byte=%X, codebuff[0]=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, byte, *CurrSeg->e.seginfo->CodeBuffer ));
-		for (i = 0; i < len; i++)
+		for (i = 0; i < len && FitsBuffer(CurrSeg, idx, 1); i++)
 		{
 			CurrSeg->e.seginfo->CodeBuffer[idx++] = *(pBytes++);
 		}
@@ -351,7 +363,8 @@ void OutputSegmentBytes(struct dsym* segg, const unsigned char *pbytes, int len,
 		if (fixup)
 			store_fixup(fixup, segg, (int_32 *)pbytes);
 		//DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
-		memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
+		if (FitsBuffer(segg, idx, len))
+			memcpy(&segg->e.seginfo->CodeBuffer[idx], pbytes, len);
 	}
 #if 1
 	/* check this in pass 1 only */
@@ -390,7 +403,8 @@ void OutputBytes( const unsigned char *pbytes, int len, struct fixup *fixup )
         if ( fixup )
             store_fixup( fixup, CurrSeg, (int_32 *)pbytes );
         //DebugMsg(("OutputBytes: buff=%p, idx=%" I32_SPEC "X, byte=%X\n", CurrSeg->e.seginfo->CodeBuffer, idx, *pbytes ));
-        memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
+        if ( FitsBuffer( CurrSeg, idx, len ) )
+            memcpy( &CurrSeg->e.seginfo->CodeBuffer[idx], pbytes, len );
     }
 #if 1
     /* check this in pass 1 only */
@@ -428,7 +442,7 @@ void OutputInterleavedBytes(const unsigned char *pbytes, int len, struct fixup *
 		if (fixup)
 			store_fixup(fixup, CurrSeg, (int_32 *)pbytes);
 		pOut = &CurrSeg->e.seginfo->CodeBuffer[idx];
-		for (i = 0; i < len*2; i++)
+		for (i = 0; i < len*2 && FitsBuffer(CurrSeg, idx, len*2); i++)
 		{
 			if (i % 2 == 1)
 				*pOut++ = 0;
diff --git a/segment.c b/segment.c
index 26f7a63..90a6807 100644
--- a/segment.c
+++ b/segment.c
@@ -1181,8 +1181,9 @@ void SegmentInit( int pass )
     /*
      * alloc a buffer for the contents
      */
-    if ( ModuleInfo.pCodeBuff == NULL && Options.output_format != OFORMAT_OMF ) {
-        for( curr = SymTables[TAB_SEG].head, buffer_size = 0; curr; curr = curr->next ) {
+    if ( pass != PASS_1 && Options.output_format != OFORMAT_OMF ) {
+        uint_32 needed;
+        for( curr = SymTables[TAB_SEG].head, needed = 0; curr; curr = curr->next ) {
             if ( curr->e.seginfo->internal )
                 continue;
             if ( curr->e.seginfo->bytes_written ) {
@@ -1194,10 +1195,12 @@ void SegmentInit( int pass )
                  */
                 if ( curr->e.seginfo->segtype == SEGTYPE_CODE )
                     i = i + (i >> 2);
-                buffer_size += i;
+                needed += i;
             }
         }
-        if ( buffer_size ) {
+        /* segments may have grown in the previous pass: the old buffer may be too small */
+        if ( needed > buffer_size || ( needed && ModuleInfo.pCodeBuff == NULL ) ) {
+            buffer_size = needed;
             ModuleInfo.pCodeBuff = LclAlloc( buffer_size );
         }
     }
@@ -1214,6 +1217,7 @@ void SegmentInit( int pass )
             } else {
                 curr->e.seginfo->CodeBuffer = p;
                 i = curr->sym.max_offset - curr->e.seginfo->start_loc;
+                curr->e.seginfo->CodeBufferSize = i;
                 p += i;
             }
         }
-- 
2.43.0


From 7ba62fe7006012f5614aba441df8cce689dc77e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 26/98] fix: a forward BND jump of exactly 127 bytes was not
 encoded short

---
 branch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/branch.c b/branch.c
index e605d71..3d367f3 100644
--- a/branch.c
+++ b/branch.c
@@ -635,5 +635,8 @@ ret_code process_branch( struct code_info *CodeInfo, unsigned CurrOpnd, const st
         }
     } /* end switch (CodeInfo->token) */
     CodeInfo->opnd[OPND1].InsFixup = CreateFixup( sym, fixup_type, fixup_option );
+    /* the BND prefix is in front of the opcode; take care of it when the distance is calculated in DoPatch() */
+    if ( CodeInfo->prefix.ins == T_BND )
+        CodeInfo->opnd[OPND1].InsFixup->locofs++;
     return( NOT_ERROR );
 }
-- 
2.43.0


From 5339cb19228bffa514c2239dc9ff6cfeaa27ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 27/98] fix: shift by immediate with a memory operand without
 base register crashed

---
 parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.c b/parser.c
index 3d5a178..e893d94 100644
--- a/parser.c
+++ b/parser.c
@@ -3798,6 +3798,9 @@ dataInProc:
 							CodeInfo.vexregop = opndx[OPND1].base_reg->bytval + 1;
 							memcpy(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
 							CodeInfo.rm_byte = 0;
+							/* the operand may be a memory operand without base register */
+							if (opndx[OPND1].base_reg == NULL)
+								return(EmitErr(INVALID_INSTRUCTION_OPERANDS));
 							if (process_register(&CodeInfo, OPND1, opndx) == ERROR)
 								return(ERROR);
 						}
-- 
2.43.0


From 5fc1257a24cb5cbf4abc7d2925b795fad04b9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 28/98] fix: ELF lost the addend of self-relative references

---
 fixup.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixup.c b/fixup.c
index 2d20a7b..f5fa396 100644
--- a/fixup.c
+++ b/fixup.c
@@ -252,12 +252,12 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
             } else
 #endif
             if ( fixup->type == FIX_RELOFF32 )
-                *pdata = -4;
+                *pdata -= 4;
 #if GNURELOCS /* v2.04: added */
             else if ( fixup->type == FIX_RELOFF16 )
-                *pdata = -2;
+                *pdata -= 2;
             else if ( fixup->type == FIX_RELOFF8 )
-                *pdata = -1;
+                *pdata -= 1;
 #endif
         }
 #endif
-- 
2.43.0


From 90161b12c2983ed47b8b1cce5abae064a5e5dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 29/98] fix: HIGH of a relocatable address was wrong in OMF

---
 expreval.c | 2 ++
 fixup.c    | 5 ++++-
 omffixup.c | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/expreval.c b/expreval.c
index d1a86bc..75f1f0c 100644
--- a/expreval.c
+++ b/expreval.c
@@ -2349,6 +2349,8 @@ static ret_code high_op( int oper, struct expr *opnd1, struct expr *opnd2, struc
 #endif
         opnd1->instr = T_HIGH;
         opnd1->mem_type = MT_EMPTY;
+        /* the displacement is part of the address: its low byte may cause a carry */
+        return( NOT_ERROR );
     }
     opnd1->value = opnd1->value >> 8;
     opnd1->llvalue &= 0xff;
diff --git a/fixup.c b/fixup.c
index f5fa396..18f478b 100644
--- a/fixup.c
+++ b/fixup.c
@@ -227,7 +227,10 @@ void store_fixup( struct fixup *fixup, struct dsym *seg, int_32 *pdata )
     if ( Options.output_format == OFORMAT_OMF ) {
 
         /* for OMF, the target's offset is stored at the fixup's location. */
-        if( fixup->type != FIX_SEG && fixup->sym ) {
+        if( fixup->type == FIX_HIBYTE ) {
+            /* except for HIGH: there the target's offset is stored in the fixup subrecord */
+            *pdata = 0;
+        } else if( fixup->type != FIX_SEG && fixup->sym ) {
             *pdata += fixup->sym->offset;
         }
 
diff --git a/omffixup.c b/omffixup.c
index 61c8f77..40ed03a 100644
--- a/omffixup.c
+++ b/omffixup.c
@@ -422,6 +422,12 @@ unsigned OmfFixGenFix( const struct fixup *fixup, uint_32 start_loc, uint_8 *buf
     if ( omf_fill_logref( fixup, &lr ) == 0 )
         return( 0 );
 
+    /* the byte at the location can't hold the displacement for HIGH: it must be explicit */
+    if ( fixup->type == FIX_HIBYTE ) {
+        lr.target &= TARGET_WITH_DISPL;
+        lr.target_offset = fixup->offset + ( fixup->sym ? fixup->sym->offset : 0 );
+    }
+
     /* magnitude of fixup's position is 10! */
     /**/myassert( fixup->locofs - start_loc < 1024 );
 
-- 
2.43.0


From bae6cef0afc96624e50e8fcfef0cc9f79fe5f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 30/98] fix: Mach-O sections without uninitialized data, unused
 externals in the symbol count, wrong relocation types

---
 macho64.c | 59 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/macho64.c b/macho64.c
index bcba4b9..0a4568f 100644
--- a/macho64.c
+++ b/macho64.c
@@ -242,7 +242,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	{
 		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
 		{
-			if (sym->state == SYM_EXTERNAL)
+			if (sym->state == SYM_EXTERNAL && (sym->used || sym->ispublic)) /* same condition as below, when the entries are written */
 			{
 				tblSize += strlen(sym->name) + 1;
 				pstr = malloc(sizeof(struct strentry));
@@ -433,8 +433,8 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 			currSec = macho_build_section("__text", "__TEXT", S_REGULAR, curr->sym.name);
 			macho_add_section(currSec, &mm);
 			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written,mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
+			currSec->size = ROUND_UP(curr->sym.max_offset - curr->e.seginfo->start_loc, mm.sectAlign);
+			currSec->dif = currSec->size - (curr->sym.max_offset - curr->e.seginfo->start_loc);
 			currSec->section.size = currSec->size;
 			currSec->section.addr = currAddr;
 			currAddr += currSec->size;
@@ -451,8 +451,8 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 			currSec = macho_build_section("__data", "__DATA", S_REGULAR, curr->sym.name);
 			macho_add_section(currSec, &mm);
 			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
+			currSec->size = ROUND_UP(curr->sym.max_offset - curr->e.seginfo->start_loc, mm.sectAlign);
+			currSec->dif = currSec->size - (curr->sym.max_offset - curr->e.seginfo->start_loc);
 			currSec->section.size = currSec->size;
 			currSec->section.addr = currAddr;
 			currAddr += currSec->size;
@@ -468,8 +468,8 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 			currSec = macho_build_section("_rdata", "__DATA", S_REGULAR, curr->sym.name);
 			macho_add_section(currSec, &mm);
 			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
+			currSec->size = ROUND_UP(curr->sym.max_offset - curr->e.seginfo->start_loc, mm.sectAlign);
+			currSec->dif = currSec->size - (curr->sym.max_offset - curr->e.seginfo->start_loc);
 			currSec->section.size = currSec->size;
 			currSec->section.addr = currAddr;
 			currAddr += currSec->size;
@@ -485,8 +485,8 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 			currSec = macho_build_section("__bss", "__DATA", S_ZEROFILL, curr->sym.name);
 			macho_add_section(currSec, &mm);
 			currSec->data = curr->e.seginfo->CodeBuffer;
-			currSec->size = ROUND_UP(curr->e.seginfo->bytes_written, mm.sectAlign);
-			currSec->dif = currSec->size - curr->e.seginfo->bytes_written;
+			currSec->size = ROUND_UP(curr->sym.max_offset - curr->e.seginfo->start_loc, mm.sectAlign);
+			currSec->dif = currSec->size - (curr->sym.max_offset - curr->e.seginfo->start_loc);
 			currSec->section.size = currSec->size;
 			currSec->section.addr = currAddr;
 			currAddr = ROUND_UP(currAddr, mm.sectAlign);
@@ -520,7 +520,8 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	{
 		currSec->section.offset = fileofs + sectionDataSize;
 		currSec->ofs = fileofs + sectionDataSize;
-		sectionDataSize += currSec->size;
+		if ((currSec->section.flags & 0xff) != S_ZEROFILL) /* takes no space in the file */
+			sectionDataSize += currSec->size;
 	}
 	pCmd->fileoff = mm.sections->section.offset; // Set segment command file offset = first section offset.
 
@@ -573,9 +574,21 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	if (fwrite(pdySymCmd, 1, sizeof(struct dysymtab_command), CurrFile[OBJ]) != sizeof(struct dysymtab_command))
 		WriteError();
 
+	/* A self-relative field is relative to its own end. What's behind it - the immediate operand - goes to the addend. */
+	for (seg = SymTables[TAB_SEG].head; seg; seg = seg->next)
+	{
+		for (currFixup = seg->e.seginfo->FixupList.head; currFixup; currFixup = currFixup->nextrlc)
+		{
+			if (currFixup->type == FIX_RELOFF32 && currFixup->addbytes > 4 && seg->e.seginfo->CodeBuffer)
+				*(int_32 *)(seg->e.seginfo->CodeBuffer + (currFixup->locofs - seg->e.seginfo->start_loc)) -= currFixup->addbytes - 4;
+		}
+	}
+
 	/* Write out the section data */
 	for (currSec = mm.sections;currSec;currSec = currSec->next)
 	{
+		if ((currSec->section.flags & 0xff) == S_ZEROFILL)
+			continue;
 		if (fwrite(currSec->data, 1, currSec->size-currSec->dif, CurrFile[OBJ]) != currSec->size-currSec->dif)
 			WriteError();
 		if (currSec->dif > 0)
@@ -608,13 +621,15 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 						reloc.r_symbolnum = currSec->idx;
 						reloc.r_pcrel = 1;
 					}
-					if (currFixup->type == FIX_RELOFF32 && currFixup->addbytes == 4 && currFixup->option == OPTJ_NONE)
+					if (currFixup->type == FIX_RELOFF32 && (currFixup->option == OPTJ_EXPLICIT || currFixup->option == OPTJ_CALL || currFixup->option == OPTJ_JXX))
 					{
-						machotype = X86_64_RELOC_SIGNED;
+						machotype = X86_64_RELOC_BRANCH;
 					}
-					else if (currFixup->type == FIX_RELOFF32 && (currFixup->option == OPTJ_EXPLICIT || currFixup->option == OPTJ_CALL || currFixup->option == OPTJ_JXX))
+					else if (currFixup->type == FIX_OFF64 || currFixup->type == FIX_OFF32)
 					{
-						machotype = X86_64_RELOC_BRANCH;
+						/* an address */
+						machotype = X86_64_RELOC_UNSIGNED;
+						reloc.r_pcrel = 0;
 					}
 					else
 					{
@@ -622,19 +637,21 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 					}
 	
 					reloc.r_type = machotype;
-					switch (currFixup->addbytes)
+					switch (currFixup->type)
 					{
-						case 8:
+						case FIX_OFF64:
 							reloc.r_length = 3;
 							break;
-						case 4:
-							reloc.r_length = 2;
-							break;
-						case 2:
+						case FIX_OFF16:
+						case FIX_RELOFF16:
 							reloc.r_length = 1;
 							break;
-						default:
+						case FIX_OFF8:
+						case FIX_RELOFF8:
 							reloc.r_length = 0;
+							break;
+						default:
+							reloc.r_length = 2;
 					}
 
 					if (fwrite(&reloc, 1, sizeof(struct relocation_info), CurrFile[OBJ]) != sizeof(struct relocation_info))
-- 
2.43.0


From 4d72a9ab747f3d221cb41e075715836165a8ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 31/98] fix: EVEX instructions with a direct or relocatable
 memory operand and an addend used a compressed or indexed displacement

---
 codegen.c   | 15 ++++++++++++++-
 codegenv2.c |  8 +++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/codegen.c b/codegen.c
index c20bbec..dd8d1c7 100644
--- a/codegen.c
+++ b/codegen.c
@@ -176,6 +176,7 @@ static void output_opc(struct code_info *CodeInfo)
   int              rn;
   unsigned char    c;
   int_8            comprdsp = 0;
+  bool             direct = FALSE;
 
   DebugMsg1(("output_opc enter, ins.opc/rm=%X/%X, byte1_info=%X CodeInfo->rm=%X opsiz=%u\n", ins->opcode, ins->rm_byte, ins->byte1_info, CodeInfo->rm_byte, CodeInfo->prefix.opsiz));
   /*
@@ -553,7 +554,9 @@ static void output_opc(struct code_info *CodeInfo)
         if (CodeInfo->evex_flag == TRUE) {
           if (CodeInfo->opnd[OPND2].type & OP_M_ANY){
             CodeInfo->prefix.rex |= EVEX_P0XMASK;  /* set X in RXB */
-            if (CodeInfo->opnd[OPND2].data32l){
+            /* mod = 00, r/m = 101 is a direct address and stays as it is */
+            if (CodeInfo->opnd[OPND2].data32l &&
+                (CodeInfo->Ofssize == USE16 || (CodeInfo->rm_byte & 0xC7) != 0x05)){
               CodeInfo->rm_byte &= ~MOD_11;          /* clear MOD    */
               CodeInfo->rm_byte |= MOD_10;           /* set disp32   */
               }
@@ -2426,6 +2429,12 @@ static void output_opc(struct code_info *CodeInfo)
           tmp &= ~MOD_10;
           CodeInfo->tuple = 0;   /* for a RIP relative addressing tuple can not be used */
           }
+        /* a direct address has mod = 00, r/m = 101, whatever its displacement is */
+        direct = (CodeInfo->evex_flag && CodeInfo->Ofssize != USE16 && (tmp & 0xC7) == 0x05);
+        /* a displacement which is an address isn't known yet, so it can't be compressed either */
+        if (((CodeInfo->opnd[OPND1].type & OP_M_ANY) && CodeInfo->opnd[OPND1].InsFixup) ||
+            ((CodeInfo->opnd[OPND2].type & OP_M_ANY) && CodeInfo->opnd[OPND2].InsFixup))
+          CodeInfo->tuple = 0;
         if (CodeInfo->token == T_VEXTRACTPS){ /* fix for missing tuple, v2.46 */
           if ((CodeInfo->opnd[OPND1].type & OP_M_ANY) && (CodeInfo->basetype != T_RIP))
             CodeInfo->tuple = TRUE;
@@ -2660,6 +2669,10 @@ static void output_opc(struct code_info *CodeInfo)
              ((CodeInfo->opnd[OPND2].type & OP_M_ANY) && CodeInfo->opnd[OPND2].data32l))) {
           tmp = (tmp & NOT_BIT_67) | MOD_10;
           CodeInfo->rm_byte = tmp;
+          }
+        if (direct) {
+          tmp &= NOT_BIT_67;
+          CodeInfo->rm_byte = tmp;
           }
 		    OutputCodeByte( tmp );
 
diff --git a/codegenv2.c b/codegenv2.c
index f72ac6a..faf9b7b 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1388,9 +1388,11 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 		else
 		{
 			/* Is it 8bit or 16/32bit (RIP only allows 32bit). */
-			if (CompDisp(&opExpr[(instr->memOpnd & 7)], instr, CodeInfo) &&
-				(((!opExpr[instr->memOpnd].sym) || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state == SYM_STACK)) &&
-				(((MemTable[memModeIdx].flags & MEMF_DSP32) == 0) && (opExpr[instr->memOpnd].value >= -128 && opExpr[instr->memOpnd].value <= 127))))
+			/* CompDisp() scales the displacement, so it comes last: an address can't be compressed */
+			if (((!opExpr[instr->memOpnd].sym) || (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].sym->state == SYM_STACK)) &&
+				((MemTable[memModeIdx].flags & MEMF_DSP32) == 0) &&
+				CompDisp(&opExpr[(instr->memOpnd & 7)], instr, CodeInfo) &&
+				(opExpr[instr->memOpnd].value >= -128 && opExpr[instr->memOpnd].value <= 127))
 			{
 				*dispSize = 1;
 				*pmodRM |= MODRM_DISP8;
-- 
2.43.0


From 205c94f22d9d3d3f37929fc7854b03cfecae679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 32/98] fix: state left behind by a module (options,
 architecture, EVEX, macro body) changed the modules assembled after it; the
 exit status was that of the last module

---
 assemble.c | 16 ++++++++++++++++
 invoke.c   |  2 +-
 main.c     |  9 +++++++--
 proc.c     |  9 +++++++--
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/assemble.c b/assemble.c
index ee36608..6052b1f 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1333,6 +1333,10 @@ static void ModuleInit( void )
     memset( SymTables, 0, sizeof( SymTables[0] ) * TAB_LAST );
     ModuleInfo.fmtopt->init( &ModuleInfo );
     gmaskflag = 0;
+#if AVXSUPP
+    evex = 0;
+#endif
+    inMacroBody = FALSE; /* a fatal error may have left it set */
     return;
 }
 
@@ -1593,6 +1597,9 @@ int EXPQUAL AssembleModule( const char *source )
     struct dsym   *seg;
 
 	struct module_info tempInfo;
+	/* directives may change options and the architecture for this module only */
+	struct global_options oldOptions = Options;
+	unsigned char oldArch = MODULEARCH;
 
 #ifdef _WIN32
 	CONSOLE_SCREEN_BUFFER_INFO screenBufferInfo;
@@ -1838,6 +1845,15 @@ done:
    
 	AssembleFini();
 	ResetOrgFixup();
+
+	Options = oldOptions;
+	MODULEARCH = oldArch;
+	ModuleInfo.frame_auto   = tempInfo.frame_auto;
+	ModuleInfo.fctype       = tempInfo.fctype;
+	ModuleInfo.langtype     = tempInfo.langtype;
+	ModuleInfo.sub_format   = tempInfo.sub_format;
+	ModuleInfo.win64_flags  = tempInfo.win64_flags;
+	ModuleInfo.switch_style = tempInfo.switch_style;
     DebugMsg(("AssembleModule exit\n"));
     return( ModuleInfo.g.error_count == 0 );
 }
diff --git a/invoke.c b/invoke.c
index d0678a7..785d4b2 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3203,7 +3203,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	char fullparam[MAX_LINE_LEN];
 	char buffer[MAX_LINE_LEN];
 	char stringparam[256][32];
-	bool isString[256];
+	bool isString[256] = { FALSE };
 	int reg = 0;
 
 	struct asym *lbl = NULL;
diff --git a/main.c b/main.c
index a42a973..2b59ede 100644
--- a/main.c
+++ b/main.c
@@ -65,6 +65,7 @@ int main(int argc, char **argv)
 	int     numArgs = 0;
 	int     numFiles = 0;
 	int     rc = 0;
+	int     failed = 0;
 
 #if WILDCARDS
 	/* v2.11: _findfirst/next/close() handle, should be of type intptr_t.
@@ -123,6 +124,7 @@ int main(int argc, char **argv)
 		if ((fh = _findfirst(Options.names[ASM], &finfo)) == -1) {
 			DebugMsg(("main: _findfirst(%s) failed\n", Options.names[ASM]));
 			EmitErr(CANNOT_OPEN_FILE, Options.names[ASM], ErrnoStr());
+			failed = 1;
 			break;
 		}
 		pfn = GetFNamePart(Options.names[ASM]);
@@ -132,10 +134,12 @@ int main(int argc, char **argv)
 				strcpy(&fname[dirsize], finfo.name);
 				DebugMsg(("main: fname=%s\n", fname));
 				rc = AssembleModule(fname);  /* assemble 1 module */
+				failed |= !rc;
 			} while ((_findnext(fh, &finfo) != -1));
 		    _findclose(fh);
 #else
 		rc = AssembleModule( Options.names[ASM] );
+		failed |= !rc;
 #endif
 	};
 	CmdlineFini();
@@ -150,8 +154,9 @@ int main(int argc, char **argv)
 	tm_Fini();
 #endif
 
-	DebugMsg(("main: exit, return code=%u\n", 1 - rc));
-	return(1 - rc); /* zero if no errors */
+	/* failure if no module has been assembled or if any of them had errors */
+	DebugMsg(("main: exit, return code=%u\n", failed || rc == 0));
+	return(failed || rc == 0); /* zero if no errors */
 }
 
 
diff --git a/proc.c b/proc.c
index 0610a82..2d80591 100644
--- a/proc.c
+++ b/proc.c
@@ -1745,9 +1745,14 @@ ret_code ParseProc(struct dsym *proc, int i, struct asm_tok tokenarray[], bool I
 		/* v2.04: removed, comma is checked above already */
 		//if( tokenarray[i].token == T_COMMA )
 		//    i++;
-		if (ERROR == ParseParams(proc, i, tokenarray, IsPROC))
+		if (ERROR == ParseParams(proc, i, tokenarray, IsPROC)) {
 			/* do proceed if the parameter scan returns an error */
-			;//return( ERROR );
+			//return( ERROR );
+			/* the scan may have stopped before the VARARG parameter was created */
+			struct dsym *p;
+			for (p = proc->e.procinfo->paralist; p && !p->sym.is_vararg; p = p->nextparam);
+			proc->e.procinfo->has_vararg = (p != NULL);
+		}
 	}
 
 	/* v2.11: isdefined and isproc now set here */
-- 
2.43.0


From 4afa15ddb179c3270f4890a188e17ae4003f53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 33/98] fix: two string literals whose 16-bit hashes are equal
 (e.g. they differ in case only) shared the label; literals overflowed fixed
 buffers; no data segment for a literal was a crash

---
 data.c   |  4 ++--
 invoke.c | 42 +++++++++++++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/data.c b/data.c
index 00bc765..659511a 100644
--- a/data.c
+++ b/data.c
@@ -578,7 +578,7 @@ static ret_code data_item( int *start_pos, struct asm_tok tokenarray[], struct a
     enum fixup_types    fixup_type;
     struct fixup        *fixup;
     struct expr         opndx;
-    uint_16 buff[256];
+    uint_16 buff[MAX_LINE_LEN];
     DebugMsg1(("data_item( idx=%u [%s], label=%s, no_of_bytes=%" I32_SPEC "u, type=%s, dup=%" I32_SPEC "Xh, inside_struct=%u, is_float=%u ) enter\n",
                *start_pos, tokenarray[*start_pos].tokpos, sym ? sym->name : "NULL",
                no_of_bytes, type_sym ? type_sym->name : "NULL",
@@ -1162,7 +1162,7 @@ next_item:  /* <--- continue scan if a comma has been detected */
 #endif
                             )) {
                             fixup_type = FIX_OFF16;
-                            EmitErr( SYMBOL_TYPE_CONFLICT, sym->name );
+                            EmitErr( SYMBOL_TYPE_CONFLICT, opndx.sym ? opndx.sym->name : "" );
                         } else
 #endif
                             fixup_type = FIX_PTR16;
diff --git a/invoke.c b/invoke.c
index 785d4b2..b78c064 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3176,6 +3176,29 @@ static unsigned int hashpjw(const char *s)
 	return((((h >> 16) ^ h) & 0xffff));
 }
 
+/*
+ * get the label of a string literal. The hash of a string isn't unique,
+ * so the string is stored in the symbol to find out if it's the same one.
+ */
+static struct asym *GetLiteralLabel(char *name, const char *prefix, const char *string)
+{
+	struct asym *lbl;
+	unsigned int hash = hashpjw(string);
+	int i;
+
+	sprintf(name, "%s%d", prefix, hash);
+	for (i = 1; (lbl = SymSearch(name)) != NULL; i++)
+	{
+		if (lbl->string_ptr && strcmp(lbl->string_ptr, string) == 0)
+			return(lbl);
+		sprintf(name, "%s%d_%d", prefix, hash, i);
+	}
+	lbl = SymLookup(name);
+	lbl->string_ptr = LclAlloc(strlen(string) + 1);
+	strcpy(lbl->string_ptr, string);
+	return(lbl);
+}
+
 /*
 * push one parameter of a procedure called with INVOKE onto the stack
 * - i       : index of the start of the parameter list
@@ -3218,8 +3241,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	char c1;
 	char c2;
 	size_t finallen;
-	uint_16 buff[256];
-	uint_8  buff2[256];
+	uint_16 buff[MAX_LINE_LEN];
+	uint_8  buff2[MAX_LINE_LEN];
 
 	DebugMsg1(("PushInvokeParam(%s, param=%s:%u, i=%u ) enter\n", proc->sym.name, curr ? curr->sym.name : "NULL", reqParam, i));
 
@@ -3250,17 +3273,17 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 						break;
 				}
 				// Set CurrSeg
+				if (currs == NULL)
+					return(EmitErr(SEGMENT_NOT_DEFINED, "_DATA"));
 				CurrSeg = currs;
 
 				// Transfer raw String Data.
 				slen = strlen(tokenarray[i].string_ptr) - 2;
 				pSrc = (tokenarray[i].string_ptr) + 1;
 
-				sprintf(buf, "%s%d", labelstr, hashpjw(tokenarray[i].string_ptr));
-
-				lbl = SymLookup(buf);
+				lbl = GetLiteralLabel(buf, labelstr, tokenarray[i].string_ptr);
 				SetSymSegOfs(lbl);
-				memset(&buff, 0, 256);
+				memset(&buff, 0, sizeof(buff));
 				pDest = buff;
 				finallen = slen;
 
@@ -3327,13 +3350,14 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				}
 
 				// Set CurrSeg
+				if (currs == NULL)
+					return(EmitErr(SEGMENT_NOT_DEFINED, "_DATA"));
 				CurrSeg = currs;
 
 				slen = strlen(tokenarray[i + 1].string_ptr) - 2;
 				pSrc = (tokenarray[i + 1].string_ptr) + 1;
-				sprintf(buf, "%s%d", labelstr, hashpjw(pSrc));
-				lbl = SymLookup(buf);
-				memset(&buff, 0, 256);
+				lbl = GetLiteralLabel(buf, labelstr, pSrc);
+				memset(&buff, 0, sizeof(buff));
 
 				pDest = buff2;
 				finallen = slen;
-- 
2.43.0


From efb2dd1fcb699802eb646f2b246b8fa9811dd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 34/98] fix: PE section table was too small for untyped
 segments, a section that ended with an empty segment was overwritten, stack
 overflow by time()

---
 bin.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/bin.c b/bin.c
index 2a503d4..c240bd0 100644
--- a/bin.c
+++ b/bin.c
@@ -851,12 +851,16 @@ static void pe_create_section_table( void )
                 }
             }
         }
-        if ( objs ) {
-            DebugMsg(("pe_create_section_table: items in object table: %u\n", objs ));
-            objtab->sym.max_offset = sizeof(struct IMAGE_SECTION_HEADER) * objs;
-            /* alloc space for 1 more section (.reloc) */
-            objtab->e.seginfo->CodeBuffer = LclAlloc( objtab->sym.max_offset + sizeof(struct IMAGE_SECTION_HEADER) );
+        /* segments whose type is unknown become sections of their own */
+        for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
+            for ( i = 0; i < SIZE_PEFLAT && curr->e.seginfo->segtype != flat_order[i]; i++ );
+            if ( i == SIZE_PEFLAT && curr->e.seginfo->segtype != SEGTYPE_ABS && curr->sym.max_offset )
+                objs++;
         }
+        DebugMsg(("pe_create_section_table: items in object table: %u\n", objs ));
+        objtab->sym.max_offset = sizeof(struct IMAGE_SECTION_HEADER) * objs;
+        /* alloc space for 1 more section (.reloc) */
+        objtab->e.seginfo->CodeBuffer = LclAlloc( objtab->sym.max_offset + sizeof(struct IMAGE_SECTION_HEADER) );
     }
 }
 
@@ -891,7 +895,7 @@ static void pe_emit_export_data( void )
 /*************************************/
 {
     struct dsym *curr;
-    int_32 timedate;
+    time_t timedate; /* time() writes a time_t, which may have 64 bits */
     int cnt;
     int i;
     char *name;
@@ -912,11 +916,11 @@ static void pe_emit_export_data( void )
 #if 0 //def __UNIX__
         time( &timedate );
 #else
-        time( (time_t *)&timedate );
+        time( &timedate );
 #endif
         /* create export directory: Characteristics, Timedate, MajMin, Name, Base, ... */
         AddLineQueueX( "DD 0, 0%xh, 0, %r @%s_name, %u, %u, %u, %r @%s_func, %r @%s_names, %r @%s_nameord",
-                      timedate, T_IMAGEREL, name, 1, cnt, cnt, T_IMAGEREL, name, T_IMAGEREL, name, T_IMAGEREL, name );
+                      (uint_32)timedate, T_IMAGEREL, name, 1, cnt, cnt, T_IMAGEREL, name, T_IMAGEREL, name, T_IMAGEREL, name );
 
         /* the name pointer table must be in ascending order!
          * so we have to fill an array of exports and sort it.
@@ -1234,6 +1238,7 @@ static void pe_set_values( struct calc_param *cp )
     uint_32 sizehdr  = 0;
     uint_32 sizeimg  = 0;
     struct dsym *curr;
+    struct dsym *next;
     struct dsym *mzhdr;
     struct dsym *pehdr;
     struct dsym *objtab;
@@ -1252,6 +1257,12 @@ static void pe_set_values( struct calc_param *cp )
     pehdr  = ( struct dsym *)SymSearch( hdrname "2" );
     objtab = ( struct dsym *)SymSearch( hdrname "3" );
 
+    /* the headers won't be complete if they were created after the last pass 1 line or if there was an error */
+    if ( mzhdr == NULL || pehdr == NULL || objtab == NULL ) {
+        EmitErr( MODEL_IS_NOT_DECLARED );
+        return;
+    }
+
     /* make sure all header objects are in FLAT group */
     mzhdr->e.seginfo->group = &ModuleInfo.flat_grp->sym;
 #if AMD64_SUPPORT
@@ -1336,11 +1347,11 @@ static void pe_set_values( struct calc_param *cp )
     /* fill object table values */
     section = (struct IMAGE_SECTION_HEADER *)objtab->e.seginfo->CodeBuffer;
     for( curr = SymTables[TAB_SEG].head, i = -1; curr; curr = curr->next ) {
-        if ( curr->e.seginfo->segtype == SEGTYPE_HDR )
+        if ( curr->e.seginfo->segtype == SEGTYPE_HDR || curr->e.seginfo->segtype == SEGTYPE_ABS )
             continue;
         if ( curr->sym.max_offset == 0 ) /* ignore empty sections */
             continue;
-        if ( curr->e.seginfo->lname_idx != i ) {
+        if ( curr->e.seginfo->lname_idx == SEGTYPE_ERROR || curr->e.seginfo->lname_idx != i ) {
             i = curr->e.seginfo->lname_idx;
             secname = ( curr->e.seginfo->aliasname ? curr->e.seginfo->aliasname : ConvertSectionName( &curr->sym, NULL, buffer ) );
             strncpy( section->Name, secname, sizeof ( section->Name ) );
@@ -1360,7 +1371,9 @@ static void pe_set_values( struct calc_param *cp )
         //section->Misc.VirtualSize += curr->sym.max_offset;
         section->Misc.VirtualSize = curr->sym.max_offset + ( curr->e.seginfo->start_offset - section->VirtualAddress );
 
-        if ( curr->next == NULL || curr->next->e.seginfo->lname_idx != i ) {
+        /* next segment that isn't ignored */
+        for ( next = curr->next; next && ( next->e.seginfo->segtype == SEGTYPE_ABS || next->sym.max_offset == 0 ); next = next->next );
+        if ( next == NULL || next->e.seginfo->lname_idx == SEGTYPE_ERROR || next->e.seginfo->lname_idx != i ) {
 #if RAWSIZE_ROUND /* AntiVir TR/Crypt.XPACK Gen */
             section->SizeOfRawData += cp->rawpagesize - 1;
             section->SizeOfRawData &= ~(cp->rawpagesize - 1);
@@ -1376,7 +1389,7 @@ static void pe_set_values( struct calc_param *cp )
                 datasize += section->SizeOfRawData;
             }
         }
-        if ( curr->next && curr->next->e.seginfo->lname_idx != i ) {
+        if ( next && ( next->e.seginfo->lname_idx == SEGTYPE_ERROR || next->e.seginfo->lname_idx != i ) ) {
             DebugMsg(("pe_set_values: object %.8s, VA=%" I32_SPEC "X size=%" I32_SPEC "X phys ofs/size=%" I32_SPEC "Xh/%" I32_SPEC "Xh\n",
                   section->Name, section->VirtualAddress, section->Misc.VirtualSize, section->PointerToRawData, section->SizeOfRawData ));
             section++;
-- 
2.43.0


From fdba608f0b17e56b92d773e4eed773e001b1bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 35/98] fix: 64-bit procedures crashed if the cpu was selected
 after .MODEL

---
 assemble.c | 2 ++
 cpumodel.c | 3 ---
 segment.c  | 8 ++++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/assemble.c b/assemble.c
index 6052b1f..86c34c5 100644
--- a/assemble.c
+++ b/assemble.c
@@ -779,6 +779,8 @@ static void ModulePassInit( void )
 #endif
 
     DebugMsg(( "ModulePassInit() enter\n" ));
+    if ( Parse_Pass == PASS_1 )
+        sym_ReservedStack = NULL; /* it's defined by .MODEL or when the first 64-bit segment is opened */
     /* set default values not affected by the masm 5.1 compat switch */
     ModuleInfo.procs_private = FALSE;
     ModuleInfo.procs_export = FALSE;
diff --git a/cpumodel.c b/cpumodel.c
index c090e1e..0350ee3 100644
--- a/cpumodel.c
+++ b/cpumodel.c
@@ -207,9 +207,6 @@ void SetModel( void )
         textvalue = "STACK";
     AddPredefinedText( "@stack", textvalue );
 
-	/* Default this to null so it can be checked for */
-	sym_ReservedStack = NULL;
-
     /* Set @Model and @Interface */
     sym_Model     = AddPredefinedConstant( "@Model", ModuleInfo.model );
     sym_Interface = AddPredefinedConstant( "@Interface", ModuleInfo.langtype );
diff --git a/segment.c b/segment.c
index 90a6807..d9dc74a 100644
--- a/segment.c
+++ b/segment.c
@@ -46,6 +46,8 @@
 #include "types.h"
 #include "fixup.h"
 #include "label.h"
+#include "proc.h"
+#include "equate.h"
 
 #include "myassert.h"
 
@@ -437,6 +439,12 @@ ret_code SetOfssize( void )
             return( EmitErr( INCOMPATIBLE_CPU_MODE_FOR_XXBIT_SEGMENT, 16 << ModuleInfo.Ofssize ) );
         }
     }
+    /* the prologues of 64-bit procedures refer to @ReservedStack; .MODEL won't define it if the 64-bit cpu was selected later. */
+    if ( ModuleInfo.Ofssize == USE64 && sym_ReservedStack == NULL ) {
+        sym_ReservedStack = CreateVariable( "@ReservedStack", 0 );
+        if ( sym_ReservedStack )
+            sym_ReservedStack->predefined = TRUE;
+    }
     CurrWordSize = (2 << ModuleInfo.Ofssize);
     Set64Bit( ModuleInfo.Ofssize == USE64 );
 
-- 
2.43.0


From 6e8ba70510c0f8ab13f5ad13a1e394798d3cb5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 36/98] fix: crash with -Zd if a public procedure has no debug
 info

---
 coff.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/coff.c b/coff.c
index f3df0e5..19ebffb 100644
--- a/coff.c
+++ b/coff.c
@@ -278,6 +278,9 @@ static short CoffGetClass( const struct asym *sym )
 
 /* calc number of entries in symbol table for a file entry */
 
+/* only procedures that are defined here have line number information */
+#define HasProcDebugInfo( s ) ( (s)->isproc && (s)->state == SYM_INTERNAL && (s)->debuginfo )
+
 static unsigned GetFileAuxEntries( uint_16 file, char * *fname )
 /**************************************************************/
 {
@@ -510,7 +513,7 @@ static uint_32 coff_write_symbols( struct module_info *modinfo, struct coffmod *
         len = Mangle( sym, buffer );
 
         if ( Options.line_numbers && Options.debug_symbols != 4 &&
-            sym->isproc && sym->debuginfo->file != lastfile ) {
+            HasProcDebugInfo( sym ) && sym->debuginfo->file != lastfile ) {
 
             lastfile = sym->debuginfo->file;
             aux = GetFileAuxEntries(sym->debuginfo->file, &p);
@@ -530,7 +533,7 @@ static uint_32 coff_write_symbols( struct module_info *modinfo, struct coffmod *
             section = IMAGE_SYM_UNDEFINED;
 
         aux = 0;
-        if ( Options.line_numbers && sym->isproc && Options.debug_symbols != 4 )
+        if ( Options.line_numbers && HasProcDebugInfo( sym ) && Options.debug_symbols != 4 )
             aux++;
 
         p = buffer;
@@ -544,7 +547,7 @@ static uint_32 coff_write_symbols( struct module_info *modinfo, struct coffmod *
             CoffGetType(sym), CoffGetClass(sym), aux);
         cntSymbols++;
 
-        if ( Options.line_numbers && sym->isproc && Options.debug_symbols != 4 ) {
+        if ( Options.line_numbers && HasProcDebugInfo( sym ) && Options.debug_symbols != 4 ) {
             /* write:
              * 1.   the aux for the proc
              * 2+3. a .bf record with 1 aux
@@ -738,7 +741,7 @@ static uint_32 SetSymbolIndices( struct module_info *ModuleInfo, struct coffmod
     for ( q = ModuleInfo->g.PubQueue.head; q; q = q->next ) {
         sym = q->sym;
         /* if line numbers are on, co, add 6 entries for procs */
-        if ( Options.line_numbers && sym->isproc && Options.debug_symbols != 4 ) {
+        if ( Options.line_numbers && HasProcDebugInfo( sym ) && Options.debug_symbols != 4 ) {
             if (  sym->debuginfo->file != lastfile ) {
                 if ( cm->start_files == 0 )
                     cm->start_files = index;
@@ -876,7 +879,7 @@ static void coff_write_fixups( struct dsym *section, uint_32 *poffset, uint_32 *
             fix->sym->included = TRUE;
             AddPublicData( fix->sym );
             fix->sym->ext_idx = index++;
-            if ( Options.line_numbers && fix->sym->isproc && Options.debug_symbols != 4 )
+            if ( Options.line_numbers && HasProcDebugInfo( fix->sym ) && Options.debug_symbols != 4 )
                 index += 6;
         }
         coff_write_fixup(fix->locofs, fix->sym->ext_idx, type);
-- 
2.43.0


From 63d2f978a06632ed581eba4684a6c748a27241d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 37/98] fix: crash if a Mach-O section has uninitialized data
 only

---
 macho64.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macho64.c b/macho64.c
index 0a4568f..e3de539 100644
--- a/macho64.c
+++ b/macho64.c
@@ -589,7 +589,13 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	{
 		if ((currSec->section.flags & 0xff) == S_ZEROFILL)
 			continue;
-		if (fwrite(currSec->data, 1, currSec->size-currSec->dif, CurrFile[OBJ]) != currSec->size-currSec->dif)
+		if (currSec->data == NULL) /* nothing but uninitialized data: there is no buffer */
+		{
+			int i;
+			for (i = 0; i < currSec->size-currSec->dif; i++)
+				fwrite(&padbyte, 1, 1, CurrFile[OBJ]);
+		}
+		else if (fwrite(currSec->data, 1, currSec->size-currSec->dif, CurrFile[OBJ]) != currSec->size-currSec->dif)
 			WriteError();
 		if (currSec->dif > 0)
 		{
-- 
2.43.0


From 193beaa2babf36900d28099a34db35ea73f58dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 38/98] fix: the backpatch list of an alternate symbol of a
 weak external was a dangling pointer in OMF

---
 omf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omf.c b/omf.c
index 18d4a60..f9fb904 100644
--- a/omf.c
+++ b/omf.c
@@ -1109,7 +1109,7 @@ static uint_16 omf_write_extdef( void )
              * - else an invalid object file will be created!
              */
         if ( symext->sym.iscomm == FALSE && symext->sym.altname && symext->sym.altname->state != SYM_EXTERNAL )
-            symext->sym.altname->ext_idx = 0;
+            symext->sym.altname->bp_fixup = NULL; /* clears the whole union */
     }
     /* v2.09: write COMM items here. This allows to handle
      * the external index field entirely in omf.c
-- 
2.43.0


From 31c27be15ce65ea1c612310949eb77ff84b8c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 39/98] fix: a 64-bit equate with bit 31 set was listed off by
 2^32; macro level 100 and above overflowed the listing column

---
 listing.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/listing.c b/listing.c
index e27f2a5..60d142c 100644
--- a/listing.c
+++ b/listing.c
@@ -27,7 +27,6 @@
 
 #define CODEBYTES 9
 #define OFSSIZE 8
-#define PREFFMTSTR "20"
 #define USELSLINE 1 /* also in assemble.c! */
 
 #ifdef __UNIX__
@@ -267,9 +266,10 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         }
         ll.buffer[idx] = '=';
         if ( sym->value3264 != 0 && ( sym->value3264 != -1 || sym->value >= 0 ) )
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I64_SPEC "X", (uint_64)sym->value + ( (uint_64)sym->value3264 << 32 ) );
+            len = sprintf( &ll.buffer[idx+2], "%" I64_SPEC "X", (uint_64)(uint_32)sym->value + ( (uint_64)sym->value3264 << 32 ) );
         else
-            sprintf( &ll.buffer[idx+2], "%-" PREFFMTSTR I32_SPEC "X", sym->value );
+            len = sprintf( &ll.buffer[idx+2], "%" I32_SPEC "X", sym->value );
+        ll.buffer[idx+2+len] = ' ';
         //ll.buffer[28] = ' ';
         break;
     case LSTTYPE_TMACRO:
@@ -320,8 +320,9 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
         if ( ModuleInfo.GeneratedCode )
             ll.buffer[28] = '*';
         if ( MacroLevel ) {
-            len = sprintf( &ll.buffer[29], "%u", MacroLevel );
-            ll.buffer[29+len] = ' ';
+            char level[12]; /* the column is 3 chars wide, without space for a terminating null */
+            len = sprintf( level, "%u", MacroLevel );
+            memcpy( &ll.buffer[29], level, len > 3 ? 3 : len );
         }
         if ( srcfile != ModuleInfo.srcfile ) {
             ll.buffer[30] = 'C';
@@ -338,7 +339,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
     }
 #endif
 	
-	for (i = 32; i > 0; --i) {
+	for (i = sizeof( ll.buffer ) - 1; i > 0; --i) {
 		if (ll.buffer[i] == 0)
 			ll.buffer[i] = ' ';
 	}
-- 
2.43.0


From e74abc51d42f2866c62e2469cccffb11dd56dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 40/98] fix: missing checks for instructions without VEX flags,
 procedures without code segment and data without symbol; strupr() wasn't
 declared for __UNIX__

---
 H/globals.h | 1 +
 codegen.c   | 2 +-
 proc.c      | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/H/globals.h b/H/globals.h
index 0085ab1..2914f96 100644
--- a/H/globals.h
+++ b/H/globals.h
@@ -49,6 +49,7 @@
 #endif
 #define _ltoa   ltoa
 #define _strupr strupr
+char *strupr( char *str ); /* emulated in apiemu.c */
 
 #elif defined(__POCC__)
 
diff --git a/codegen.c b/codegen.c
index dd8d1c7..313b45a 100644
--- a/codegen.c
+++ b/codegen.c
@@ -433,7 +433,7 @@ static void output_opc(struct code_info *CodeInfo)
     }
 
   if (CodeInfo->evex_flag == TRUE) {
-	  if (!(vex_flags[CodeInfo->token - VEX_START] & VX_LL))
+	  if (CodeInfo->token < VEX_START || !(vex_flags[CodeInfo->token - VEX_START] & VX_LL))
 		  EmitError(INVALID_COMBINATION_OF_OPCODE_AND_OPERANDS);
   }
     if (CodeInfo->token == T_VCMPSD || CodeInfo->token == T_VCMPSS){
diff --git a/proc.c b/proc.c
index 2d80591..e0aaecf 100644
--- a/proc.c
+++ b/proc.c
@@ -2297,7 +2297,7 @@ static void WriteSEHData(struct dsym *proc)
 	AddLineQueueX("%s %r", segname, T_ENDS);
 
 	/* v2.07: ensure that .pdata items are sorted */
-	if (0 == strcmp(SimGetSegName(SIM_CODE), proc->sym.segment->name)) {
+	if (proc->sym.segment && SimGetSegName(SIM_CODE) && 0 == strcmp(SimGetSegName(SIM_CODE), proc->sym.segment->name)) {
 		segname = ".pdata";
 		simplespec = (unw_segs_defined & 1);
 		unw_segs_defined = 3;
-- 
2.43.0


From 26616cfd8f72b46d6058f312b1a7343bc353d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 41/98] fix: conditions with && and || inside brackets or with
 constants jumped to wrong labels; .FOR with a constant false condition didn't
 assemble

---
 hll.c | 299 +++++++++++++++-------------------------------------------
 1 file changed, 75 insertions(+), 224 deletions(-)

diff --git a/hll.c b/hll.c
index 4cba19d..62cea46 100644
--- a/hll.c
+++ b/hll.c
@@ -151,12 +151,7 @@ struct hll_item {
 #endif
 };
 
-/* v2.08: struct added */
-struct hll_opnd {
-  char    *lastjmp;
-  uint_32 lasttruelabel; /* v2.08: new member */
-};
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], int ilabel, bool is_true, char *buffer, struct hll_opnd *);
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok[], uint_32 label, bool is_true, char *buffer);
 
 /* c binary ops.
 * Order of items COP_EQ - COP_LE  and COP_ZERO - COP_OVERFLOW
@@ -580,7 +575,7 @@ static uint_32 GetLabel(struct hll_item *hll, int index)
 * 3. unary operator "!" + one token
 * 4. one token (short form for "<token> != 0")
 */
-static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
+static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
 /**************************************************************************************************************************************************************/
 {
   enum c_bop op;
@@ -592,7 +587,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   char *p;
   struct expr op1;
   struct expr op2;
-  uint_32 label;
 
   DebugMsg1(("%u GetSimpleExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
@@ -623,7 +617,7 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     if (brcnt) {
       (*i)++;
       DebugMsg1(("%u GetSimpleExpression: calling GetExpression, i=%u\n", evallvl, *i));
-      if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, hllop))
+      if (ERROR == GetExpression(hll, i, tokenarray, label, is_true, buffer))
         return(ERROR);
 
       if (tokenarray[*i].token != T_CL_BRACKET) {
@@ -654,8 +648,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   else if (op != COP_NONE)
     (*i)++;
 
-  label = GetLabel(hll, ilabel);
-
   DebugMsg1(("%u GetSimpleExpression: EvalOperand ok, kind=%X, i=%u [%s]\n", evallvl, op1.kind, *i, tokenarray[*i].tokpos));
 
   /* check for special operators with implicite operand:
@@ -667,7 +659,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       return(EmitError(SYNTAX_ERROR_IN_CONTROL_FLOW_DIRECTIVE));
     }
     p = buffer;
-    hllop->lastjmp = p;
     RenderJcc(p, flaginstr[op - COP_ZERO], !is_true, label);
     return(NOT_ERROR);
   }
@@ -686,14 +677,12 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
     case EXPR_REG:
       if (op1.indirect == FALSE) {
         p = RenderInstr(buffer, "test", op1_pos, op1_end, op1_pos, op1_end, tokenarray);
-        hllop->lastjmp = p;
         RenderJcc(p, 'z', is_true, label);
         break;
       }
       /* no break */
     case EXPR_ADDR:
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, EMPTY, 0, tokenarray);
-      hllop->lastjmp = p;
       RenderJcc(p, 'z', is_true, label);
       break;
     case EXPR_CONST:
@@ -707,7 +696,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       if (op1.hvalue != 0 && op1.hvalue != -1)
         return(EmitConstError(&op1));
 
-      hllop->lastjmp = buffer;
 
       if ((is_true == TRUE && op1.value) ||
         (is_true == FALSE && op1.value == 0)) {
@@ -741,7 +729,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
 
   if (op == COP_ANDB) {
     p = RenderInstr(buffer, "test", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
-    hllop->lastjmp = p;
     RenderJcc(p, 'e', is_true, label);
   }
   else if (op <= COP_LE) { /* ==, !=, >, <, >= or <= operator */
@@ -827,7 +814,6 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
       p = RenderInstr(buffer, "cmp", op1_pos, op1_end, op2_pos, op2_end, tokenarray);
     }
     instr = ((IS_SIGNED(op1.mem_type) || IS_SIGNED(op2.mem_type)) ? signed_cjmptype[op - COP_EQ] : unsigned_cjmptype[op - COP_EQ]);
-    hllop->lastjmp = p;
     RenderJcc(p, instr, neg_cjmptype[op - COP_EQ] ? is_true : !is_true, label);
   }
   else {
@@ -837,240 +823,104 @@ static ret_code GetSimpleExpression(struct hll_item *hll, int *i, struct asm_tok
   return(NOT_ERROR);
 }
 
-/* invert a Jump:
-* - Jx  -> JNx (x = e|z|c|s|p|o )
-* - JNx -> Jx  (x = e|z|c|s|p|o )
-* - Ja  -> Jbe, Jae -> Jb
-* - Jb  -> Jae, Jbe -> Ja
-* - Jg  -> Jle, Jge -> Jl
-* - Jl  -> Jge, Jle -> Jg
-* added in v2.11:
-* - jmp -> 0
-* - 0   -> jmp
-*/
-static void InvertJump(char *p)
-/*******************************/
-{
-  if (*p == NULLC) { /* v2.11: convert 0 to "jmp" */
-    strcpy(p, "jmp ");
-    return;
-  }
+/* is there another operator <op> behind token <i>, in the same pair of brackets? */
 
-  p++;
-  if (*p == 'e' || *p == 'z' || *p == 'c' || *p == 's' || *p == 'p' || *p == 'o') {
-    *(p + 1) = *p;
-    *p = 'n';
-    return;
-  }
-  else if (*p == 'n') {
-    *p = *(p + 1);
-    *(p + 1) = ' ';
-    return;
-  }
-  else if (*p == 'a') {
-    *p++ = 'b';
-  }
-  else if (*p == 'b') {
-    *p++ = 'a';
-  }
-  else if (*p == 'g') {
-    *p++ = 'l';
-  }
-  else if (*p == 'l') {
-    *p++ = 'g';
-  }
-  else {
-    /* v2.11: convert "jmp" to 0 */
-    if (*p == 'm') {
-      p--;
-      *p = NULLC;
+static bool IsTermFollowing(int i, struct asm_tok tokenarray[], enum c_bop op)
+/******************************************************************************/
+{
+  int brcnt = 0;
+  enum c_bop curr;
+
+  for (; tokenarray[i].token != T_FINAL; i++) {
+    if (tokenarray[i].token == T_OP_BRACKET)
+      brcnt++;
+    else if (tokenarray[i].token == T_CL_BRACKET) {
+      if (brcnt == 0)
+        break;
+      brcnt--;
+    }
+    else if (brcnt == 0) {
+      curr = GetCOp(&tokenarray[i]);
+      if (curr == op)
+        return(TRUE);
+      if (curr == COP_OR)
+        break;
     }
-    return;
   }
-  if (*p == 'e')
-    *p = ' ';
-  else
-    *p = 'e';
-  return;
+  return(FALSE);
 }
 
-/* Replace a label in the source lines generated so far.
-* todo: if more than 0xFFFF labels are needed,
-* it may happen that length of nlabel > length of olabel!
-* then the simple memcpy() below won't work!
+/* operator &&, which has the second lowest precedence, is handled here.
+* the code jumps to <label> if the expression is <is_true>, else it continues
+* behind the expression.
 */
 
-static void ReplaceLabel(char *p, uint_32 olabel, uint_32 nlabel)
-/*****************************************************************/
-{
-  char oldlbl[16];
-  char newlbl[16];
-  int i;
-
-  GetLabelStr(olabel, oldlbl);
-  GetLabelStr(nlabel, newlbl);
-
-  i = (int)strlen(newlbl);
-
-  DebugMsg1(("%u ReplaceLabel(%s->%s, >%s<)\n", evallvl, oldlbl, newlbl, p));
-  while (p = strstr(p, oldlbl)) {
-    memcpy(p, newlbl, i);
-    p += i;
-  }
-}
-
-/* operator &&, which has the second lowest precedence, is handled here */
-
-static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/***********************************************************************************************************************************************************/
+static ret_code GetAndExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
+/*************************************************************************************************************************************/
 {
   char *ptr = buffer;
-  uint_32 truelabel = 0;
-  char buff[16];
-  int nlabel;
-  int olabel;
+  uint_32 falselabel = 0;
+  ret_code rc;
 
   DebugMsg1(("%u GetAndExpression(>%.32s< buf=>%s<) enter\n", evallvl, tokenarray[*i].tokpos, buffer));
 
-  if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
-    return(ERROR);
-  while (COP_AND == GetCOp(&tokenarray[*i])) {
-
-    (*i)++;
-    DebugMsg1(("%u GetAndExpression: &&-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true) {
-      /* todo: please describe what's done here and why! */
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);          /* step 1 */
-        if (truelabel == 0)     /* step 2 */
-          truelabel = GetHllLabel();
-
-        if (*p ) {/* v2.11: there might be a 0 at lastjmp */
-          p += 4;               /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* Uasm 2.18  fixed WHILE with &&  */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(buffer,hllop->lasttruelabel, truelabel);
-          nlabel = GetHllLabel();
-          olabel = GetLabel(hll, ilabel);
-          GetLabelStr(olabel, buff);
-          strcat(ptr, buff);
-          strcat(ptr, LABELQUAL EOLSTR);
-          DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-          ReplaceLabel(buffer, olabel, nlabel);
-          hllop->lastjmp = NULL;
-      }
+  for (;;) {
+    /* all terms but the last decide the expression only if they're false */
+    if (is_true && IsTermFollowing(*i, tokenarray, COP_AND)) {
+      if (falselabel == 0)
+        falselabel = GetHllLabel();
+      rc = GetSimpleExpression(hll, i, tokenarray, falselabel, FALSE, ptr);
     }
-    ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetSimpleExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop))
+    else
+      rc = GetSimpleExpression(hll, i, tokenarray, label, is_true, ptr);
+    if (rc == ERROR)
       return(ERROR);
-  };
-
-  if (truelabel > 0) {
     ptr += strlen(ptr);
-    GetLabelStr(truelabel, ptr);
+    if (COP_AND != GetCOp(&tokenarray[*i]))
+      break;
+    (*i)++;
+  }
+
+  if (falselabel) {
+    GetLabelStr(falselabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
-    DebugMsg1(("%u GetAndExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lastjmp = NULL;
   }
   return(NOT_ERROR);
 }
 
 /* operator ||, which has the lowest precedence, is handled here */
 
-static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer, struct hll_opnd *hllop)
-/********************************************************************************************************************************************************/
+static ret_code GetExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], uint_32 label, bool is_true, char *buffer)
+/**********************************************************************************************************************************/
 {
   char *ptr = buffer;
   uint_32 truelabel = 0;
+  ret_code rc;
 
   DebugMsg1(("%u GetExpression(>%.32s< buf=>%s<) enter\n", ++evallvl, tokenarray[*i].tokpos, buffer));
 
-  /* v2.08: structure changed from for(;;) to while() to increase
-  * readability and - optionally - handle the second operand differently
-  * than the first.
-  */
-
-  if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
-    DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
-    return(ERROR);
-  }
- // __debugbreak();
-  while (COP_OR == GetCOp(&tokenarray[*i])) {
-
-    uint_32 nlabel;
-    uint_32 olabel;
-    char buff[16];
-
-    /* the generated code of last simple expression has to be modified
-    1. the last jump must be inverted
-    2. a "is_true" label must be created (it's used to jump "behind" the expr)
-    3. create a new label
-    4. the current "false" label must be generated
-
-    if it is a .REPEAT, step 4 is slightly more difficult, since the "false"
-    label is already "gone":
-    4a. create a new label
-    4b. replace the "false" label in the generated code by the new label
-    */
-
-    (*i)++;
-    DebugMsg1(("%u GetExpression: ||-operator found, is_true=%u, lastjmp=%s\n", evallvl, is_true, hllop->lastjmp ? hllop->lastjmp : "NULL"));
-
-    if (is_true == FALSE) {
-      if (hllop->lastjmp) {
-        char *p = hllop->lastjmp;
-        InvertJump(p);           /* step 1 */
-        if (truelabel == 0)      /* step 2 */
-          truelabel = GetHllLabel();
-        if (*p ) { /* v2.11: there might be a 0 at lastjmp */
-          p += 4;                /* skip 'jcc ' or 'jmp ' */
-          GetLabelStr(truelabel, p);
-          strcat(p, EOLSTR);
-        }
-        /* v2.08: if-block added */
-        if (hllop->lasttruelabel)
-          ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-        DebugMsg1(("%u GetExpression: jmp inverted, dest changed >%s<\n", evallvl, ptr));
-        hllop->lastjmp = NULL;
-
-        nlabel = GetHllLabel();  /* step 3 */
-        olabel = GetLabel(hll, ilabel);
-        if (hll->cmd == HLL_REPEAT) {
-          ReplaceLabel(buffer, olabel, nlabel);
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(nlabel, buff));
-        }
-        else {
-          sprintf(ptr + strlen(ptr), "%s" LABELQUAL EOLSTR, GetLabelStr(olabel, buff));
-          ReplaceLabel(buffer, olabel, nlabel);
-        }
-        DebugMsg1(("%u GetExpression: dest changed, label added >%s<\n", evallvl, ptr));
-      }
+  for (;;) {
+    /* all terms but the last decide the expression only if they're true */
+    if (is_true == FALSE && IsTermFollowing(*i, tokenarray, COP_OR)) {
+      if (truelabel == 0)
+        truelabel = GetHllLabel();
+      rc = GetAndExpression(hll, i, tokenarray, truelabel, TRUE, ptr);
     }
-    ptr += strlen(ptr);
-    hllop->lasttruelabel = 0; /* v2.08 */
-    if (ERROR == GetAndExpression(hll, i, tokenarray, ilabel, is_true, ptr, hllop)) {
+    else
+      rc = GetAndExpression(hll, i, tokenarray, label, is_true, ptr);
+    if (rc == ERROR) {
       DebugMsg1(("%u GetExpression exit, error\n", evallvl--));
       return(ERROR);
     }
-  }
-  if (truelabel > 0) {
-    /* v2.08: this is needed, but ober-hackish. to be improved... */
-    if (hllop->lastjmp && hllop->lasttruelabel) {
-      DebugMsg1(("%u GetExpression: suppressed ReplaceLabel %u -> %u, lastjmp=%s\n", evallvl, hllop->lasttruelabel, truelabel, hllop->lastjmp));
-      ReplaceLabel(ptr, hllop->lasttruelabel, truelabel);
-      *(strchr(hllop->lastjmp, EOLCHAR) + 1) = NULLC;
-    }
     ptr += strlen(ptr);
+    if (COP_OR != GetCOp(&tokenarray[*i]))
+      break;
+    (*i)++;
+  }
+
+  if (truelabel) {
     GetLabelStr(truelabel, ptr);
     strcat(ptr, LABELQUAL EOLSTR);
-    DebugMsg1(("%u GetExpression: label added >%s<\n", evallvl, ptr));
-    hllop->lasttruelabel = truelabel; /* v2.08 */
   }
   DebugMsg1(("%u GetExpression exit\n", evallvl--));
   return(NOT_ERROR);
@@ -1121,12 +971,10 @@ static ret_code QueueTestLines(char *src)
 static ret_code EvaluateHllExpression(struct hll_item *hll, int *i, struct asm_tok tokenarray[], int ilabel, bool is_true, char *buffer)
 /****************************************************************************************************************************************/
 {
-  struct hll_opnd hllop = { NULL, 0 };
-
   DebugMsg1(("EvaluateHllExpression enter\n"));
 
   *buffer = NULLC;
-  if (ERROR == GetExpression(hll, i, tokenarray, ilabel, is_true, buffer, &hllop))
+  if (ERROR == GetExpression(hll, i, tokenarray, GetLabel(hll, ilabel), is_true, buffer))
     return(ERROR);
   /* v2.11: changed */
   //if ( *buffer == EOLCHAR ) {
@@ -1784,7 +1632,8 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
 
                             /* create a jump to test label */
                             /* optimisation: if line at 'test' label is just a jump, dont create label and don't jump! */
-      if (_memicmp(buffer, "jmp", 3)) {
+      sprintf(buff, "jmp " LABELFMT, hll->labels[LSTART]);
+      if (strncmp(buffer, buff, strlen(buff)) || buffer[strlen(buff)] != EOLCHAR) {
         hll->labels[LTEST] = GetHllLabel();
         AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LTEST], buff));
       }
@@ -2746,17 +2595,19 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
     }
     i++;
     //Insert .CONTINUE label here if there is any
-    if (hll->labels[LCONT] && (hll->counterlines[0] || hll->condlines[0]))
+    if (hll->labels[LCONT] && hll->labels[LCONT] != hll->labels[LSTART])
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LCONT], buff));
     if (hll->counterlines[0]) {
       ForInitAndNext(tokenarray, hll->cmcnt, hll->counterlines);
       LclFree(hll->counterlines);
     }
-    if (hll->condlines[0]) {
+    if (hll->labels[LTEST]) { /* there is a condition, possibly a constant one without any lines */
       /* create test label */
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LTEST], buff));
-      QueueTestLines(hll->condlines);
-      LclFree(hll->condlines);
+      if (hll->condlines[0]) {
+        QueueTestLines(hll->condlines);
+        LclFree(hll->condlines);
+      }
     }
     else
       AddLineQueueX(" jmp %s", GetLabelStr(hll->labels[LSTART], buff));
-- 
2.43.0


From 5ff7f5c4011d076722110e39178f0c95d63d02ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 42/98] fix: long conditions of HLL directives overflowed the
 line buffer

---
 hll.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hll.c b/hll.c
index 62cea46..83de319 100644
--- a/hll.c
+++ b/hll.c
@@ -1317,7 +1317,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
   ret_code             rc = NOT_ERROR;
   int                  cmd = tokenarray[i].tokval;
   char buff[16];
-  char buffer[MAX_LINE_LEN * 2];
+  char buffer[MAX_LINE_LEN * 8]; /* a condition may need several lines for each operand */
   struct expr         opndx;
   struct asm_tok      *t;
   DebugMsg1(("HllStartDir(%s) enter\n", tokenarray[i].string_ptr));
@@ -1692,7 +1692,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
   uint_16             lbl;
   int             swsize;
   char buff[16];
-  char buffer[MAX_LINE_LEN * 2];
+  char buffer[MAX_LINE_LEN * 8]; /* a condition may need several lines for each operand */
   char unum[16];
 
   DebugMsg1(("HllEndDir(%s) enter\n", tokenarray[i].string_ptr));
@@ -2718,7 +2718,7 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   uint_16             *newlp;
   char buff[16];
   char                *p;
-  char buffer[MAX_LINE_LEN];
+  char buffer[MAX_LINE_LEN * 8];
 #if AMD64_SUPPORT
   int_64              *newcp64;
 #endif
-- 
2.43.0


From 322a516e38e9bc25f83da71c25075c0f0221766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 43/98] fix: .SWITCH lost or misplaced table entries (rows of
 75 items, distances above 31 bits, 64-bit values), ran into its own dispatch
 code without final .BREAK and ignored .DEFAULT without cases

---
 hll.c | 123 ++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 73 insertions(+), 50 deletions(-)

diff --git a/hll.c b/hll.c
index 83de319..cb8f5fd 100644
--- a/hll.c
+++ b/hll.c
@@ -143,6 +143,8 @@ struct hll_item {
   uint_16             *plabels;
   uint_16             savedlab;
   bool                breakoccured;   /* condition  */
+  uint_32             caseofs;        /* offset of the last .CASE */
+  uint_32             breakofs;       /* offset behind the last .BREAK */
 #if AMD64_SUPPORT
   int_64              maxcase64;
   int_64              mincase64;
@@ -344,7 +346,9 @@ static void bubblesort(struct hll_item *hll, uint_16 *lbl, int *src, int n) {
 
   hll->mincase = src[0];
   hll->maxcase = src[n - 1];
-  hll->delta = hll->maxcase - hll->mincase;
+  hll->delta = (int)((uint_32)hll->maxcase - (uint_32)hll->mincase);
+  if (hll->delta < 0) /* distance exceeds 31 bits */
+    hll->delta = 0x7fffffff;
 }
 #if AMD64_SUPPORT 
 static void bubblesort64(struct hll_item *hll, uint_16 *lbl, int_64 *src, int n) {
@@ -1320,6 +1324,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
   char buffer[MAX_LINE_LEN * 8]; /* a condition may need several lines for each operand */
   struct expr         opndx;
   struct asm_tok      *t;
+  char                *opnd;
   DebugMsg1(("HllStartDir(%s) enter\n", tokenarray[i].string_ptr));
 
   i++; /* skip directive */
@@ -1400,36 +1405,39 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
     hll->casecnt = 0;
     hll->csize = 4;
     hll->breakoccured = TRUE; //first label for .CASE hast to be set
+    hll->multicase = 0;
+    hll->breakofs = -1;
 
     if (tokenarray[i].token != T_FINAL) {
       DebugMsg1(("HllStartDir(%s): calling EvalOperand, i=%u\n", tokenarray[i].string_ptr, i));
+      opnd = tokenarray[i].tokpos; /* the operand may have more than one token */
       if (EvalOperand(&i, tokenarray, Token_Count, &opndx, 0) == ERROR) {
         DebugMsg(("HllStartDir(%s): EvalOperand() failed\n", tokenarray[i].string_ptr));
         return(ERROR);
       }
       i--; //EvalOperand increases i, decrease it to point to proper tokenarray[i].tokpos
-      switch (opndx.kind) {
+      switch (opndx.indirect ? EXPR_ADDR : opndx.kind) {
       case EXPR_REG:
         t = opndx.base_reg;
         if (ModuleInfo.Ofssize == USE32) {
           if (t->tokval <= T_DI)   // AL, CL, DL, BL, AH, CH, DH, BH, AX, CX, DX, BX
-            AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
+            AddLineQueueX(" movzx eax, %s", opnd);
           else {
             if (t->tokval != T_EAX) //skip it, no need to write MOV EAX,EAX
-              AddLineQueueX(" mov eax, %s", tokenarray[i].tokpos);
+              AddLineQueueX(" mov eax, %s", opnd);
           }
         }
 #if AMD64_SUPPORT
         else             //USE64
         {
         if (t->tokval != T_EAX){ //skip it, no need to write MOV EAX,EAX
-            if (t->tokval <= T_DI) // AL, CL, DL, BL, AH, CH, DH, BH, AX, CX, DX, BX
-              AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
-            else if (t->tokval <= T_EDI) //EAX,ECX,EDX,EBX,ESP,EBP,ESI,EDI
-              AddLineQueueX(" mov eax, %s", tokenarray[i].tokpos);
+            if (SizeFromRegister(t->tokval) <= 2) // AL, CL, DL, BL, AH, CH, DH, BH, AX, CX, DX, BX
+              AddLineQueueX(" movzx eax, %s", opnd);
+            else if (SizeFromRegister(t->tokval) == 4) //EAX,ECX,EDX,EBX,ESP,EBP,ESI,EDI
+              AddLineQueueX(" mov eax, %s", opnd);
             else {
               if (t->tokval != T_RAX) //skip it, no need to write MOV RAX,RAX
-                AddLineQueueX(" mov rax, %s", tokenarray[i].tokpos);
+                AddLineQueueX(" mov rax, %s", opnd);
               hll->csize = 8;
             }
           }
@@ -1439,19 +1447,19 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
       case EXPR_ADDR:
         if (ModuleInfo.Ofssize == USE32) {
           if (opndx.mem_type == MT_BYTE || opndx.mem_type == MT_WORD)
-            AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
+            AddLineQueueX(" movzx eax, %s", opnd);
           else
-            AddLineQueueX(" mov eax, %s", tokenarray[i].tokpos);
+            AddLineQueueX(" mov eax, %s", opnd);
         }
 #if AMD64_SUPPORT
         else if (ModuleInfo.Ofssize == USE64)             //USE64
         {
           if (opndx.mem_type == MT_BYTE || opndx.mem_type == MT_WORD)
-            AddLineQueueX(" movzx eax, %s", tokenarray[i].tokpos);
+            AddLineQueueX(" movzx eax, %s", opnd);
           else if (opndx.mem_type == MT_DWORD)
-            AddLineQueueX(" mov eax, %s", tokenarray[i].tokpos);
+            AddLineQueueX(" mov eax, %s", opnd);
           else {
-            AddLineQueueX(" mov rax, %s", tokenarray[i].tokpos);
+            AddLineQueueX(" mov rax, %s", opnd);
             hll->csize = 8;
           }
         }                //end USE64
@@ -1693,7 +1701,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
   int             swsize;
   char buff[16];
   char buffer[MAX_LINE_LEN * 8]; /* a condition may need several lines for each operand */
-  char unum[16];
+  char unum[24];
 
   DebugMsg1(("HllEndDir(%s) enter\n", tokenarray[i].string_ptr));
 
@@ -1738,13 +1746,17 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
           hll->labels[LEXIT] = GetHllLabel();
         AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
         }
+      else if (GetCurrOffset() != hll->breakofs) /* the last case mustn't run into the code below */
+        AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[LEXIT], buff));
       if (hll->labels[LDEF] == 0) {
         hll->labels[LDEF] = GetHllLabel();
         AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LDEF], buff));
         }
       AddLineQueueX("ALIGN %d", dsize);
       AddLineQueueX("%s" LABELQUAL, GetLabelStr(hll->labels[LSTART], buff));
-      if (hll->casecnt == 1)
+      if (hll->casecnt == 0)
+        hll->cflag = 0;
+      else if (hll->casecnt == 1)
         hll->cflag = 1;
       else if (hll->casecnt == 2)
         hll->cflag = 2;
@@ -1755,7 +1767,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
         if (hll->plabels) {
           if (ModuleInfo.Ofssize == USE32 || hll->csize == 4) {
             bubblesort(hll, hll->plabels, hll->pcases, hll->casecnt);
-            if ((hll->delta * 4) <= (hll->casecnt * 4 + hll->casecnt * 2))
+            if (hll->delta <= (hll->casecnt * 4 + hll->casecnt * 2) / 4) /* v2.54: don't multiply delta, may overflow */
               hll->cflag = 6;                   /* we need only jump table */
             else if (hll->delta < 256)
               hll->cflag = 4;                   /* we need both jump table and count table byte size */
@@ -1767,7 +1779,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #if AMD64_SUPPORT
           else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8){     //USE64
               bubblesort64(hll, hll->plabels, hll->pcases64, hll->casecnt);
-              if ((hll->delta64 * 8) <= (hll->casecnt * 8 + hll->casecnt * 2))
+              if (hll->delta64 <= (hll->casecnt * 8 + hll->casecnt * 2) / 8)
                 hll->cflag = 6;
               else if (hll->delta64 < 256)
                 hll->cflag = 4;
@@ -1793,7 +1805,16 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
             else
               strcat(buffer, " dq ");                /* now we have ready start point for the array: @C0006 dq */
             dcnt = 0;                              /* set the counter to zero to count how many elements in one line */
-            for (j = 0; j < hll->casecnt; j++,dcnt++) {
+            for (j = 0; j <= hll->casecnt; j++) {  /* v2.54: the last item is the default (or exit) */
+              if (j == hll->casecnt)
+                GetLabelStr(hll->flags & HLLF_DEFAULTOCCURED ? hll->labels[LDEF] : hll->labels[LEXIT], buff);
+              else if (hll->plabels[j] == lbl)     /* prevent 'label already defined error' */
+                continue;
+              else {
+                lbl = hll->plabels[j];             /* remember the last written address */
+                GetLabelStr(lbl, buff);
+                acnt++;
+                }
               if (dcnt >= 75){                     /* if more than 20 labels in the line add a new row */
                 AddLineQueue(buffer);              /* @C0006 dd @C000C, @C000D, @C000E, @C000F, @C0010...*/
                 memset(buffer, 0, sizeof(buffer)); /* clear the buffer */
@@ -1803,22 +1824,10 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                   strcat(buffer, " dq ");                /* now we have ready start point for the array: @C0006 dq */
                 dcnt = 0;                          /* reset data caunter */
                 }
-              if (hll->plabels[j] != lbl) {        /* prevent 'label already defined error' */
-                GetLabelStr(hll->plabels[j], buff);
-                if (dcnt) strcat(buffer, ", ");    /* we need comma before next element, but not first one */
-                strcat(buffer, buff);              /* add the address in the array */
-                acnt++;
-                }
-              lbl = hll->plabels[j];               /* remember the last written address */
+              if (dcnt) strcat(buffer, ", ");      /* we need comma before next element, but not first one */
+              strcat(buffer, buff);                /* add the address in the array */
+              dcnt++;
               }
-              if (hll->flags & HLLF_DEFAULTOCCURED)
-                GetLabelStr(hll->labels[LDEF], buff);
-              else
-                GetLabelStr(hll->labels[LEXIT], buff);
-                if (dcnt && dcnt < 75){
-                  strcat(buffer, ", ");
-                  strcat(buffer, buff);
-                }
               AddLineQueue(buffer);                  /* write line with the last array */
           } 
           /* here is created data for calculating jumps  */
@@ -1841,7 +1850,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                 temp = (int)hll->pcases[j] - hll->mincase;/* temp contains case EG: .case 4, n contains  */
 #if AMD64_SUPPORT
               else if (ModuleInfo.Ofssize == USE64 && hll->csize == 8)
-                temp = (int)hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
+                temp = hll->pcases64[j] - hll->mincase64;/* temp contains case EG: .case 4, n contains  */
 #endif
               while (n < temp) {                   /* fill the space between 2 cases with the .default */
               if (dcnt) 
@@ -1943,10 +1952,7 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                   strcpy(buffer, " dq ");            /* now start with db 11, 12, 13, @C0014, @C0015...*/
                   dcnt = 0;                          /* reset data caunter */
                   }
-                  if (dcnt)
-                    sprintf(unum, ",%d", hll->pcases64[j]);
-                  else
-                    sprintf(unum, "%d", hll->pcases64[j]);
+                  sprintf(unum, dcnt ? ",0%08X%08Xh" : "0%08X%08Xh", (uint_32)(hll->pcases64[j] >> 32), (uint_32)hll->pcases64[j]);
                   strcat(buffer, unum);
                   dcnt++;
                   j++;
@@ -2066,7 +2072,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                       else if (buffer[10] == ',')buffer[10] = ' ';
                       AddLineQueue(buffer);
                       memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dd ");
+                      strcpy(buffer, " dd , ");
+                      strcat(buffer, buff);
                       dcnt = 0;
                       }
                 n++;
@@ -2149,7 +2156,8 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                       else if (buffer[10] == ',')buffer[10] = ' ';
                       AddLineQueue(buffer);
                       memset(buffer, 0, sizeof(buffer));
-                      strcpy(buffer, " dq ");
+                      strcpy(buffer, " dq , ");
+                      strcat(buffer, buff);
                       dcnt = 0;
                       }
                   n++;
@@ -2175,14 +2183,18 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
                       }
                 if (buffer[4] == ',')buffer[4] = ' ';
                 else if (buffer[10] == ',')buffer[10] = ' ';
-                AddLineQueue(buffer);
+                if (buffer[4] > 0) AddLineQueue(buffer);
                 AddLineQueue(".code");
              }
 #endif
           }
       }
       /* these are code that are inserted to calculate and perform jumps */
-      if (hll->cflag == 1) {
+      if (hll->cflag == 0) {
+        if (hll->flags & HLLF_DEFAULTOCCURED)
+          AddLineQueueX("jmp  %s", GetLabelStr(hll->labels[LDEF], buff));
+        }
+      else if (hll->cflag == 1) {
         if (hll->csize == 4) {
           AddLineQueueX("cmp  eax,%d", hll->pcases[0]);
           AddLineQueueX("je  %s", GetLabelStr(hll->plabels[0], buff));
@@ -2576,14 +2588,16 @@ ret_code HllEndDir(int i, struct asm_tok tokenarray[])
 #endif
       }
     }
-    if (hll->csize == 4) {
-      free(hll->pcases);
-    }
+    if (hll->maxalloccasen) {
+      if (hll->csize == 4) {
+        free(hll->pcases);
+      }
 #if AMD64_SUPPORT
-    else if (ModuleInfo.Ofssize == USE64) 
-      free(hll->pcases64);
+      else if (ModuleInfo.Ofssize == USE64) 
+        free(hll->pcases64);
 #endif
-    free(hll->plabels);
+      free(hll->plabels);
+    }
     break;
     /* end SWITCH */
   case T_DOT_ENDF:
@@ -2709,6 +2723,7 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
 {
   struct expr         opndx;
   struct hll_item     *hll;
+  struct hll_item     *breakswitch = NULL;
   ret_code            rc = NOT_ERROR;
   int                 j;
   int                 idx;
@@ -2790,6 +2805,9 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
           hll->multicase++;                                          /* increase counter */
         }
     }
+    else if (GetCurrOffset() != hll->caseofs)
+      hll->breakoccured = TRUE; /* no .BREAK behind the previous .CASE: this one still needs its own label */
+    hll->caseofs = GetCurrOffset();
     for (;;) {
       if (hll->breakoccured) {
         hll->labels[LTEST] = GetHllLabel();
@@ -2923,7 +2941,7 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     break;
   case T_DOT_BREAK:
   case T_DOT_CONTINUE:
-    for (; hll && hll->cmd == HLL_IF; hll = hll->next);
+    for (; hll && (hll->cmd == HLL_IF || (hll->cmd == HLL_SWITCH && cmd == T_DOT_CONTINUE)); hll = hll->next);
     if (hll == NULL) {
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
     }
@@ -2968,6 +2986,8 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     }
     else {
       AddLineQueueX(JMPPREFIX "jmp %s", GetLabelStr(hll->labels[idx], buff));
+      if (cmd == T_DOT_BREAK && hll == HllStack && hll->cmd == HLL_SWITCH)
+        breakswitch = hll;
     }
     break;
 #ifdef DEBUG_OUT
@@ -2986,6 +3006,9 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
   if (is_linequeue_populated())
     RunLineQueue();
 
+  if (breakswitch)
+    breakswitch->breakofs = GetCurrOffset();
+
   return(rc);
 }
 
-- 
2.43.0


From df3794934fca6ac0de27b7f80b05331a28c51b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 44/98] fix: .FOR with steps that add, subtract, or/xor zero
 cleared the operand; '=-' was taken as '--'; signed '> 0' was tested as '!=
 0'

---
 hll.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hll.c b/hll.c
index cb8f5fd..b9eba83 100644
--- a/hll.c
+++ b/hll.c
@@ -1088,7 +1088,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
     param[a] = '\0';
     //end of param
     //is it simple operator
-    if ((buff[b + 1] == '+') || (buff[b + 1] == '-')) {            //if ++ or -- finish it here
+    if (buff[b] != '=' && ((buff[b + 1] == '+') || (buff[b + 1] == '-'))) {            //if ++ or -- finish it here
       param[a] = '\0';
       if ((buff[b] == '+') && (buff[b + 1] == '+')) strcpy(codebuff, " inc ");
       else if ((buff[b] == '-') && (buff[b + 1] == '-')) strcpy(codebuff, " dec ");
@@ -1249,7 +1249,7 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
       if (tokenarray[0].token == T_REG) {
       simple:			Tokenize(param, 0, tokenarray, 0);
 
-        if (strlen(init) == 1 && init[0] == '0')                        //REX=0?
+        if (strlen(op) == 1 && strlen(init) == 1 && init[0] == '0' && tokenarray[0].token == T_REG)                        //REX=0?
           WriteAsmLine(" xor  ", param, param);							            //XOR REX,REX //instead MOV REX,0
         else if ((strlen(op) == 1) && ((init[4] == ' ') || (init[4] == '\t'))) {  //op is '='
           if ((0 == _memicmp(init, "BYTE PTR", 8)) ||                   //reax=BYTE PTR al
@@ -1551,7 +1551,6 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
-          if (forbuffcond[b - 2] == '>' && forbuffcond[b - 1] == '0') forbuffcond[b - 2] = NULLC;
           forbuffcond[b] = NULLC;
           j++;
           //copy the counter to the buffer
-- 
2.43.0


From 3bde6865af08598e5c1d385d978e69c9d457f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:23 +0000
Subject: [PATCH 45/98] fix: a 32-bit FASTCALL procedure removes just its stack
 arguments

---
 proc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proc.c b/proc.c
index e0aaecf..92f9296 100644
--- a/proc.c
+++ b/proc.c
@@ -437,8 +437,15 @@ static void ms32_return(struct dsym *proc, char *buffer)
 	/* v2.07: changed */
 	//if( proc->e.procinfo->parasize > ( 2 * CurrWordSize ) )
 	//    sprintf( buffer + strlen( buffer ), "%d%c", proc->e.procinfo->parasize - (2 * CurrWordSize), ModuleInfo.radix != 10 ? 't' : NULLC );
-	if (proc->e.procinfo->parasize > (ms32_maxreg[ModuleInfo.Ofssize] * CurrWordSize))
-		sprintf(buffer + strlen(buffer), "%d%c", proc->e.procinfo->parasize - (ms32_maxreg[ModuleInfo.Ofssize] * CurrWordSize), ModuleInfo.radix != 10 ? 't' : NULLC);
+	/* only what isn't passed in a register is on the stack */
+	struct dsym *param;
+	int size = proc->e.procinfo->parasize;
+
+	for (param = proc->e.procinfo->paralist; param; param = param->nextparam)
+		if (param->sym.state == SYM_TMACRO)
+			size -= CurrWordSize;
+	if (size > 0)
+		sprintf(buffer + strlen(buffer), "%d%c", size, ModuleInfo.radix != 10 ? 't' : NULLC);
 	return;
 }
 
-- 
2.43.0


From a74a2d07c4f3c0ba5e0c45e0983a38b046e722a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:40 +0000
Subject: [PATCH 46/98] fix: structures of odd size are passed to 32-bit
 procedures unmangled; FASTCALL reports arguments in registers it has
 overwritten

---
 invoke.c | 76 ++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/invoke.c b/invoke.c
index b78c064..a57c491 100644
--- a/invoke.c
+++ b/invoke.c
@@ -112,6 +112,7 @@ enum reg_used_flags {
 extern void myatoi128( const char *, uint_64[], int, int );
 static int size_vararg;    /* size of :VARARG arguments */
 static int fcscratch = 0;  /* exclusively to be used by FASTCALL helper functions */
+static int fcloaded = 0;   /* 32-bit MS FASTCALL: argument registers that are loaded already */
 static int vcallpass = 0;  /* static global to determine which vectorcall pass we're in */
 
 struct fastcall_conv {
@@ -284,12 +285,35 @@ static void ms32_fcend( struct dsym const *proc, int numparams, int value )
     return;
 }
 
+/* check that a register of an argument still has its value */
+static void ms32_checkreg( struct asm_tok const *tok, uint_8 *r0used )
+/********************************************************************/
+{
+    int no;
+
+    if ( tok == NULL || tok->token != T_REG || ( GetValueSp( tok->tokval ) & OP_R ) == 0 )
+        return;
+    no = GetRegNo( tok->tokval );
+    if ( tok->tokval >= T_AH && tok->tokval <= T_BH )
+        no -= 4;
+    if ( ( fcloaded & ( 1 << no ) ) || ( no == 0 && ( *r0used & R0_USED ) ) ) {
+        EmitErr( REGISTER_VALUE_OVERWRITTEN_BY_INVOKE );
+        fcloaded = 0;
+        *r0used &= ~R0_USED;
+    }
+}
+
 static int ms32_param( struct dsym const *proc, int index, struct dsym *param, bool addr, struct expr *opnd, char *paramvalue, uint_8 *r0used )
 /*********************************************************************************************************************************************/
 {
     enum special_token const *pst;
 
     DebugMsg1(("ms32_param(proc=%s, ofs=%u, index=%u, param=%s) fcscratch=%u\n", proc->sym.name, proc->sym.Ofssize, index, param->sym.name, fcscratch ));
+
+	if ( GetSymOfssize( &proc->sym ) != USE16 ) {
+        ms32_checkreg( opnd->base_reg, r0used );
+        ms32_checkreg( opnd->idx_reg, r0used );
+    }
     
 	if ( param->sym.state != SYM_TMACRO || param->sym.mem_type == MT_REAL4 || param->sym.mem_type == MT_REAL8 )
         return( 0 );
@@ -301,9 +325,10 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
         fcscratch--;
         pst = ms32_regs + fcscratch;
     }
-    if ( addr )
+    if ( addr ) {
         AddLineQueueX( " lea %r, %s", *pst, paramvalue );
-    else {
+        fcloaded |= 1 << GetRegNo( *pst );
+    } else {
         enum special_token reg = *pst;
         int size;
         /* v2.08: adjust register if size of operand won't require the full register */
@@ -324,6 +349,7 @@ static int ms32_param( struct dsym const *proc, int index, struct dsym *param, b
             }
             AddLineQueueX( " mov %r, %s", reg, paramvalue );
         }
+        fcloaded |= 1 << GetRegNo( reg );
     }
     if ( *pst == T_AX )
         *r0used |= R0_USED;
@@ -3625,6 +3651,8 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 			else
 				asize2 = SizeFromRegister(tokenarray[j].tokval);
 			asize = SizeFromRegister(tokenarray[j + 2].tokval);
+			if (proc->sym.langtype == LANG_FASTCALL && ModuleInfo.Ofssize == USE32 && ModuleInfo.fctype == FCT_MSC)
+				ms32_checkreg(&tokenarray[j], r0flags);
 			AddLineQueueX(" push %r", tokenarray[j].tokval);
 			/* v2.04: changed */
 			if ((curr->sym.is_vararg) && (asize + asize2) != CurrWordSize)
@@ -3766,30 +3794,22 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 				/* UASM 2.49 32bit struct size for invoke fix */
 				if (ModuleInfo.Ofssize != USE32)
 					goto only64;
-				if (asize == 5) {
-					if (pushsize == 4) {
-						AddLineQueueX(" sub %r, 2", T_ESP);
-						AddLineQueueX(" mov al, byte ptr %s[7]", fullparam); 
-						AddLineQueueX(" push ax");
-						AddLineQueueX(" push dword ptr %s", fullparam);
-					}
-				}
-				else if (asize == 6 && curr->sym.mem_type != MT_FWORD) {
-					if (pushsize == 4) {
+				/* a byte at the end has to be pushed through AL */
+				if (asize & 1) {
+					asize--;
+					if (!(asize & 2))
 						AddLineQueueX(" sub %r, 2", T_ESP);
-						AddLineQueueX(" push word ptr %s[6]", fullparam);
-						AddLineQueueX(" push dword ptr %s", fullparam);
-					}
-				}
-				else if (asize == 7) {
-					if (pushsize == 4) {
-						AddLineQueueX(" mov al, byte ptr %s[6]", fullparam);
-						AddLineQueue(" push ax");
-						AddLineQueueX(" push word ptr %s[10]", fullparam);
-						AddLineQueueX(" push dword ptr %s[6]", fullparam);
+					AddLineQueueX(" mov %r, byte ptr %s+%u", T_AL, fullparam, NUMQUAL asize);
+					AddLineQueueX(" push %r", T_AX);
+					*r0flags = R0_USED;
+					if (asize & 2) {
+						asize -= 2;
+						AddLineQueueX(" push word ptr %s+%u", fullparam, NUMQUAL asize);
 					}
+					if (curr->sym.is_vararg)
+						size_vararg += 4 - ((psize) & 3);
 				}
-				else {
+				{
 				only64:         
 					while (asize > 0) {
 
@@ -3815,7 +3835,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 					else {
 
 						/* v2.23 if stack base is ESP */
-						if (CurrProc && ModuleInfo.basereg[ModuleInfo.Ofssize] == T_ESP)
+						if (CurrProc && ModuleInfo.basereg[ModuleInfo.Ofssize] == T_ESP && opnd.sym && opnd.sym->state == SYM_STACK)
 							AddLineQueueX(" push %r ptr %s+%u", dw, fullparam, NUMQUAL pushsize);
 						else
 							AddLineQueueX(" push %r ptr %s+%u", dw, fullparam, NUMQUAL asize - pushsize);
@@ -3921,9 +3941,10 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 						{
 							if (pushsize == 4) 
 							{
-								AddLineQueueX(" mov al, byte ptr %s[2]", fullparam);
-								AddLineQueue(" push ax");
-								AddLineQueueX(" push word ptr %s[2]", fullparam);
+								AddLineQueueX(" mov %r, byte ptr %s+2", T_AL, fullparam);
+								AddLineQueueX(" push %r", T_AX);
+								AddLineQueueX(" push word ptr %s", fullparam);
+								*r0flags = R0_USED;
 							}
 							else 
 							{
@@ -4420,6 +4441,7 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 	}
 
 	fcscratch = 0;
+	fcloaded = 0;
 	if (proc->sym.langtype == LANG_FASTCALL) 
 		porder = fastcall_tab[ModuleInfo.fctype].invokestart(proc, numParam, i, tokenarray, &value);
 	else if (proc->sym.langtype == LANG_VECTORCALL) 
-- 
2.43.0


From d951329d1260d60cc5960c413cc73b8ba22806f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 47/98] fix: a PROTO with a pointer in a FASTCALL register no
 longer crashes the assembler at the PROC

---
 proc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 92f9296..70265a5 100644
--- a/proc.c
+++ b/proc.c
@@ -912,7 +912,8 @@ static ret_code ParseParams(struct dsym *proc, int i, struct asm_tok tokenarray[
 			if (paracurr->sym.mem_type == MT_TYPE)
 				to = paracurr->sym.type;
 			else
-				to = (paracurr->sym.mem_type == MT_PTR ? paracurr->sym.target_type : NULL);
+				/* for a register parameter, regist[] is where target_type was */
+				to = (paracurr->sym.mem_type == MT_PTR ? (paracurr->sym.state == SYM_TMACRO ? tn : paracurr->sym.target_type) : NULL);
 			for (; to && to->type; to = to->type);
 			oo = (paracurr->sym.Ofssize != USE_EMPTY) ? paracurr->sym.Ofssize : ModuleInfo.Ofssize;
 			on = (ti.Ofssize != USE_EMPTY) ? ti.Ofssize : ModuleInfo.Ofssize;
-- 
2.43.0


From 5f22dc1ec7accd458ba56e7475e8c48114a0b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 48/98] fix: a register pair as INVOKE argument has no index
 register

---
 invoke.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/invoke.c b/invoke.c
index a57c491..cb3743b 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3665,6 +3665,7 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 			opnd.indirect = FALSE;
 			opnd.sym = NULL;
 			opnd.base_reg = &tokenarray[j + 2]; /* for error msg 'eax overwritten...' */
+			opnd.idx_reg = NULL;
 		}
 		else {
 			/* v2.06: don't handle forward refs if -Zne is set */
-- 
2.43.0


From f1166beeac1a572613d33d58a518e6b5d19ad211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:41 +0000
Subject: [PATCH 49/98] fix: INVOKE accepts 0.0 for a REAL8 parameter in 64-bit
 code

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index e893d94..17a828b 100644
--- a/parser.c
+++ b/parser.c
@@ -996,7 +996,7 @@ static ret_code idata_nofixup( struct code_info *CodeInfo, unsigned CurrOpnd, co
     if ( CodeInfo->Ofssize == USE64 && CodeInfo->token == T_MOV && CurrOpnd == OPND2 &&
         ( CodeInfo->opnd[OPND1].type & OP_R64 ) &&
         ( opndx->value64 > H_LONG_MAX || opndx->value64 < H_LONG_MIN ||
-         (opndx->explicit && ( opndx->mem_type == MT_QWORD || opndx->mem_type == MT_SQWORD ) ) ) ) 
+         (opndx->explicit && ( opndx->mem_type == MT_QWORD || opndx->mem_type == MT_SQWORD || opndx->mem_type == MT_REAL8 ) ) ) ) 
 	{
         CodeInfo->opnd[CurrOpnd].type = OP_I64;
         CodeInfo->opnd[CurrOpnd].data32h = opndx->hvalue;
-- 
2.43.0


From 842b267bb3d8c8dfaf00064d26eee50b1bd06db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 50/98] fix: WIN64 INVOKE reports AH, CH and DH overwritten by
 an earlier argument

---
 invoke.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/invoke.c b/invoke.c
index cb3743b..7d2bb80 100644
--- a/invoke.c
+++ b/invoke.c
@@ -567,6 +567,8 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 		reg = opnd->base_reg->tokval;
 		if (GetValueSp(reg) & OP_R) {
 			i = GetRegNo(reg);
+			if (reg >= T_AH && reg <= T_BH) /* AH, CH, DH, BH are parts of registers 0-3 */
+				i -= 4;
 			if (REGPAR_WIN64 & (1 << i)) {
 				base = GetParmIndex(i);
 				if (*regs_used & (1 << (base + RPAR_START)))
-- 
2.43.0


From 8a38158918cc6bf3a64c7a208f90fafcbb00886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 51/98] fix: RSP-based prologue with USES xmm and locals keeps
 the stack 16-byte aligned

---
 proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index 70265a5..9f4ca08 100644
--- a/proc.c
+++ b/proc.c
@@ -3326,7 +3326,7 @@ static void write_win64_default_prologue_RSP(struct proc_info *info)
 			DebugMsg1(("write_win64_default_prologue_RSP: localsize=%u resstack=%u\n", info->localsize, resstack));
 			if (ModuleInfo.win64_flags & W64F_HABRAN) {
 				if (((info->pushed_reg & 1) && (info->localsize & 0xF)) ||
-					((!(info->pushed_reg & 1)) && (!(info->localsize & 0xF))) && (!(info->pushed_reg & 1)) && (!(cntxmm)))
+					((!(info->pushed_reg & 1)) && (!(info->localsize & 0xF))) && (!(info->pushed_reg & 1)))
 				{
 					info->localsize += 8;
 					if (CurrProc->sym.langtype == LANG_VECTORCALL) {
-- 
2.43.0


From 4da6ca4c1a762f1faf3a2b8ba7d1b51330062de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:30 +0000
Subject: [PATCH 52/98] fix: SystemV INVOKE passes the address for ADDR [reg],
 not the memory there

---
 invoke.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/invoke.c b/invoke.c
index 7d2bb80..ec8eb54 100644
--- a/invoke.c
+++ b/invoke.c
@@ -2432,7 +2432,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 				}
 			}
 			/* Operand is register indirect */
-			if (opnd->kind == EXPR_REG && opnd->indirect == TRUE)
+			if (opnd->kind == EXPR_REG && opnd->indirect == TRUE && !addr)
 			{ 
 				AddLineQueueX("mov %s, %s", param->sym.string_ptr, paramvalue);
 
@@ -2813,7 +2813,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 			}
 
 			/* Operand is register indirect */
-			if (opnd->kind == EXPR_REG && opnd->indirect == TRUE)
+			if (opnd->kind == EXPR_REG && opnd->indirect == TRUE && !addr)
 			{
 				psize = SizeFromMemtype(opnd->mem_type, USE64, opnd->type);
 				if (psize == 0) psize = SizeFromMemtype(param->sym.mem_type, USE64, opnd->type); // If no size specifed, assume parameter defines the size.
-- 
2.43.0


From 6584a1452bed48cebb0c11db1aae44e0beb65f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 53/98] fix: SystemV INVOKE notices overwritten R8W/R9W and
 index registers

---
 invoke.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index ec8eb54..ae225a7 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1539,41 +1539,49 @@ static int sysv_regTo64(unsigned int reg)
 				resultReg = T_RSP;
 				break;
 			case T_R8B:
+			case T_R8W:
 			case T_R8D:
 			case T_R8:
 				resultReg = T_R8;
 				break;
 			case T_R9B:
+			case T_R9W:
 			case T_R9D:
 			case T_R9:
 				resultReg = T_R9;
 				break;
 			case T_R10B:
+			case T_R10W:
 			case T_R10D:
 			case T_R10:
 				resultReg = T_R10;
 				break;
 			case T_R11B:
+			case T_R11W:
 			case T_R11D:
 			case T_R11:
 				resultReg = T_R11;
 				break;
 			case T_R12B:
+			case T_R12W:
 			case T_R12D:
 			case T_R12:
 				resultReg = T_R12;
 				break;
 			case T_R13B:
+			case T_R13W:
 			case T_R13D:
 			case T_R13:
 				resultReg = T_R13;
 				break;
 			case T_R14B:
+			case T_R14W:
 			case T_R14D:
 			case T_R14:
 				resultReg = T_R14;
 				break;
 			case T_R15B:
+			case T_R15W:
 			case T_R15D:
 			case T_R15:
 				resultReg = T_R15;
@@ -2083,7 +2091,7 @@ static int sysv_param(struct dsym const *proc, int index, struct dsym *param, bo
 		reg2 = sysv_regTo64(opnd->idx_reg->tokval);
 		if (GetValueSp(reg2) & OP_R) 
 		{
-			base = sysv_reg(reg);
+			base = sysv_reg(reg2);
 			if (base <= 6 && *regs_used & (1 << base))
 				destroyed = TRUE;
 		}
-- 
2.43.0


From f70030b2b1399a2fd612b5adcb3e7d39e1ffebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:57 +0000
Subject: [PATCH 54/98] fix: WIN64 INVOKE accepts a DWORD argument for a QWORD
 parameter on the stack

---
 invoke.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke.c b/invoke.c
index ae225a7..fb660ac 100644
--- a/invoke.c
+++ b/invoke.c
@@ -718,7 +718,7 @@ static int ms64_param(struct dsym const *proc, int index, struct dsym *param, bo
 					if (IS_SIGNED(opnd->mem_type))
 						AddLineQueueX(" movsxd %r, %s", i, paramvalue);
 					else
-						AddLineQueueX(" mov %r, %s", i, paramvalue);
+						AddLineQueueX(" mov %r, %s", T_EAX, paramvalue);
 				}
 				else
 					AddLineQueueX(" mov%sx %r, %s", IS_SIGNED(opnd->mem_type) ? "s" : "z", i, paramvalue);
-- 
2.43.0


From 6e1cc9c55bda2c7584501a41c560d71831ab9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 55/98] fix: .SAVEREG and .SAVEXMM128 with offsets of 512K (1M)
 and more encode the unscaled offset

---
 proc.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/proc.c b/proc.c
index 9f4ca08..c2c8620 100644
--- a/proc.c
+++ b/proc.c
@@ -2513,10 +2513,10 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 		switch (token) {
 		case T_DOT_SAVEREG:
 			puc->OpInfo = reg;
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 19);
+			if (opndx.uvalue >= 65536 * size) { /* the FAR codes hold the unscaled offset */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 3);
+				puc->FrameOffset = (opndx.uvalue & 0xFFFF);
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_NONVOL_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2532,10 +2532,10 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			break;
 		case T_DOT_SAVEXMM128:
 		case T_DOT_SAVEYMM256:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.uvalue >= 65536 * size) { /* the FAR codes hold the unscaled offset */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = (opndx.uvalue & 0xFFFF);
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
@@ -2567,10 +2567,10 @@ ret_code ExcFrameDirective(int i, struct asm_tok tokenarray[])
 			//    puc->OpInfo = reg;
 			//    break;
 		case T_DOT_SAVEZMM512:
-			if (opndx.value > 65536 * size) {
-				puc->FrameOffset = (opndx.value >> 20);
+			if (opndx.uvalue >= 65536 * size) { /* the FAR codes hold the unscaled offset */
+				puc->FrameOffset = (opndx.uvalue >> 16);
 				puc++;
-				puc->FrameOffset = (opndx.value >> 4);
+				puc->FrameOffset = (opndx.uvalue & 0xFFFF);
 				puc++;
 				puc->UnwindOp = UWOP_SAVE_XMM128_FAR;
 				unw_info.CountOfCodes += 3;
-- 
2.43.0


From 736282cafa696df3540fbbe3f60918b231e37586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:53 +0000
Subject: [PATCH 56/98] fix: errors found in pass 2 in macros called from
 include files name the include file

---
 H/fastpass.h | 1 +
 assemble.c   | 2 +-
 fastpass.c   | 7 ++-----
 input.c      | 3 +--
 4 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/H/fastpass.h b/H/fastpass.h
index 330e955..4b241ae 100644
--- a/H/fastpass.h
+++ b/H/fastpass.h
@@ -30,6 +30,7 @@ struct equ_item {
 struct line_item {
     struct line_item *next;
     uint_32 lineno:20, srcfile:12;
+    uint_8 inmacro;   /* line was generated by a macro */
     uint_32 list_pos; /* position .LST file */
     char line[1];
 };
diff --git a/assemble.c b/assemble.c
index 86c34c5..61d9c95 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1218,7 +1218,7 @@ static int OnePass( void )
             set_curr_srcfile( LineStoreCurr->srcfile, LineStoreCurr->lineno );
             /* v2.06: list flags now initialized on the top level */
             ModuleInfo.line_flags = 0;
-            MacroLevel = ( LineStoreCurr->srcfile == 0xFFF ? 1 : 0 );
+            MacroLevel = LineStoreCurr->inmacro;
             DebugMsg1(("OnePass(%u) cur/nxt=%X/%X src=%X.%u mlvl=%u: >%s<\n", Parse_Pass+1, LineStoreCurr, LineStoreCurr->next, LineStoreCurr->srcfile, LineStoreCurr->lineno, MacroLevel, LineStoreCurr->line ));
             ModuleInfo.CurrComment = NULL; /* v2.08: added (var is never reset because GetTextLine() isn't called) */
 #if USELSLINE
diff --git a/fastpass.c b/fastpass.c
index 3a8a050..7ee0311 100644
--- a/fastpass.c
+++ b/fastpass.c
@@ -84,11 +84,8 @@ void StoreLine( const char *srcline, int flags, uint_32 lst_position )
     LineStoreCurr = LclAlloc( i + j + sizeof( struct line_item ) );
     LineStoreCurr->next = NULL;
     LineStoreCurr->lineno = GetLineNumber();
-    if ( MacroLevel ) {
-        LineStoreCurr->srcfile = 0xfff;
-    } else {
-        LineStoreCurr->srcfile = get_curr_srcfile();
-    }
+    LineStoreCurr->srcfile = get_curr_srcfile();
+    LineStoreCurr->inmacro = ( MacroLevel != 0 );
     LineStoreCurr->list_pos = ( lst_position ? lst_position : list_pos );
     if ( j ) {
         memcpy( LineStoreCurr->line, srcline, i );
diff --git a/input.c b/input.c
index f40a3ac..fa1e73f 100644
--- a/input.c
+++ b/input.c
@@ -456,8 +456,7 @@ unsigned get_curr_srcfile( void )
 void set_curr_srcfile( unsigned file, uint_32 line_num )
 /******************************************************/
 {
-    if ( file != 0xFFF ) /* 0xFFF is the special value for macro lines */
-        src_stack->srcfile = file;
+    src_stack->srcfile = file;
     src_stack->line_num = line_num;
     return;
 }
-- 
2.43.0


From 16e6d1ca4212167cb6444b45e93e8f8bf3f717f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 57/98] fix: offset of a label relative to its segment is
 correct in segments inside of groups (BIN/MZ)

---
 bin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bin.c b/bin.c
index c240bd0..889e857 100644
--- a/bin.c
+++ b/bin.c
@@ -515,8 +515,13 @@ static ret_code DoFixup( struct dsym *curr, struct calc_param *cp )
                         value += cp->imagebase;
                     }
 #endif
-                } else
-                    value = (seg->e.seginfo->start_offset & 0xF) + fixup->offset + offset;
+                } else {
+                    value = seg->e.seginfo->start_offset;
+                    /* the start offset of a group member is relative to the group */
+                    if ( seg->e.seginfo->group )
+                        value += seg->e.seginfo->group->offset;
+                    value = (value & 0xF) + fixup->offset + offset;
+                }
 
                 DebugMsg(("DoFixup(%s): loc=%04" I32_SPEC "X, sym=%s, target->start_offset=%" I32_SPEC "Xh, fixup->offset=%" I32_SPEC "Xh, fixup->sym->offset=%" I32_SPEC "Xh\n",
                         curr->sym.name, fixup->locofs, fixup->sym->name, seg->e.seginfo->start_offset, fixup->offset, offset ));
-- 
2.43.0


From 805b5fad92aaf0b8f1a96c438964711b4c029abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:46 +0000
Subject: [PATCH 58/98] fix: MZ header: the stack doesn't exceed its segment if
 it isn't paragraph aligned

---
 bin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bin.c b/bin.c
index 889e857..dfda790 100644
--- a/bin.c
+++ b/bin.c
@@ -1664,9 +1664,10 @@ static ret_code bin_write_module( struct module_info *modinfo )
             if ( stack->e.seginfo->group )
                 addr += stack->e.seginfo->group->offset;
             DebugMsg(("bin_write_module: MZ, stack=%" I32_SPEC "Xh ofs=%" I32_SPEC "Xh\n", addr, stack->sym.max_offset ));
-            pMZ->e_ss = (addr >> 4) + ((addr & 0xF) ? 1 : 0); /* SS */
+            pMZ->e_ss = addr >> 4; /* SS */
             /* v2.11: changed sym.offset to sym.max_offset */
-            pMZ->e_sp = stack->sym.max_offset; /* SP */
+            addr = (addr & 0xF) + stack->sym.max_offset;
+            pMZ->e_sp = ( addr > 0x10000 ? 0 : addr ); /* SP; the stack's last bytes may be out of reach */
         } else {
             EmitWarn( 2, NO_STACK );
         }
-- 
2.43.0


From 8b98903997c80113f65e79897414c876997a703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 59/98] fix: MZ: uninitialized segments occupy space in the
 image

---
 bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index dfda790..d31701f 100644
--- a/bin.c
+++ b/bin.c
@@ -283,7 +283,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         //fileoffset += curr->sym.max_offset;
 #if PE_SUPPORT
         cp->rva += curr->sym.max_offset - curr->e.seginfo->start_loc;
-        if ( curr->e.seginfo->segtype == SEGTYPE_BSS )
+        if ( curr->e.seginfo->segtype == SEGTYPE_BSS && ModuleInfo.sub_format != SFORMAT_MZ )
             ;
         else
 #endif
-- 
2.43.0


From e35a323eb7ae149c42d96a4e816da8fadb959145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:17 +0000
Subject: [PATCH 60/98] fix: BIN/MZ: segments between the members of a group
 are included in offsets

---
 H/symbols.h | 1 +
 bin.c       | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/H/symbols.h b/H/symbols.h
index 0853c01..4a25a3b 100644
--- a/H/symbols.h
+++ b/H/symbols.h
@@ -300,6 +300,7 @@ struct grp_info {
     int                 grp_idx;        /* its group index (OMF) */
     int                 lname_idx;      /* LNAME index (OMF only) */
     unsigned            numseg;         /* OMF: number of segments in the group */
+    uint_32             fileend;        /* BIN/MZ: file offset behind the group's last segment */
 };
 
 typedef uint_8 * (* FlushSegFunc)( struct dsym *, uint_8 *, unsigned, void * );
diff --git a/bin.c b/bin.c
index d31701f..b4b749f 100644
--- a/bin.c
+++ b/bin.c
@@ -212,6 +212,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
     uint_32 align;
     uint_32 alignbytes;
     uint_32 offset;
+    uint_32 gap;
     struct dsym *grp;
 
     if ( curr->e.seginfo->segtype == SEGTYPE_ABS ) {
@@ -223,6 +224,8 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
         return;
 
     grp = (struct dsym *)curr->e.seginfo->group;
+    /* bytes of segments outside of the group since its last segment */
+    gap = ( grp && grp->sym.total_size ) ? cp->fileoffset - grp->e.grpinfo->fileend : 0;
     if ( cp->alignment > curr->e.seginfo->alignment )
         align = 1 << cp->alignment;
     else
@@ -243,7 +246,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
                 grp->sym.offset = cp->fileoffset - cp->sizehdr;
                 offset = 0;
             } else
-                offset = grp->sym.total_size + alignbytes;
+                offset = grp->sym.total_size + gap + alignbytes;
         DebugMsg(("CalcOffset(%s): fileofs=%" I32_SPEC "Xh, alignbytes=%" I32_SPEC "u, ofs=%" I32_SPEC "Xh, group=%s, grp.ofs=%" I32_SPEC "Xh\n",
                   curr->sym.name, cp->fileoffset, alignbytes, offset, grp->sym.name, grp->sym.offset ));
     }
@@ -295,6 +298,7 @@ static void CalcOffset( struct dsym *curr, struct calc_param *cp )
     if ( grp ) {
         //grp->sym.total_size = offset + curr->e.seginfo->start_loc;
         grp->sym.total_size = offset;
+        grp->e.grpinfo->fileend = cp->fileoffset;
         /* v2.07: for 16-bit groups, ensure that it fits in 64 kB */
         if ( grp->sym.total_size > 0x10000 && grp->sym.Ofssize == USE16 ) {
             EmitWarn( 2, GROUP_EXCEEDS_64K, grp->sym.name );
-- 
2.43.0


From eac3d01956d1346ff8d4affc7f84fe75938ba3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:32 +0000
Subject: [PATCH 61/98] fix: PE: raw size of sections includes alignment gaps

---
 bin.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin.c b/bin.c
index b4b749f..aaeb486 100644
--- a/bin.c
+++ b/bin.c
@@ -1373,7 +1373,8 @@ static void pe_set_values( struct calc_param *cp )
         }
         section->Characteristics |= pe_get_characteristics( curr );
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS ) {
-            section->SizeOfRawData += curr->sym.max_offset;
+            /* includes the gaps caused by alignment */
+            section->SizeOfRawData = curr->sym.max_offset + ( curr->e.seginfo->start_offset - section->VirtualAddress );
         }
 
         /* v2.10: this calculation is not correct */
-- 
2.43.0


From 60cc334b747cd71de0a0191bb38341336aa63a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 62/98] fix: PE: alignment of segments is the same in file and
 memory

---
 bin.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bin.c b/bin.c
index aaeb486..c4ee27d 100644
--- a/bin.c
+++ b/bin.c
@@ -1252,6 +1252,7 @@ static void pe_set_values( struct calc_param *cp )
     struct dsym *pehdr;
     struct dsym *objtab;
     struct dsym *reloc = NULL;
+    struct dsym *first = NULL; /* first segment of current section */
     struct IMAGE_PE_HEADER32 *ph32;
 #if AMD64_SUPPORT
     struct IMAGE_PE_HEADER64 *ph64;
@@ -1324,12 +1325,22 @@ static void pe_set_values( struct calc_param *cp )
             i = curr->e.seginfo->lname_idx;
             cp->alignment = falign;
             cp->rva = (cp->rva + (malign - 1)) & (~(malign-1));
+            first = curr;
         } else {
             uint_32 align = 1 << curr->e.seginfo->alignment;
             cp->alignment = 0;
             cp->rva = (cp->rva + (align - 1)) & (~(align-1));
         }
         CalcOffset( curr, cp );
+        /* in the file, a segment must have the same distance to the start of its section as in memory */
+        if ( first != curr && curr->e.seginfo->segtype != SEGTYPE_ABS && !curr->e.seginfo->info ) {
+            int_32 diff = ( curr->e.seginfo->start_offset - first->e.seginfo->start_offset )
+                - ( curr->e.seginfo->fileoffset - first->e.seginfo->fileoffset );
+            if ( curr->e.seginfo->segtype != SEGTYPE_BSS ) {
+                curr->e.seginfo->fileoffset += diff;
+                cp->fileoffset += diff;
+            }
+        }
         DebugMsg(("pe_set_values: section %s, start ofs=%" I32_SPEC "Xh, size=%" I32_SPEC "Xh, file ofs=%" I32_SPEC "Xh\n",
                   curr->sym.name, curr->e.seginfo->start_offset, curr->sym.max_offset - curr->e.seginfo->start_loc, curr->e.seginfo->fileoffset ));
     }
-- 
2.43.0


From 91ee9adedafba4fc2988d2cd1dd31a7f95995e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:31 +0000
Subject: [PATCH 63/98] fix: PE: .reloc is the last section

---
 bin.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin.c b/bin.c
index c4ee27d..b9b65f3 100644
--- a/bin.c
+++ b/bin.c
@@ -1314,6 +1314,9 @@ static void pe_set_values( struct calc_param *cp )
         }
 
     }
+    /* the size of .reloc isn't known yet, so it must be the very last section */
+    if ( reloc )
+        reloc->e.seginfo->lname_idx = SEGTYPE_ERROR + 1;
     SortSegments( 2 );
     falign = get_bit( GHF( OptionalHeader.FileAlignment ) );
     malign = GHF( OptionalHeader.SectionAlignment );
-- 
2.43.0


From f3202d1f2beef5fab7d74043f55f3a36240a1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 64/98] fix: -fp0/-fp2/-fp3/-fpc don't reset the cpu selected
 by -0..-10

---
 cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmdline.c b/cmdline.c
index 8e86356..d0e8891 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -476,7 +476,7 @@ static void OPTQUAL Set_Fs( void ) { get_fname( OPTN_SYM_FN, GetAFileName() ); O
 static void OPTQUAL Set_Fl( void ) { get_fname( OPTN_LST_FN, GetAFileName() ); Options.write_listing = TRUE;}
 static void OPTQUAL Set_Fo( void ) { get_fname( OPTN_OBJ_FN, GetAFileName() ); }
 
-static void OPTQUAL Set_fp( void ) { Options.cpu &= ~P_FPU_MASK; Options.cpu = OptValue; }
+static void OPTQUAL Set_fp( void ) { Options.cpu &= ~P_FPU_MASK; Options.cpu |= OptValue; }
 static void OPTQUAL Set_FPx( void ) { Options.floating_point = OptValue; }
 static void OPTQUAL Set_G( void ) { Options.langtype = OptValue; }
 
-- 
2.43.0


From d5d30981ac654775e53af48acd7e7b5de32e8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 65/98] fix: lines rewritten while being assembled no longer
 run over the next stored line

---
 H/fastpass.h | 3 +--
 assemble.c   | 2 +-
 listing.c    | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/H/fastpass.h b/H/fastpass.h
index 4b241ae..82ea818 100644
--- a/H/fastpass.h
+++ b/H/fastpass.h
@@ -29,8 +29,7 @@ struct equ_item {
 
 struct line_item {
     struct line_item *next;
-    uint_32 lineno:20, srcfile:12;
-    uint_8 inmacro;   /* line was generated by a macro */
+    uint_32 lineno:20, srcfile:11, inmacro:1; /* inmacro: line was generated by a macro */
     uint_32 list_pos; /* position .LST file */
     char line[1];
 };
diff --git a/assemble.c b/assemble.c
index 61d9c95..c132416 100644
--- a/assemble.c
+++ b/assemble.c
@@ -73,7 +73,7 @@ jmp_buf jmpenv;
 #define EXPQUAL
 #endif
 
-#define USELSLINE 1 /* must match switch in listing.c! */
+#define USELSLINE 0 /* must match switch in listing.c! */
 
 //#define ASM_EXT "asm"
 #ifdef __UNIX__
diff --git a/listing.c b/listing.c
index 60d142c..c984926 100644
--- a/listing.c
+++ b/listing.c
@@ -27,7 +27,7 @@
 
 #define CODEBYTES 9
 #define OFSSIZE 8
-#define USELSLINE 1 /* also in assemble.c! */
+#define USELSLINE 0 /* also in assemble.c! */
 
 #ifdef __UNIX__
 #define NLSIZ 1
-- 
2.43.0


From d5d23645694354582d4f150a533edf4c633de4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 66/98] fix: instructions of the second code generator are
 subject to the cpu, coprocessor and privilege settings

---
 H/codegenv2.h |  2 +-
 codegenv2.c   | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/H/codegenv2.h b/H/codegenv2.h
index 44ebc53..9fd8e31 100644
--- a/H/codegenv2.h
+++ b/H/codegenv2.h
@@ -386,7 +386,7 @@ enum op_type      MatchOperand(struct code_info *CodeInfo, struct opnd_item op,
 
 bool Require_OPND_Size_Override(struct Instr_Def* instr, struct code_info* CodeInfo);
 bool Require_ADDR_Size_Override(struct Instr_Def* instr, struct code_info* CodeInfo);
-bool IsValidInCPUMode(struct Instr_Def* instr);
+bool IsValidInCPUMode(struct Instr_Def* instr, enum instr_token token);
 
 unsigned char BuildModRM(unsigned char modRM, struct Instr_Def* instr, struct expr opnd[4], bool* needRM, bool* needSIB,
 						 bool isVEX);																						/* Build instruction ModRM byte */
diff --git a/codegenv2.c b/codegenv2.c
index faf9b7b..d9a1ec5 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -428,10 +428,11 @@ bool Require_ADDR_Size_Override(struct Instr_Def* instr, struct code_info* CodeI
 	return FALSE;
 }
 
-bool IsValidInCPUMode(struct Instr_Def* instr)
+bool IsValidInCPUMode(struct Instr_Def* instr, enum instr_token token)
 {
 	bool          result = TRUE;
 	unsigned char cpuModes = instr->validModes;
+	unsigned      cpu = InstrTable[IndexFromToken(token)].cpu;
 
 	/* Don't allow a 64bit instruction in a non 64bit segment */
 	if (ModuleInfo.Ofssize != USE64 && cpuModes == X64)
@@ -441,7 +442,13 @@ bool IsValidInCPUMode(struct Instr_Def* instr)
 		result = FALSE;
 
 	/* Are we allowing assembly of priviledge instructions? */
-	if ((instr->cpu & P_PM) > (ModuleInfo.curr_cpu & P_PM))
+	if (((instr->cpu | cpu) & P_PM) > (ModuleInfo.curr_cpu & P_PM))
+		result = FALSE;
+
+	/* Check if CPU, FPU and extensions are within the limits (same as in output_opc()) */
+	if ((cpu & P_CPU_MASK) > (ModuleInfo.curr_cpu & P_CPU_MASK)
+		|| (cpu & P_FPU_MASK) > (ModuleInfo.curr_cpu & P_FPU_MASK)
+		|| (cpu & P_EXT_MASK) > (ModuleInfo.curr_cpu & P_EXT_MASK))
 		result = FALSE;
 
 	return result;
@@ -1652,7 +1659,7 @@ ret_code CodeGenV2(const char* instr, struct code_info* CodeInfo, uint_32 oldofs
 		/*----------------------------------------------------------
 		 Check if instruction is valid in current mode.
 		----------------------------------------------------------*/
-		if (!IsValidInCPUMode(matchedInstr))
+		if (!IsValidInCPUMode(matchedInstr, CodeInfo->token))
 		{
 			EmitError(INSTRUCTION_OR_REGISTER_NOT_ACCEPTED_IN_CURRENT_CPU_MODE);
 			return ERROR;
-- 
2.43.0


From 56583eff96e7ffd613fb2bd033147ae006b962dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 67/98] fix: FCMOVcc, FCOMI and FUCOMI need a coprocessor

---
 H/instruct.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/H/instruct.h b/H/instruct.h
index a4020e2..091b5e7 100644
--- a/H/instruct.h
+++ b/H/instruct.h
@@ -539,14 +539,14 @@ cmov( Z,   0x4,   z )
 
 /* FPU opcodes */
 
-ins (FCMOVB, fcmovb,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC0,       P_686,       0)
-ins (FCMOVBE, fcmovbe,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD0,       P_686,       0)
-ins (FCMOVE, fcmove,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC8,       P_686,       0)
-ins (FCMOVNB, fcmovnb,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC0,       P_686,       0)
-ins (FCMOVNBE, fcmovnbe,        OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD0,       P_686,       0)
-ins (FCMOVNE, fcmovne,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC8,       P_686,       0)
-ins (FCMOVNU, fcmovnu,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD8,       P_686,       0)
-ins (FCMOVU, fcmovu,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD8,       P_686,       0)
+ins (FCMOVB, fcmovb,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC0,       P_686|P_87,  0)
+ins (FCMOVBE, fcmovbe,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD0,       P_686|P_87,  0)
+ins (FCMOVE, fcmove,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xC8,       P_686|P_87,  0)
+ins (FCMOVNB, fcmovnb,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC0,       P_686|P_87,  0)
+ins (FCMOVNBE, fcmovnbe,        OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD0,       P_686|P_87,  0)
+ins (FCMOVNE, fcmovne,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xC8,       P_686|P_87,  0)
+ins (FCMOVNU, fcmovnu,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xD8,       P_686|P_87,  0)
+ins (FCMOVU, fcmovu,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDA,     0xD8,       P_686|P_87,  0)
 
 ins (FCOM, fcom,                OpCls( STI,      NONE,       NONE ), 0,      0,  0,      0xD8,     0xD0,       P_87,        0)
 insn(FCOM, 1,                   OpCls( M32,      NONE,       NONE ), 0,      0,  0,      0xD8,     0x10,       P_87,        0)
@@ -563,10 +563,10 @@ insn(FUCOM, 1,                  OpCls( NONE,     NONE,       NONE ), 0,      0,
 ins (FUCOMP, fucomp,            OpCls( STI,      NONE,       NONE ), 0,      0,  0,      0xDD,     0xE8,       P_387,       0)
 insn(FUCOMP, 1,                 OpCls( NONE,     NONE,       NONE ), 0,      0,  0,      0xDD,     0xE9,       P_387,       0)
 ins (FUCOMPP, fucompp,          OpCls( NONE,     NONE,       NONE ), 0,      0,  0,      0xDA,     0xE9,       P_387,       0)
-ins (FCOMI, fcomi,              OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xF0,       P_686,       0)
-ins (FCOMIP, fcomip,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xF0,       P_686,       0)
-ins (FUCOMI, fucomi,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xE8,       P_686,       0)
-ins (FUCOMIP, fucomip,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xE8,       P_686,       0)
+ins (FCOMI, fcomi,              OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xF0,       P_686|P_87,  0)
+ins (FCOMIP, fcomip,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xF0,       P_686|P_87,  0)
+ins (FUCOMI, fucomi,            OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDB,     0xE8,       P_686|P_87,  0)
+ins (FUCOMIP, fucomip,          OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xDF,     0xE8,       P_686|P_87,  0)
 
 /* v2.11: first 2 variants of FADD, FMUL, FDIV, FDIVP, FSUP and FSUBR exchanged */
 ins (FADD, fadd,                OpCls( ST,       STI,        NONE ), 0,      0,  0,      0xD8,     0xC0,       P_87,        0)
-- 
2.43.0


From d0c7789d71854a30db92e125f7ef1dd7b3525596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 68/98] fix: Mach-O: communal variables which aren't referenced
 are defined

---
 macho64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macho64.c b/macho64.c
index e3de539..9e66fc1 100644
--- a/macho64.c
+++ b/macho64.c
@@ -242,7 +242,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 	{
 		if (sym->state != SYM_MACRO && sym->state != SYM_SEG && sym->state != SYM_TMACRO && sym->predefined == 0 && sym->state != SYM_GRP && sym->isequate == 0)
 		{
-			if (sym->state == SYM_EXTERNAL && (sym->used || sym->ispublic)) /* same condition as below, when the entries are written */
+			if (sym->state == SYM_EXTERNAL && (sym->used || sym->ispublic || sym->iscomm)) /* same condition as below, when the entries are written */
 			{
 				tblSize += strlen(sym->name) + 1;
 				pstr = malloc(sizeof(struct strentry));
@@ -671,7 +671,7 @@ static void macho_build_structures( struct module_info *modinfo, struct macho_mo
 	/* Write out symbol table entries */
 	for (currStr = mm.strings;currStr;currStr = currStr->next)
 	{
-		if (!currStr->sym->used && !currStr->sym->ispublic)
+		if (!currStr->sym->used && !currStr->sym->ispublic && !(currStr->sym->state == SYM_EXTERNAL && currStr->sym->iscomm))
 			continue;
 
 		memset(&symEntry, 0, sizeof(struct nlist_64));
-- 
2.43.0


From bfa941a057f7730261d5fddec4f152e2e333e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 69/98] fix: CMPccPS and PCLMUL pseudo instructions may be
 followed by a comment or a continuation line

---
 pseudoFilter.c | 70 ++++++++++++++++++++++++++------------------------
 tokenize.c     | 29 +++++++++++++++++++++
 2 files changed, 66 insertions(+), 33 deletions(-)

diff --git a/pseudoFilter.c b/pseudoFilter.c
index 329688b..e700944 100644
--- a/pseudoFilter.c
+++ b/pseudoFilter.c
@@ -43,10 +43,34 @@ char* itoa(int value, char* result, int base) {
 
 #endif
 
+/* append the immediate operand of a pseudo instruction: it's to be placed behind
+ * the last operand, but in front of a comment.
+ */
+static void add_operand(char* p1, const char* op)
+/***********************************************/
+{
+  char quote = 0;
+  int  len = strlen(op);
+
+  for (; *p1; p1++) {
+    if (quote) {
+      if (*p1 == quote)
+        quote = 0;
+    }
+    else if (*p1 == '"' || *p1 == '\'')
+      quote = *p1;
+    else if (*p1 == ';')
+      break;
+  }
+  memmove(p1 + len, p1, strlen(p1) + 1);
+  memcpy(p1, op, len);
+}
+
 int get_pseudoCMPXX(char* dst, char* p1, int index)
 /******************************************************************/
 {
   int i;
+  char op[16];
 
   switch (index) {
   case T_CMPEQPD:
@@ -101,12 +125,8 @@ int get_pseudoCMPXX(char* dst, char* p1, int index)
   memcpy(p1,dst,5);
   for (p1 += 5; *p1 > ' ';p1++)
     *p1 = ' ';
-  while (*p1) p1++;
-  *p1 = ',';
-  p1++;
-  *p1 = i + 0x30;
-  p1++;
-  *p1 = 0;
+  sprintf(op, ",%d", i);
+  add_operand(p1, op);
   return index;
 }
 
@@ -114,6 +134,7 @@ int get_pseudoVCMPXX(char* dst, char* p1, int index)
 /******************************************************************/
 {
   int i;
+  char op[16];
 
   switch (index) {
   case T_VCMPEQPD:
@@ -264,15 +285,8 @@ int get_pseudoVCMPXX(char* dst, char* p1, int index)
   memcpy(p1, dst, 6);
   for (p1 += 6; *p1 > ' '; p1++)
     * p1 = ' ';
-  while (*p1) p1++;
-  *(p1)++ = ',';
-  if (i <= 9) {
-    *(p1)++ = i + 0x30;
-    *p1 = 0;
-  }
-  else {
-    itoa(i,p1,10);
-  }
+  sprintf(op, ",%d", i);
+  add_operand(p1, op);
   return index;
 }
 
@@ -283,26 +297,21 @@ int get_pseudoPCLMULXX(char* dst, char* p1, int index)
   memcpy(p1, dst, 9);
   for (p1 += 9; *p1 > ' '; p1++)
     * p1 = ' ';
-  while (*p1) p1++;
-  *(p1)++ = ',';
   switch (index) {
   case T_PCLMULLQLQDQ:
-    *(p1)++ = '0';
+    add_operand(p1, ",0");
     break;
   case T_PCLMULHQLQDQ:
-    *(p1)++ = '1';
+    add_operand(p1, ",1");
     break;
   case T_PCLMULLQHQDQ:
-    *(p1)++ = '1';
-    *(p1)++ = '6';
+    add_operand(p1, ",16");
     break;
   case T_PCLMULHQHQDQ:
-    *(p1)++ = '1';
-    *(p1)++ = '7';
+    add_operand(p1, ",17");
     break;
   }
   index = T_PCLMULQDQ;
-  *p1 = 0;
   return index;
 }
 
@@ -313,26 +322,21 @@ int get_pseudoVPCLMULXX(char* dst, char* p1, int index)
   memcpy(p1, dst, 10);
   for (p1 += 10; *p1 > ' '; p1++)
     * p1 = ' ';
-  while (*p1) p1++;
-  *(p1)++ = ',';
   switch (index) {
   case T_VPCLMULLQLQDQ:
-    *(p1)++ = '0';
+    add_operand(p1, ",0");
     break;
   case T_VPCLMULHQLQDQ:
-    *(p1)++ = '1';
+    add_operand(p1, ",1");
     break;
   case T_VPCLMULLQHQDQ:
-    *(p1)++ = '1';
-    *(p1)++ = '6';
+    add_operand(p1, ",16");
     break;
   case T_VPCLMULHQHQDQ:
-    *(p1)++ = '1';
-    *(p1)++ = '7';
+    add_operand(p1, ",17");
     break;
   }
   index = T_VPCLMULQDQ;
-  *p1 = 0;
   return index;
 }
 
diff --git a/tokenize.c b/tokenize.c
index 0629c5d..c51bc6a 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -351,6 +351,29 @@ static ret_code ConcatLine( char *src, int cnt, char *out, struct line_status *l
     return( EMPTY );
 }
 
+/* concat the continuation lines of a pseudo instruction; its immediate operand is
+ * going to be added behind the last operand.
+ * src: start of operands; out: buffer for next line
+ */
+static void ConcatPseudo( char *src, char *out, struct line_status *ls )
+/**********************************************************************/
+{
+    char quote = NULLC;
+
+    while ( *src && ( quote || *src != ';' ) ) {
+        if ( quote ) {
+            if ( *src == quote )
+                quote = NULLC;
+        } else if ( *src == '"' || *src == '\'' ) {
+            quote = *src;
+        } else if ( *src == '\\' && ConcatLine( src, 0, out, ls ) != EMPTY ) {
+            ls->flags3 |= TF3_ISCONCAT;
+            continue; /* the backslash has been replaced by a space */
+        }
+        src++;
+    }
+}
+
 static ret_code get_string(struct asm_tok *buf, struct line_status *p)
 /**********************************************************************/
 {
@@ -1023,6 +1046,12 @@ continue_scan:
     /* filter pseudo instructions */
 	if (!inMacroBody)
 	{
+		if ( CurrIfState == BLOCK_ACTIVE &&
+			( ( index >= T_CMPEQPD && index <= T_CMPORDSS ) ||
+			( index >= T_VCMPEQPD && index <= T_VCMPTRUE_USSS ) ||
+			( index >= T_PCLMULLQLQDQ && index <= T_PCLMULHQHQDQ ) ||
+			( index >= T_VPCLMULLQLQDQ && index <= T_VPCLMULHQHQDQ ) ) )
+			ConcatPseudo( src, dst, p );
 		if (index >= T_CMPEQPD && index <= T_CMPORDSS) {
 			index = get_pseudoCMPXX(dst, p->input, index);
 			strcpy(buf[0].string_ptr, dst);
-- 
2.43.0


From b254004b978ffb5282b8a425fe4cd064d3ebb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 70/98] fix: pseudo instructions within the body of a loop
 directive

---
 macro.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/macro.c b/macro.c
index e339009..aecc457 100644
--- a/macro.c
+++ b/macro.c
@@ -427,6 +427,7 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
 
     locals_done = FALSE;
     nextline = &info->data;
+    inMacroBody = TRUE; /* also true for the body of a loop directive */
 
     /* now read in the lines of the macro, and store them if store_data is TRUE */
     for( ; ; ) {
@@ -469,8 +470,10 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
         ls.flags = TOK_DEFAULT;
         ls.flags2 = 0;
         tok[0].token = T_FINAL;
-        if ( GetToken( &tok[0], &ls ) == ERROR )
+        if ( GetToken( &tok[0], &ls ) == ERROR ) {
+            inMacroBody = FALSE;
             return( ERROR );
+        }
 
         /* v2.05: GetTextLine() doesn't concat lines anymore.
          * So if a backslash is found in the current source line,
@@ -559,11 +562,6 @@ ret_code StoreMacro( struct dsym *macro, int i, struct asm_tok tokenarray[], boo
                 if( nesting_depth ) 
 				{
                     nesting_depth--;
-					if (nesting_depth == 0)
-					{
-						inMacroBody = FALSE; /* flag that we're finished processing a macro UASM 2.46.6 */
-					}
-
                 } else {
 					inMacroBody = FALSE; /* flag that we're finished processing a macro UASM 2.46.6 */
                     break; /* exit the for() loop */
@@ -1033,8 +1031,6 @@ ret_code MacroDir( int i, struct asm_tok tokenarray[] )
     name = tokenarray[0].string_ptr;
     DebugMsg1(("MacroDir(%s) enter, i=%u\n", name, i ));
 
-	inMacroBody = TRUE; /* flag that we're processing a macro UASM 2.46.6 */
-
     macro = (struct dsym *)SymSearch( name );
     if( macro == NULL ) {
         macro = CreateMacro( name );
-- 
2.43.0


From 96796a911afd033f2097f3c37aa3b4ccd5ff8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:03 +0000
Subject: [PATCH 71/98] fix: don't overwrite the last listing line with the
 footer under -Sn

---
 listing.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/listing.c b/listing.c
index c984926..b8be1ca 100644
--- a/listing.c
+++ b/listing.c
@@ -1062,13 +1062,16 @@ void LstWriteCRef( void )
     struct qdesc    queues[LQ_LAST];
 
     /* no point going through the motions if lst file isn't open */
-    if( CurrFile[LST] == NULL || Options.no_symbol_listing == TRUE ) {
+    if( CurrFile[LST] == NULL )
         return;
-    }
 
-    /* go to EOF */
+    /* go to EOF - also if no symbol tables are written, since the footer
+     * line follows and must not overwrite the last source line. */
     fseek( CurrFile[LST], 0, SEEK_END );
 
+    if( Options.no_symbol_listing == TRUE )
+        return;
+
     SymCount = SymGetCount();
     syms = (struct asym **)MemAlloc( SymCount * sizeof( struct asym * ) );
     SymGetAll( syms );
-- 
2.43.0


From 1dd5dc58fb844c4a125b827d09147dfe032b0a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 72/98] fix: don't read register tables with an absent or
 vector base register

---
 parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.c b/parser.c
index 17a828b..594745f 100644
--- a/parser.c
+++ b/parser.c
@@ -697,7 +697,7 @@ static ret_code set_rm_sib(struct code_info *CodeInfo, unsigned CurrOpnd, char s
     mod_field = MOD_01; /* byte size displacement */
     }
   /* In the case of suppressed base register it has to be swapped with index v2.38 */
-  temp = GetValueSp( base );                                 /* get value from SpecialTable */
+  temp = ( base == EMPTY ) ? 0 : GetValueSp( base );         /* get value from SpecialTable */
   if (temp == OP_XMM || temp == OP_YMM || temp == OP_ZMM){   /* base can be only GP register*/
     temp = index;                                            /* swap index with base */
     index = base;
@@ -1737,7 +1737,7 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
     index = ( opndx->idx_reg ? opndx->idx_reg->tokval : EMPTY );
 
     /* swap registers if base is AVX register, v2.38 */
-    if (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM)
+    if (base != EMPTY && (GetValueSp(base) == OP_XMM || GetValueSp(base) == OP_YMM || GetValueSp(base) == OP_ZMM))
 	{
       temp    = base;
       base    = index;
@@ -1758,11 +1758,11 @@ static ret_code memory_operand( struct code_info *CodeInfo, unsigned CurrOpnd, s
 
 
     /* UASM 2.53 check for use of register assumed to ERROR in an EA */
-    if (base != EMPTY && StdAssumeTable[GetRegNo(base)].error)
+    if (base != EMPTY && (GetValueSp(base) & OP_R) && StdAssumeTable[GetRegNo(base)].error)
     {
         return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
     }
-    if (index != EMPTY && StdAssumeTable[GetRegNo(index)].error)
+    if (index != EMPTY && (GetValueSp(index) & OP_R) && StdAssumeTable[GetRegNo(index)].error)
     {
         return(EmitError(USE_OF_REGISTER_ASSUMED_TO_ERROR));
     }
@@ -3830,7 +3830,7 @@ dataInProc:
 						CodeInfo.vexconst = opndx[CurrOpnd].value;
 						if(opndx[CurrOpnd].base_reg)
 							CodeInfo.vexregop = opndx[CurrOpnd].base_reg->bytval + 1;
-						memcpy(&opndx[CurrOpnd], &opndx[CurrOpnd + 1], sizeof(opndx[0]) * 2);
+						memmove(&opndx[CurrOpnd], &opndx[CurrOpnd + 1], sizeof(opndx[0]) * 2);
 					}
 					else
 					{
-- 
2.43.0


From 435b535b0d1e8d5cdaa6ff691574ed9baf14d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:54 +0000
Subject: [PATCH 73/98] fix: bcst: move the rest of the line with memmove

---
 tokenize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenize.c b/tokenize.c
index c51bc6a..7d6f621 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -1385,7 +1385,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               else if (cnt == 8)  strcpy(p1, "\{1to8\}");
               else if (cnt == 16) strcpy(p1, "\{1to16\}");
               else goto nobcst;                   /* let parser throw error */
-              strcat(p1, input1);
+              memmove(p1 + strlen(p1), input1, strlen(input1) + 1);
             }
             else {
               /* here force '[]' around a variable */
-- 
2.43.0


From fa1faaa168c2d394b1634b1d9dd085009185c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 74/98] fix: don't crash on an empty union

---
 symbols.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbols.c b/symbols.c
index e970b45..259bc52 100644
--- a/symbols.c
+++ b/symbols.c
@@ -843,7 +843,7 @@ void SymSimd(struct dsym *sym)
 	uint_8 member3Valid = 0;
 	uint_8 member4Valid = 0;
 
-  if (pMember == NULL && sym->sym.typekind != TYPE_UNION) return;
+  if (pMember == NULL) return;
   memberCount = 0;
   sym->e.structinfo->isHomogenous = 1;
 
-- 
2.43.0


From 251f31d9720d9fea29dc821ef562476a2cb04245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 75/98] fix: reject a structure as member of itself

---
 types.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/types.c b/types.c
index 9882f14..d39c527 100644
--- a/types.c
+++ b/types.c
@@ -1216,6 +1216,17 @@ struct asym *CreateStructField( int loc, struct asm_tok tokenarray[], const char
     si = CurrStruct->e.structinfo;
     offset = CurrStruct->sym.offset;
 
+    /* a structure that is still being defined can't be a member of itself */
+    if ( mem_type == MT_TYPE && vartype ) {
+        struct dsym *curr;
+        for ( curr = CurrStruct; curr; curr = curr->next ) {
+            if ( &curr->sym == vartype ) {
+                EmitErr( BLOCK_NESTING_ERROR, vartype->name );
+                return( NULL );
+            }
+        }
+    }
+
     DebugMsg1(("CreateStructField(%s): name=%s, curr ofs=%" I32_SPEC "u, vartype=%s, size=%" I32_SPEC "u\n",
                CurrStruct->sym.name, name ? name : "<anonymous>", offset,
                vartype ? vartype->name : "NULL", size ));
-- 
2.43.0


From 1a7c38fea46ec5e16afe53354aa96a51fb470ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:40 +0000
Subject: [PATCH 76/98] fix: don't read before the token array if a line starts
 with ->

---
 preproc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preproc.c b/preproc.c
index 9b7dfe5..e1eb552 100644
--- a/preproc.c
+++ b/preproc.c
@@ -231,7 +231,7 @@ static void ExpandObjCalls(char *line, struct asm_tok tokenarray[])
 					foundType = FALSE;
 				foundProc = FALSE;
 				// The item to the left of the pointer must be an ID with type or register or register indirect.
-				if (i == 0 && tokenarray[i - 1].token != T_ID && tokenarray[i - 1].token != T_REG && tokenarray[i - 1].token != T_CL_SQ_BRACKET)
+				if (i == 0)
 				{
 					EmitError(INVALID_POINTER);
 				}
-- 
2.43.0


From 66569948f98219bcf1ad15f112b0c0e9a2b14f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:56 +0000
Subject: [PATCH 77/98] fix: .CASE outside .SWITCH is an error in pass 1, too

---
 hll.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hll.c b/hll.c
index b9eba83..a20481b 100644
--- a/hll.c
+++ b/hll.c
@@ -2766,7 +2766,6 @@ ret_code HllExitDir(int i, struct asm_tok tokenarray[])
     i++;
     break;
   case T_DOT_CASE:
-    if (Parse_Pass)
     if (hll->cmd != HLL_SWITCH) {
       DebugMsg(("HllExitDir stack error\n"));
       return(EmitError(DIRECTIVE_MUST_BE_IN_CONTROL_BLOCK));
-- 
2.43.0


From 21022748179693ddf0857d5f8998876e8f6ee48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:11 +0000
Subject: [PATCH 78/98] fix: INVOKE through a pointer needs a prototype as
 target

---
 invoke.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/invoke.c b/invoke.c
index fb660ac..eb1c746 100644
--- a/invoke.c
+++ b/invoke.c
@@ -1238,7 +1238,7 @@ vcall:
 				{
 				uselea:
 
-					if ((proc->sym.langtype == LANG_VECTORCALL))
+					if (proc->sym.langtype == LANG_VECTORCALL || index >= 4)
 					{
 						if (index < 4)
 						{
@@ -4402,7 +4402,7 @@ ret_code InvokeDirective(int i, struct asm_tok tokenarray[])
 	isfnptr:
 		/* get the pointer target */
 		sym = proc->sym.target_type;
-		if (sym == NULL)
+		if (sym == NULL || sym->isproc == FALSE)
 			return(EmitErr(INVOKE_REQUIRES_PROTOTYPE));
 	}
 	else 
-- 
2.43.0


From 85d7de29d138d5e786f2d0960fee67a0dd606ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 79/98] fix: no out-of-bounds operand access for moffset forms

---
 codegenv2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegenv2.c b/codegenv2.c
index d9a1ec5..b691ec0 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -1277,7 +1277,7 @@ int BuildMemoryEncoding(unsigned char* pmodRM, unsigned char* pSIB, unsigned cha
 	}
 
 	/* If the memory address refers to a symbol indirectly.. */
-	if (opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
+	if (instr->memOpnd < NO_MEM && opExpr[instr->memOpnd].sym && opExpr[instr->memOpnd].kind == EXPR_ADDR)
 	{
 		symSize = SizeFromMemtype(opExpr[instr->memOpnd].mem_type, ModuleInfo.Ofssize, opExpr[instr->memOpnd].sym);
 
-- 
2.43.0


From c2c4dc5d5360f12dd73a1f49397e4ce1ec2ed9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 80/98] fix: memmove for overlapping operands

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 594745f..4aab1d1 100644
--- a/parser.c
+++ b/parser.c
@@ -3796,7 +3796,7 @@ dataInProc:
 							/* first operand register is moved to vexregop */
 							/* handle VEX.NDD */
 							CodeInfo.vexregop = opndx[OPND1].base_reg->bytval + 1;
-							memcpy(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
+							memmove(&opndx[OPND1], &opndx[CurrOpnd], sizeof(opndx[0]) * 3);
 							CodeInfo.rm_byte = 0;
 							/* the operand may be a memory operand without base register */
 							if (opndx[OPND1].base_reg == NULL)
-- 
2.43.0


From 160903b2af5f0f15eb30ec1cb590c4c4807176e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:35 +0000
Subject: [PATCH 81/98] fix: evaluate arguments of 64-bit delphi calls

---
 invoke.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/invoke.c b/invoke.c
index eb1c746..8e11d52 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3525,6 +3525,13 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 	fptrsize = 2 + (2 << Ofssize);
   	if (proc->sym.langtype == LANG_DELPHICALL) 
 	{
+		/* only delphi32_param() evaluates the argument itself */
+		if (ModuleInfo.fctype != FCT_MSC) 
+		{
+			int k = j;
+			if (EvalOperand(&k, tokenarray, Token_Count, &opnd, ModuleInfo.invoke_exprparm) == ERROR)
+				return(ERROR);
+		}
 		if ( delphicall_tab[ModuleInfo.fctype].handleparam(proc, reqParam, curr, addr, &opnd, fullparam, r0flags) )
 			return(NOT_ERROR);
 	}
-- 
2.43.0


From 12273a02ef77ad72dda5329721870df3eaeab473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 82/98] fix: no 64-bit stack alignment in the prologue of
 32-bit fastcall procedures

---
 proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proc.c b/proc.c
index c2c8620..975ee69 100644
--- a/proc.c
+++ b/proc.c
@@ -4764,7 +4764,7 @@ static ret_code write_generic_prologue(struct proc_info *info)
 		resstack == 0 && info->regslist == NULL && !info->fpo)
 		return(NOT_ERROR);
 
-	if (info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
+	if (ModuleInfo.Ofssize == USE64 && info->fpo && stackadj > 0 && CurrProc->sym.langtype == LANG_FASTCALL && !info->isleaf)
 	{
 		if (Options.frameflags)
 		{
-- 
2.43.0


From 3408bd9b52edfc8710a0b704f9ac096ebb11514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:52 +0000
Subject: [PATCH 83/98] fix: limit the length of generated lines to the line
 buffer

---
 hll.c    |  8 ++++----
 lqueue.c | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/hll.c b/hll.c
index a20481b..7203af7 100644
--- a/hll.c
+++ b/hll.c
@@ -1056,7 +1056,7 @@ static const char *redx[] = { "dx", "edx", "rdx" };
 static const char *recx[] = { "cx", "ecx", "rcx" };
 
 static void WriteAsmLine(const char *cmd, const char *s1, const char *s2) {
-  char codebuff[512];
+  char codebuff[MAX_LINE_LEN * 2 + 64];
   strcpy(codebuff, cmd);
   strcat(codebuff, s1);
   strcat(codebuff, ", ");
@@ -1069,9 +1069,9 @@ static ret_code ForInitAndNext(struct asm_tok tokenarray[], int cnt, char *buff)
   int j;
   int	b = 0;
   bool brct = 0;
-  char codebuff[512];
-  char param[512];
-  char init[512];
+  char codebuff[MAX_LINE_LEN * 2 + 64];
+  char param[MAX_LINE_LEN];
+  char init[MAX_LINE_LEN];
   char op[4];
   char *p;
   //create valid command and add to LineQueue
diff --git a/lqueue.c b/lqueue.c
index d8f52f6..758cc5e 100644
--- a/lqueue.c
+++ b/lqueue.c
@@ -69,6 +69,12 @@ void AddLineQueue( const char *line )
     unsigned i = strlen( line );
     struct lq_line   *new;
 
+    /* the line will be copied to the source line buffer */
+    if ( i >= MAX_LINE_LEN ) {
+        EmitError( LINE_TOO_LONG );
+        return;
+    }
+
     /* v2.11: line queue has become static. */
     //if ( line_queue == NULL ) {
     //    line_queue = MemAlloc( sizeof( struct input_queue ) );
@@ -105,6 +111,11 @@ void AddLineQueueX( const char *fmt, ... )
 
     va_start( args, fmt );
     for ( s = fmt, d = buffer; *s; s++ ) {
+        if ( d >= buffer + sizeof( buffer ) - 32 ) {
+            EmitError( LINE_TOO_LONG );
+            va_end( args );
+            return;
+        }
         if ( *s == '%' ) {
             s++;
             switch ( *s ) {
@@ -118,6 +129,11 @@ void AddLineQueueX( const char *fmt, ... )
             case 's':
                 p = va_arg( args, char * );
                 i = strlen( p );
+                if ( i >= buffer + sizeof( buffer ) - 32 - d ) {
+                    EmitError( LINE_TOO_LONG );
+                    va_end( args );
+                    return;
+                }
                 memcpy( d, p, i );
                 d += i;
                 *d = NULLC;
@@ -176,6 +192,11 @@ void BuildCodeLine(char *buffer, const char *fmt, ...)
 
 	va_start(args, fmt);
 	for (s = fmt, d = buffer; *s; s++) {
+		/* the buffers are MAX_LINE_LEN bytes long */
+		if (d >= buffer + MAX_LINE_LEN - 32) {
+			EmitError(LINE_TOO_LONG);
+			break;
+		}
 		if (*s == '%') {
 			s++;
 			switch (*s) {
@@ -189,6 +210,10 @@ void BuildCodeLine(char *buffer, const char *fmt, ...)
 			case 's':
 				p = va_arg(args, char *);
 				i = strlen(p);
+				if (i >= buffer + MAX_LINE_LEN - 32 - d) {
+					EmitError(LINE_TOO_LONG);
+					i = 0;
+				}
 				memcpy(d, p, i);
 				d += i;
 				*d = NULLC;
-- 
2.43.0


From 0ceb3418a995ed3167e2913989f0fef6c45d671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:09 +0000
Subject: [PATCH 84/98] fix: tokenizer: don't scan a decorator or brace past
 the end of the line

---
 tokenize.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/tokenize.c b/tokenize.c
index 7d6f621..d19e4aa 100644
--- a/tokenize.c
+++ b/tokenize.c
@@ -255,6 +255,10 @@ writenum:
 checkifvar:
       --p->input;                  /* return to the start of string */
       while (*p->input != '}'){    
+        if (*p->input == NULLC || p1 >= buff + sizeof(buff) - 1){
+          EmitError(DECORATOR_OR_BRACE_EXPECTED);
+          return;
+        }
         *p1++ = *p->input++;       /* copy the string to the buffer (alowed 32 chars ) */
         }
       *p1 = '\0';                  /* make it C string */
@@ -264,6 +268,10 @@ checkifvar:
           EmitError(TOO_MANY_DECORATORS);
           return;
           }
+        else if (sym->state != SYM_TMACRO || sym->string_ptr == NULL){
+          EmitError(TOO_MANY_DECORATORS);
+          return;
+          }
         else {
           p1 = sym->string_ptr;    /* sym->string_ptr contains the mask register */
           c = *p1++ | 0x20;
@@ -1306,9 +1314,10 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
             if ((_memicmp(input1, "evex", 4) == 0))
             {
               evexflag = TRUE;
-              while (*input1 != '}')
+              while (*input1 && *input1 != '}')
                 input1++;
-              input1++;                /* skip '}' */
+              if (*input1)
+                input1++;              /* skip '}' */
               while (isspace(*input1))
                 input1++;
               p.input = input1;        /* skip '{evex}' */
@@ -1335,7 +1344,7 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
               if (*p1 == 'k' || *p1 == 'K') {      /* check if it is mask register */
                 if ((*(p1 + 1) >= '1') && (*(p1 + 1) <= '7')) {
                   p1++;                            /* skip register number */
-                  while (*p1 != ',') p1++;          /* find the comma  */
+                  while (*p1 && *p1 != ',') p1++;   /* find the comma  */
                   p1++;                            /* skip the comma  */
                   while (isspace(*p1)) p1++;       /* skip the space  */
                 }
@@ -1375,8 +1384,9 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
                 while (isspace(*input1)) input1++;   /* skip the space, now pointing to address  */
               }
               else {
-                for (; *input1 != '\]'; p1++, input1++) /* input1 points to [address] */
+                for (; *input1 && *input1 != '\]'; p1++, input1++) /* input1 points to [address] */
                   *p1 = *input1;                     /* copy first memory part over 'qword bcst */
+                if (*input1 == 0) goto nobcst;       /* let parser throw error */
                 *p1++ = *input1++;                   /* copy ']' */
               }
               /* now add broadcast size */
@@ -1402,7 +1412,8 @@ int Tokenize( char *line, unsigned int start, struct asm_tok tokenarray[], unsig
                 p1--;                                  /* go back 1 byte to check if ']' is present */
                 while (isspace(*p1)) --p1;             /* skip the space  */
                 if (*p1 != '\]') {                     /* if not present insert it  */
-                  while (*p1 != ',') --p1;             /* step backwards till the comma */
+                  while (p1 > p.input && *p1 != ',') --p1; /* step backwards till the comma */
+                  if (*p1 != ',') goto nobcst;         /* let parser throw error */
                   p1++;                                /* skip the comma forward  */
                   input1 = p1;                         /* save that location in input1  */
                   while (isspace(*p1)) p1++;           /* skip the space  */
-- 
2.43.0


From 34dc6a2301c196fc0e67d8dcbb34a5c4be5b357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:25 +0000
Subject: [PATCH 85/98] fix: bounds of operands in decorators, literal buffers
 and label buffers

---
 codegenv2.c | 2 +-
 expreval.c  | 4 ++--
 parser.c    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegenv2.c b/codegenv2.c
index b691ec0..3921836 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -68,7 +68,7 @@ void InsertInstruction(struct Instr_Def* pInstruction, uint_32 hash)
 
 uint_32 GenerateInstrHash(struct Instr_Def* pInstruction)
 {
-	uint_8 hashBuffer[32];
+	uint_8 hashBuffer[MAX_LINE_LEN + 8];
 	int len = strlen(pInstruction->mnemonic);
 	char* pDst = (char*)&hashBuffer;
 	strcpy(pDst, pInstruction->mnemonic);
diff --git a/expreval.c b/expreval.c
index 75f1f0c..e046fb0 100644
--- a/expreval.c
+++ b/expreval.c
@@ -850,7 +850,7 @@ static ret_code get_operand( struct expr *opnd, int *idx, struct asm_tok tokenar
     char        labelbuff[16];/* for anonymous labels */
 	int         cnt;
     char        *p;
-	char clabel[100];
+	char clabel[MAX_LINE_LEN + 2];
 	struct asym *labelsym;
 	struct asym *labelsym2;
 	struct asm_tok tok;
@@ -4029,7 +4029,7 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
     ret_code rc = NOT_ERROR;
     char *p;
     char *p1;
-	char clabel[100];
+	char clabel[MAX_LINE_LEN + 2];
 	struct asym *labelsym;
 	struct asym *labelsym2;
 	struct asm_tok tok;
diff --git a/parser.c b/parser.c
index 4aab1d1..d26a3ba 100644
--- a/parser.c
+++ b/parser.c
@@ -3587,7 +3587,7 @@ dataInProc:
 
 			/* Handle EVEX Static Rounding Mode {sae}, {rn-sae}, {rd-sae}, {ru-sae}, {rz-sae} */
 			case EXPR_DECORATOR:
-				if (opndx[j - 1].indirect || opndx[j - 2].indirect)
+				if ((j > 0 && opndx[j - 1].indirect) || (j > 1 && opndx[j - 2].indirect))
 					return(EmitError(EMBEDDED_ROUNDING_IS_AVAILABLE_ONLY_WITH_REG_REG_OP));
 				CodeInfo.evex_sae = opndx[j].saeflags;
 				CodeInfo.evex_flag = TRUE;  /* {sae} must set evex_flag v247.2 */
-- 
2.43.0


From e97059f31852f04ae06c06b0efbf3460a0b14fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 86/98] fix: data items: null type, REAL10 BYTE with an
 integer, segments above 4 GB

---
 data.c    | 4 ++--
 segment.c | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/data.c b/data.c
index 659511a..5dcf254 100644
--- a/data.c
+++ b/data.c
@@ -516,7 +516,7 @@ static void output_float( const struct expr *opnd, unsigned size )
     char buffer[32];
 	char tstr[32];
 
-    if ( opnd->mem_type != MT_EMPTY ) {
+    if ( opnd->mem_type != MT_EMPTY && opnd->kind != EXPR_FLOATI ) {
         int i;
         memset( buffer, 0, sizeof( buffer ) );
         i = SizeFromMemtype( opnd->mem_type, USE_EMPTY, NULL );
@@ -1526,7 +1526,7 @@ ret_code data_dir( int i, struct asm_tok tokenarray[], struct asym *type_sym )
     i++;
 
 	/* Enhanced Uasm 2.22+ Union initialize */
-	if (tokenarray[i].token == T_DOT && type_sym->state == SYM_TYPE)
+	if (tokenarray[i].token == T_DOT && type_sym && type_sym->state == SYM_TYPE)
 	{
 		i++; // skip dot.
 		// Check sub type.
diff --git a/segment.c b/segment.c
index d9dc74a..fe73332 100644
--- a/segment.c
+++ b/segment.c
@@ -1191,6 +1191,7 @@ void SegmentInit( int pass )
      */
     if ( pass != PASS_1 && Options.output_format != OFORMAT_OMF ) {
         uint_32 needed;
+        uint_32 old;
         for( curr = SymTables[TAB_SEG].head, needed = 0; curr; curr = curr->next ) {
             if ( curr->e.seginfo->internal )
                 continue;
@@ -1202,8 +1203,11 @@ void SegmentInit( int pass )
                  * code segment contained labels, but this isn't sufficient.)
                  */
                 if ( curr->e.seginfo->segtype == SEGTYPE_CODE )
-                    i = i + (i >> 2);
+                    i = ( i + (i >> 2) < i ) ? 0xFFFFFFFF : i + (i >> 2);
+                old = needed;
                 needed += i;
+                if ( needed < old ) /* total size of the segments exceeds 4 GB */
+                    Fatal( OUT_OF_MEMORY );
             }
         }
         /* segments may have grown in the previous pass: the old buffer may be too small */
-- 
2.43.0


From 8ea9dbd9d116c2aadb2d3e3153b69858129d6658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 87/98] fix: a text macro whose definition fails has a value

---
 string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/string.c b/string.c
index 0c3c5d6..e890323 100644
--- a/string.c
+++ b/string.c
@@ -367,6 +367,12 @@ struct asym *SetTextMacro( struct asm_tok tokenarray[], struct asym *sym, const
         /* just ONE literal is allowed */
         if ( tokenarray[3].token != T_FINAL ) {
             EmitErr( SYNTAX_ERROR_EX, tokenarray[3].tokpos );
+            /* the symbol is a text macro now and needs a value */
+            if ( sym->string_ptr == NULL ) {
+                sym->string_ptr = (char *)LclAlloc( 1 );
+                *sym->string_ptr = NULLC;
+                sym->total_size = 1;
+            }
             return( NULL );
         }
         value = tokenarray[2].string_ptr;
-- 
2.43.0


From 31610546467eddc093a611038f9f8599529db032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 88/98] fix: .FOR: unterminated arguments, character literals

---
 hll.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hll.c b/hll.c
index 7203af7..bf58f41 100644
--- a/hll.c
+++ b/hll.c
@@ -1477,10 +1477,10 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
   case T_DOT_FOR:
     {
       char forbuff[MAX_LINE_LEN];
-      char forbuffinit[MAX_LINE_LEN];
+      char forbuffinit[MAX_LINE_LEN * 2];
       char forbuffcond[MAX_LINE_LEN];
-      char forbuffcnt[MAX_LINE_LEN];
-      char transformed[MAX_LINE_LEN];
+      char forbuffcnt[MAX_LINE_LEN * 2];
+      char transformed[MAX_LINE_LEN + 8];
       int j;
       int b;
       int size;
@@ -1539,7 +1539,7 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
               }
               if (c == ',' && forbuff[j - 1] != 39 && forbuff[j + 1] != 39) eqcnt++;
               forbuffinit[b] = c;
-              if (c == 39 && forbuffinit[b - 2] == 39) {
+              if (c == 39 && b > 1 && forbuffinit[b - 2] == 39) {
                   b++;
                   forbuffinit[b] = ' ';
               }
@@ -1547,25 +1547,25 @@ ret_code HllStartDir(int i, struct asm_tok tokenarray[])
               b++;
           }
           forbuffinit[b] = NULLC;
-          j++;
+          if (forbuff[j]) j++;
           //coppy the condition to the buffer
           forbuffcond[0] = NULLC;
           for (b = 0; forbuff[j] && forbuff[j] != ':'; forbuffcond[b] = forbuff[j], j++, b++);
           forbuffcond[b] = NULLC;
-          j++;
+          if (forbuff[j]) j++;
           //copy the counter to the buffer
           cmcnt = 0;
           forbuffcnt[0] = NULLC;
           hll->condlines = "";
-          for (b = 0; forbuff[j] != ')'; b++, j++) {
+          for (b = 0; forbuff[j] && forbuff[j] != ')'; b++, j++) {
               forbuffcnt[b] = forbuff[j];
               if (forbuffcnt[b] == ',' && forbuff[j - 1] != 39 && forbuff[j + 1] != 39) ++cmcnt;
-              if (forbuffcnt[b] == 39 && forbuffcnt[b - 2] == 39) {
+              if (forbuffcnt[b] == 39 && b > 1 && forbuffcnt[b - 2] == 39) {
                   b++;
                   forbuffcnt[b] = ' ';
               }
           }
-          if (forbuffcnt[b - 1] == ')') b--;
+          if (b && forbuffcnt[b - 1] == ')') b--;
           forbuffcnt[b] = NULLC;
           //create valid command and add to LineQueue to initiate .for loop vars
           //anything that is before the first ':'
-- 
2.43.0


From c8a42daa267c6f6a34a4800c2d3267264b10798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:13 +0000
Subject: [PATCH 89/98] fix: INVOKE: limit of arguments, levels of pointers,
 negative RECORD width

---
 invoke.c | 7 +++++++
 types.c  | 7 ++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/invoke.c b/invoke.c
index 8e11d52..a45cc68 100644
--- a/invoke.c
+++ b/invoke.c
@@ -3282,6 +3282,13 @@ static int PushInvokeParam(int i, struct asm_tok tokenarray[], struct dsym *proc
 
 	DebugMsg1(("PushInvokeParam(%s, param=%s:%u, i=%u ) enter\n", proc->sym.name, curr ? curr->sym.name : "NULL", reqParam, i));
 
+	/* limits: string parameters are stored for 256 arguments only; in SYSTEMV, there's space for 64 lines, an argument needs up to 8 */
+	if (curr && (reqParam >= 256 || proc->e.procinfo->stackOpCount > 64 - 8))
+	{
+		EmitErr(TOO_MANY_ARGUMENTS_TO_INVOKE);
+		return(ERROR);
+	}
+
 	previ = i;
 	i++;
 	for (currParm = 0; currParm <= reqParam; )
diff --git a/types.c b/types.c
index d39c527..f0ed64d 100644
--- a/types.c
+++ b/types.c
@@ -1520,7 +1520,8 @@ ret_code GetQualifiedType( int *pi, struct asm_tok tokenarray[], struct qualifie
             /* v2.06: avoid to use ST_PTR */
             //type = ST_PTR;
             type = EMPTY;
-            pti->is_ptr++;
+            if ( pti->is_ptr < 0xFF )
+                pti->is_ptr++;
         } else
             break;
     }
@@ -1538,7 +1539,7 @@ ret_code GetQualifiedType( int *pi, struct asm_tok tokenarray[], struct qualifie
                 sym = pti->symtype;
                 /* if it's a typedef, simplify the info */
                 if ( sym->typekind == TYPE_TYPEDEF ) {
-                    pti->is_ptr     += sym->is_ptr;
+                    pti->is_ptr     = ( pti->is_ptr + sym->is_ptr > 0xFF ? 0xFF : pti->is_ptr + sym->is_ptr );
                     if ( sym->is_ptr == 0 ) {
                         /* v2.06b: alias types have MT_TYPE, dont use for ptr_memtype! */
                         //pti->ptr_memtype = sym->mem_type;
@@ -1867,7 +1868,7 @@ ret_code RecordDirective( int i, struct asm_tok tokenarray[] )
         if ( opndx.value == 0 ) {
             EmitErr( TOO_FEW_BITS_IN_RECORD, tokenarray[name_loc].string_ptr );
             break;
-        } else if ( ( opndx.value + cntBits ) > MAXRECBITS ) {
+        } else if ( opndx.value < 0 || opndx.value > MAXRECBITS || ( opndx.value + cntBits ) > MAXRECBITS ) {
             EmitErr( TOO_MANY_BITS_IN_RECORD, tokenarray[name_loc].string_ptr );
             break;
         }
-- 
2.43.0


From 0c56000ee78258d7c268cac2f5b2a1ecf0f532d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:26 +0000
Subject: [PATCH 90/98] fix: expressions and EXITM: don't use tokens of another
 line

---
 expans.c   | 2 +-
 expreval.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expans.c b/expans.c
index b215524..9a9ec8e 100644
--- a/expans.c
+++ b/expans.c
@@ -724,7 +724,7 @@ int RunMacro( struct dsym *macro, int idx, struct asm_tok tokenarray[], char *ou
                              * To determine text macro or macro function expansion,
                              * check if there's a literal in the original line.
                              */
-                            if ( mi.currline->ph_count || *(mi.currline->line+(tokenarray[1].tokpos-CurrSource)) != '<' ) {
+                            if ( mi.currline == NULL || mi.currline->ph_count || *(mi.currline->line+(tokenarray[1].tokpos-CurrSource)) != '<' ) {
                                 memcpy( out, tokenarray[1].string_ptr, tokenarray[1].stringlen + 1 );
                             } else {
                                 /* since the string_ptr member has the !-operator stripped, it
diff --git a/expreval.c b/expreval.c
index e046fb0..12b1d7c 100644
--- a/expreval.c
+++ b/expreval.c
@@ -4233,8 +4233,8 @@ static ret_code evaluate( struct expr *opnd1, int *i, struct asm_tok tokenarray[
             rc = calculate( opnd1, &opnd2, &tokenarray[curr_operator] );
           }
         /* here we get the mask 128 v2.45  */
-          p1 = tokenarray[3].string_ptr;
-          if ((*p1 & 0xdf) == 'M') {    
+          p1 = ( Token_Count > 3 ? tokenarray[3].string_ptr : NULL );
+          if (p1 && (*p1 & 0xdf) == 'M') {    
             if (0 == _memicmp(p1, "MASK", 4)) {
               if (0 == _memicmp(tokenarray[1].string_ptr, "xmm", 3)) {
                 if (GetMask128(opnd1, 3, tokenarray) != ERROR)
-- 
2.43.0


From b0940449c459b1fd476a265cbb08cb9898e56b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:04 +0000
Subject: [PATCH 91/98] fix: -Fs without a file name or with a name that can't
 be opened crashed

---
 symbols.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/symbols.c b/symbols.c
index 259bc52..9adbc6a 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1017,8 +1017,19 @@ void WriteSymbols()
 
 	if (Options.dumpSymbols)
 	{
-		pName = Options.names[4];
+		/* no name given with -Fs: use the name of the object file, with extension .sym */
+		char name[FILENAME_MAX * 2 + 8];
+		pName = Options.names[OPTN_SYM_FN];
+		if (pName == NULL) {
+			strcpy(name, CurrFName[OBJ]);
+			strcpy(GetExtPart(name), ".sym");
+			pName = name;
+		}
 		ld = fopen(pName, "wb");
+		if (ld == NULL) {
+			EmitErr(CANNOT_OPEN_FILE, pName, ErrnoStr());
+			return;
+		}
 		sym = NULL;
 		fseek(ld, 4, SEEK_SET);
 		while (sym = SymEnum(sym, &i)) 
-- 
2.43.0


From ba6f0b2e33924f1017d7b00c9a76061e082be5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 92/98] fix: long file names and options overflowed the message
 and include path buffers

---
 errmsg.c | 13 ++++++++++---
 input.c  |  3 +--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/errmsg.c b/errmsg.c
index e28cc0f..62a8692 100644
--- a/errmsg.c
+++ b/errmsg.c
@@ -226,9 +226,10 @@ static void PutMsg( FILE *fp, int severity, int msgnum, va_list args )
 /********************************************************************/
 {
     int             i,j;
+    int             cnt;
     const char      *type;
     const char      *pMsg;
-    char            buffer[MAX_LINE_LEN+128];
+    char            buffer[MAX_LINE_LEN+FILENAME_MAX+128];
 
 	#ifdef _WIN32
 		CONSOLE_SCREEN_BUFFER_INFO screenBufferInfo;
@@ -252,7 +253,13 @@ static void PutMsg( FILE *fp, int severity, int msgnum, va_list args )
         }
         if ( type )
             i = sprintf( buffer, "%s A%4u: ", type, severity * 1000 + msgnum );
-        i += vsprintf( buffer+i, pMsg, args );
+        cnt = vsnprintf( buffer+i, sizeof( buffer ) - i, pMsg, args );
+        /* message is truncated if it doesn't fit ( long file names, command line options, ... ) */
+        if ( cnt < 0 || cnt >= (int)sizeof( buffer ) - i ) {
+            cnt = sizeof( buffer ) - i - 1;
+            buffer[sizeof( buffer ) - 1] = NULLC;
+        }
+        i += cnt;
 
 		#ifdef _WIN32
 			if (severity <= 2)
@@ -446,7 +453,7 @@ int InternalError( const char *file, unsigned line )
 /* it's used by myassert() function in debug version */
 {
 #if 1
-    char buffer[MAX_LINE_LEN];
+    char buffer[MAX_LINE_LEN+FILENAME_MAX];
     DebugMsg(("InternalError enter\n"));
     ModuleInfo.g.error_count++;
     GetCurrSrcPos( buffer );
diff --git a/input.c b/input.c
index fa1e73f..6db081b 100644
--- a/input.c
+++ b/input.c
@@ -611,10 +611,9 @@ FILE *SearchFile( const char *path, bool queue )
                 //DebugMsg1(("SearchFile(): curr src=%s, split into drive=%s, dir=%s\n", GetFName( fl->srcfile)->fname, drive2, dir2 ));
                 src = GetFName( fl->srcfile )->fname;
                 fn2 = GetFNamePart( src );
-                if ( fn2 != src ) {
+                if ( fn2 != src && ( fn2 - src ) + strlen( path ) < sizeof( fullpath ) ) {
                     int i = fn2 - src;
                     /* v2.10: if there's a directory part, add it to the directory part of the current file.
-                     * fixme: check that both parts won't exceed FILENAME_MAX!
                      * fixme: 'path' is relative, but it may contain a drive letter!
                      */
                     memcpy( fullpath, src, i );
-- 
2.43.0


From 9278a1c8ca53ca8c1f8eeab3f1c2d28b4571a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:30 +0000
Subject: [PATCH 93/98] fix: option parsing: blanks in the UASM variable, -D
 with empty value, -Zi0, -Zi8 with OMF, over-long names

---
 assemble.c |  6 +++++-
 cmdline.c  | 53 +++++++++++++++++++++++++++++++----------------------
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/assemble.c b/assemble.c
index c132416..301a809 100644
--- a/assemble.c
+++ b/assemble.c
@@ -1329,6 +1329,10 @@ static void ModuleInit( void )
     ModuleInfo.ostype = OPSYS_DOS;
     ModuleInfo.emulator = (Options.floating_point == FPO_EMULATION);
 
+    /* CodeView 8 symbols ( -Zi8 ) exist in COFF only; OMF gets CodeView 5 */
+    if ( Options.output_format == OFORMAT_OMF && Options.debug_symbols == 4 )
+        Options.debug_symbols = 2;
+
     get_module_name(); /* set ModuleInfo.name */
 
     /* v2.06: ST_PROC has been removed */
@@ -1479,7 +1483,7 @@ static void SetFilenames( const char *name )
     int i;
     const char *fn;
     char *ext;
-    char path[ FILENAME_MAX ];
+    char path[ FILENAME_MAX * 2 + 4 ]; /* directory + name + extension */
 
     DebugMsg(("SetFilenames(\"%s\") enter\n", name ));
 
diff --git a/cmdline.c b/cmdline.c
index d0e8891..1678c08 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -167,6 +167,7 @@ static char             *OptName;                     /* value of option's name
 static const char       *cmdsave[MAX_RSP_NESTING];    /* response files */
 static const char       *cmdbuffers[MAX_RSP_NESTING]; /* response files */
 static int              rspidx = 0;                   /* response file level */
+static bool             inenvstr = TRUE;              /* parsing the UASM environment string, i.e. argv[0] */
 
 /* array for options -0 ... -10 */
 static const enum cpu_info cpuoption[] = {
@@ -296,9 +297,14 @@ static void get_fname( int type, const char *token )
 {
     const char  *pName;
     char        name [ FILENAME_MAX ];
+    size_t      len = strlen( token );
 
     DebugMsg(("get_fname( type=%u, >%s< ) enter\n", type, token ));
     //_splitpath( token, drive, dir, fname, ext );
+    if ( type < NUM_FILE_TYPES && DefaultDir[type] )
+        len += strlen( DefaultDir[type] );
+    if ( len >= sizeof( name ) )
+        Fatal( CANNOT_OPEN_FILE, token, "name too long" );
     pName = GetFNamePart( token );
     /*
      * If name's ending with a '\' (or '/' in Unix), it's supposed
@@ -406,30 +412,27 @@ static void OPTQUAL Set_Zi( void )
     Set_Zd();
     Options.debug_symbols = 1;
     Options.debug_ext = CVEX_NORMAL;
-    if (OptValue)
+    if (OptValue > CVEX_MAX)
     {
-        if (OptValue > CVEX_MAX)
+        Options.debug_ext = CVEX_MAX;
+        if (OptValue == 5)
         {
-            Options.debug_ext = CVEX_MAX;          
-            if (OptValue == 5)
-            {
-                Options.debug_symbols = 2; /* C11 (vc5.x) 32-bit types */
-            }
-            else if (OptValue == 8)
-            {
-                Options.debug_symbols = 4; /* C13 (vc7.x) zero terminated names */
-                Options.no_file_entry = 1;
-            }
-            else
-            {
-                EmitWarn(1, INVALID_CMDLINE_VALUE, "Zi");
-            }
+            Options.debug_symbols = 2; /* C11 (vc5.x) 32-bit types */
+        }
+        else if (OptValue == 8)
+        {
+            Options.debug_symbols = 4; /* C13 (vc7.x) zero terminated names */
+            Options.no_file_entry = 1;
         }
         else
         {
-            Options.debug_ext = OptValue;
+            EmitWarn(1, INVALID_CMDLINE_VALUE, "Zi");
         }
     }
+    else
+    {
+        Options.debug_ext = OptValue;
+    }
 }
 
 static void OPTQUAL Set_Zp( void )
@@ -797,7 +800,7 @@ is_quote:
             if ( *str == NULLC )
                 break;
             /* v2.10: don't stop for white spaces if filename is expected and true cmdline is parsed */
-            if ( ( *str == ' ' || *str == '\t' ) && ( rspidx || type != '@' ) )
+            if ( ( *str == ' ' || *str == '\t' ) && ( rspidx || inenvstr || type != '@' ) )
                 break;
             if ( type == 0 )
                 if ( *str == '-'
@@ -809,8 +812,11 @@ is_quote:
             if ( *str == '=' && type == '$' && equatefound == FALSE ) {
                 equatefound = TRUE;
                 *dst++ = *str++;
-                if (*str == '"')
+                if (*str == '"') {
+                    max--;
                     goto is_quote;
+                }
+                continue;
             }
             *dst++ = *str++;
         }
@@ -890,6 +896,7 @@ static const char *getnextcmdstring( const char **cmdline )
             MemFree( (void *)cmdbuffers[rspidx] );
         return( cmdsave[rspidx] );
     }
+    inenvstr = FALSE;
     for ( dst = cmdline, src = cmdline+1; *src; )
         *dst++ = *src++;
     *dst = *src;
@@ -1100,10 +1107,12 @@ char * EXPQUAL ParseCmdline( const char **cmdline, int *pCntArgs )
             str++;
 #if 1 /* v2.06: was '0' in v2.05, now '1' again since it didn't work with quoted names */
             /* todo: might be unnecessary since v.2.10, since GetNameToken() handles spaces inside filenames differently */
-            if ( rspidx ) {
+            if ( rspidx || inenvstr ) {
                 cmdsave[rspidx] = GetNameToken( paramfile, str, sizeof( paramfile ) - 1, '@' );
             } else {
-                strcpy( paramfile, str ); /* fixme: no overflow check */
+                if ( strlen( str ) >= sizeof( paramfile ) )
+                    Fatal( CANNOT_OPEN_FILE, str, "name too long" );
+                strcpy( paramfile, str );
                 cmdsave[rspidx] = str + strlen(str);
             }
 #else
@@ -1128,7 +1137,7 @@ char * EXPQUAL ParseCmdline( const char **cmdline, int *pCntArgs )
             set_default_build_target();
 #endif
 #if 1 /* v2.06: activated (was removed in v2.05). Needed for quoted filenames */
-            if ( rspidx ) {
+            if ( rspidx || inenvstr ) {
                 str = GetNameToken( paramfile, str, sizeof( paramfile ) - 1, '@' );
                 get_fname( OPTN_ASM_FN, paramfile );
             } else {
-- 
2.43.0


From bbc8b0b8c817074b01cd7a4040366c605d3ffd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:10 +0000
Subject: [PATCH 94/98] fix: INCBIN: honour the size argument, an offset behind
 the end and read errors

---
 directiv.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/directiv.c b/directiv.c
index 3e742fb..0eccdce 100644
--- a/directiv.c
+++ b/directiv.c
@@ -263,24 +263,27 @@ ret_code IncBinDirective( int i, struct asm_tok tokenarray[] )
     if ( file = SearchFile( StringBufferEnd, FALSE ) ) 
 	{
 		/* v2.14 : Get File Size */
-		fseek( file, 0L, SEEK_END );
-		sz = ftell( file ) - fileoffset; // sz = total data size to load into segment/section.
-		fseek( file, 0L, SEEK_SET );
-		pBinData = (unsigned char*)malloc(sz);
-		if ( fileoffset )
-			fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
-		result = fread(pBinData, sz, 1, file);
+		sz = -1;
+		if ( fseek( file, 0L, SEEK_END ) == 0 )
+			sz = ftell( file );
+		if ( sz < 0 || fseek( file, 0L, SEEK_SET ) ) {
+			fclose( file );
+			return( EmitErr( CANNOT_OPEN_FILE, StringBufferEnd, ErrnoStr() ) );
+		}
+		/* total data size to load into segment/section */
+		sz = ( fileoffset < sz ? sz - fileoffset : 0 );
+		if ( sizemax < sz )
+			sz = sizemax;
+		pBinData = (unsigned char*)MemAlloc(sz + 1);
+		if ( fileoffset && sz )
+			result = fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
+		if ( result || fread(pBinData, 1, sz, file) != sz ) {
+			free((void*)pBinData);
+			fclose( file );
+			return( EmitErr( CANNOT_OPEN_FILE, StringBufferEnd, ErrnoStr() ) );
+		}
 		OutputBinBytes(pBinData, sz);
 
-        /* transfer file content to the current segment. */
-        //if ( fileoffset )
-            //fseek( file, fileoffset, SEEK_SET );  /* fixme: use fseek64() */
-        //for( ; sizemax; sizemax-- ) {
-            //int ch = fgetc( file );
-            //if ( ( ch == EOF ) && feof( file ) )
-                //break;
-            //OutputByte( ch );
-        //}
 		free((void*)pBinData);
         fclose( file );
     }
-- 
2.43.0


From 3b38ac66c53d1ce3c73c3d9872c8960b546a8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 95/98] fix: report out of memory instead of crashing

---
 H/errmsg.h  |  3 ++-
 bin.c       |  9 +++++----
 codegenv2.c |  3 ++-
 coff.c      |  8 ++++----
 elf.c       |  8 ++++----
 errmsg.c    | 23 ++++++++++++++++-------
 input.c     | 11 +++++++----
 listing.c   |  6 +++---
 macho64.c   | 16 ++++++++--------
 macrolib.c  |  4 ++--
 omf.c       | 14 +++++++-------
 orgfixup.c  |  2 +-
 12 files changed, 61 insertions(+), 46 deletions(-)

diff --git a/H/errmsg.h b/H/errmsg.h
index d200f3b..48f0917 100644
--- a/H/errmsg.h
+++ b/H/errmsg.h
@@ -68,7 +68,8 @@ extern void PrintNote( int msgnum, ... );
 extern char *ErrnoStr( void );
 extern int  write_logo( void );
 extern void PrintUsage( void );
-//extern void SeekError( void );
+extern void SafeSeek( FILE *, long, int );
+extern long SafeTell( FILE * );
 extern void WriteError( void );
 
 #endif
diff --git a/bin.c b/bin.c
index b9b65f3..bd7a051 100644
--- a/bin.c
+++ b/bin.c
@@ -1722,7 +1722,7 @@ static ret_code bin_write_module( struct module_info *modinfo )
 #if SECTORMAP
     if( CurrFile[LST] ) {
         /* go to EOF */
-        fseek( CurrFile[LST], 0, SEEK_END );
+        SafeSeek( CurrFile[LST], 0, SEEK_END );
         LstNL();
         LstNL();
         LstPrintf( szCaption );
@@ -1795,7 +1795,7 @@ static ret_code bin_write_module( struct module_info *modinfo )
 		if (size != 0 && curr->e.seginfo->CodeBuffer) {
 			DebugMsg(("bin_write_module(%s): write %" I32_SPEC "Xh bytes at offset %" I32_SPEC "Xh, initialized bytes=%" I32_SPEC "u, buffer=%p\n",
 				curr->sym.name, size, curr->e.seginfo->fileoffset, curr->e.seginfo->bytes_written, curr->e.seginfo->CodeBuffer));
-			fseek(CurrFile[OBJ], curr->e.seginfo->fileoffset, SEEK_SET);
+			SafeSeek(CurrFile[OBJ], curr->e.seginfo->fileoffset, SEEK_SET);
 #ifdef __I86__
 			if (hfwrite(curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ]) != size)
 				WriteError();
@@ -1830,13 +1830,14 @@ static ret_code bin_write_module( struct module_info *modinfo )
     }
 #if PE_SUPPORT && RAWSIZE_ROUND
     if ( modinfo->sub_format == SFORMAT_PE || ModuleInfo.sub_format == SFORMAT_64BIT ) {
-        size = ftell( CurrFile[OBJ] );
+        size = SafeTell( CurrFile[OBJ] );
         if ( size & ( cp.rawpagesize - 1 ) ) {
             char *tmp;
             size = cp.rawpagesize - ( size & ( cp.rawpagesize - 1 ) );
             tmp = myalloca( size );
             memset( tmp, 0, size );
-            fwrite( tmp, 1, size, CurrFile[OBJ] );
+            if ( fwrite( tmp, 1, size, CurrFile[OBJ] ) != size )
+                WriteError();
         }
     }
 #endif
diff --git a/codegenv2.c b/codegenv2.c
index 3921836..4de66b0 100644
--- a/codegenv2.c
+++ b/codegenv2.c
@@ -3,6 +3,7 @@
 
 #include <time.h>
 #include "globals.h"
+#include "memalloc.h"
 #include "parser.h"
 #include "segment.h"
 #include "extern.h"
@@ -47,7 +48,7 @@ static unsigned int hash(const uint_8* data, int size)
 
 struct Instr_Def* AllocInstruction()
 {
-	return malloc(sizeof(struct Instr_Def));
+	return MemAlloc(sizeof(struct Instr_Def));
 }
 
 void InsertInstruction(struct Instr_Def* pInstruction, uint_32 hash)
diff --git a/coff.c b/coff.c
index 19ebffb..435a207 100644
--- a/coff.c
+++ b/coff.c
@@ -947,14 +947,14 @@ static ret_code coff_write_data( struct module_info *modinfo, struct coffmod *cm
                 size++;
             }
             if ( section->e.seginfo->CodeBuffer == NULL ) {
-                fseek( CurrFile[OBJ], size, SEEK_CUR );
+                SafeSeek( CurrFile[OBJ], size, SEEK_CUR );
             } else {
                 /* if there was an ORG, the buffer content will
                  * start with the ORG address. The bytes from
                  * 0 - ORG must be written by moving the file pointer!
                  */
                 if ( section->e.seginfo->start_loc ) {
-                    fseek( CurrFile[OBJ], section->e.seginfo->start_loc, SEEK_CUR );
+                    SafeSeek( CurrFile[OBJ], section->e.seginfo->start_loc, SEEK_CUR );
                     size -= section->e.seginfo->start_loc;
                 }
 
@@ -1234,7 +1234,7 @@ static ret_code coff_write_module( struct module_info *modinfo )
     ifh.Characteristics = 0;
 
     /* position behind coff file header */
-    fseek( CurrFile[OBJ], sizeof( ifh ), SEEK_SET );
+    SafeSeek( CurrFile[OBJ], sizeof( ifh ), SEEK_SET );
 
     coff_write_section_table( modinfo, &cm );
     coff_write_data( modinfo, &cm );
@@ -1252,7 +1252,7 @@ static ret_code coff_write_module( struct module_info *modinfo )
     }
 
     /* finally write the COFF file header */
-    fseek( CurrFile[OBJ], 0, SEEK_SET);
+    SafeSeek( CurrFile[OBJ], 0, SEEK_SET);
     if ( fwrite( &ifh, 1, sizeof( ifh ), CurrFile[OBJ] ) != sizeof( ifh ) ) {
         WriteError();
     }
diff --git a/elf.c b/elf.c
index 474cd58..f850a91 100644
--- a/elf.c
+++ b/elf.c
@@ -1229,7 +1229,7 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
         size = curr->sym.max_offset - curr->e.seginfo->start_loc;
         DebugMsg(("elf_write_data(%s): program data at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->fileoffset, size ));
         if ( curr->e.seginfo->segtype != SEGTYPE_BSS && size != 0 && curr->e.seginfo->CodeBuffer ) {
-            fseek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET );
+            SafeSeek( CurrFile[OBJ], curr->e.seginfo->fileoffset + curr->e.seginfo->start_loc, SEEK_SET );
             /**/myassert( curr->e.seginfo->CodeBuffer );
             if ( fwrite( curr->e.seginfo->CodeBuffer, 1, size, CurrFile[OBJ] ) != size )
                 WriteError();
@@ -1240,7 +1240,7 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
     for ( i = 0; i < NUM_INTSEGS; i++ ) {
         if ( em->internal_segs[i].data ) {
             DebugMsg(("elf_write_data(%s): internal at ofs=%X, size=%X\n", internal_segparms[i].name, em->internal_segs[i].fileoffset, em->internal_segs[i].size));
-            fseek( CurrFile[OBJ], em->internal_segs[i].fileoffset, SEEK_SET );
+            SafeSeek( CurrFile[OBJ], em->internal_segs[i].fileoffset, SEEK_SET );
             if ( fwrite( em->internal_segs[i].data, 1, em->internal_segs[i].size, CurrFile[OBJ] ) != em->internal_segs[i].size )
                 WriteError();
         }
@@ -1250,7 +1250,7 @@ static ret_code elf_write_data( struct module_info *modinfo, struct elfmod *em )
     for( curr = SymTables[TAB_SEG].head; curr; curr = curr->next ) {
         if ( curr->e.seginfo->num_relocs ) {
             DebugMsg(("elf_write_data(%s): relocs at ofs=%X, size=%X\n", curr->sym.name, curr->e.seginfo->reloc_offset, curr->e.seginfo->num_relocs * sizeof(Elf32_Rel)));
-            fseek( CurrFile[OBJ], curr->e.seginfo->reloc_offset, SEEK_SET );
+            SafeSeek( CurrFile[OBJ], curr->e.seginfo->reloc_offset, SEEK_SET );
 #if AMD64_SUPPORT
             if ( modinfo->defOfssize == USE64 )
                 write_relocs64( curr );
@@ -1289,7 +1289,7 @@ static ret_code elf_write_module( struct module_info *modinfo )
            *(em.srcname-1) != '\\') em.srcname--;
 #endif
     /* position at 0 ( probably unnecessary, since there were no writes yet ) */
-    fseek( CurrFile[OBJ], 0, SEEK_SET );
+    SafeSeek( CurrFile[OBJ], 0, SEEK_SET );
 
     switch ( modinfo->defOfssize ) {
 #if AMD64_SUPPORT
diff --git a/errmsg.c b/errmsg.c
index 62a8692..31c9699 100644
--- a/errmsg.c
+++ b/errmsg.c
@@ -430,14 +430,23 @@ void Fatal( int msgnum, ... )
     exit(1);
 }
 
-#if 0
-void SeekError( void )
-/********************/
+/* position an output file; a failed seek must not go unnoticed */
+
+void SafeSeek( FILE *file, long offset, int mode )
+/************************************************/
 {
-    DebugMsg(("SeekError occured\n"));
-    Fatal( FILE_SEEK_ERROR, CurrFName[OBJ], errno );
-};
-#endif
+    if ( fseek( file, offset, mode ) != 0 )
+        Fatal( FILE_WRITE_ERROR, file == CurrFile[LST] ? CurrFName[LST] : CurrFName[OBJ], errno );
+}
+
+long SafeTell( FILE *file )
+/*************************/
+{
+    long pos = ftell( file );
+    if ( pos == -1L )
+        Fatal( FILE_WRITE_ERROR, CurrFName[OBJ], errno );
+    return( pos );
+}
 
 void WriteError( void )
 /*********************/
diff --git a/input.c b/input.c
index 6db081b..95a4870 100644
--- a/input.c
+++ b/input.c
@@ -208,10 +208,9 @@ static unsigned AddFile( char const *fname )
         }
         ModuleInfo.g.FNames = newfn;
     }
-    ModuleInfo.g.cnt_fnames++;
-
     ModuleInfo.g.FNames[index] = (char *)LclAlloc( strlen( fname ) + 1 );
     strcpy( ModuleInfo.g.FNames[index], fname );
+    ModuleInfo.g.cnt_fnames++;
     return( index );
 }
 
@@ -368,6 +367,8 @@ static char *my_fgets( char *buffer, int max, FILE *fp )
             /* no break */
 #endif
         case EOF:
+            if ( ferror( fp ) )
+                Fatal( CANNOT_OPEN_FILE, FileCur->string_ptr, "read error" );
             *ptr = NULLC;
             return( ptr > buffer ? buffer : NULL );
         default:
@@ -662,8 +663,9 @@ FILE *SearchFile( const char *path, bool queue )
      * assembly files usually are, but binary files ( INCBIN ) aren't.
      */
     if ( queue ) {
+        unsigned srcfile = AddFile( path );
         fl = PushSrcItem( SIT_FILE, file );
-        fl->srcfile = AddFile( path );
+        fl->srcfile = srcfile;
         FileCur->string_ptr = GetFName( fl->srcfile )->fname;
 #if FILESEQ
         if ( Options.line_numbers && Parse_Pass == PASS_1 )
@@ -867,8 +869,9 @@ void InputInit( void )
     /* behind the comment buffer is the token buffer */
     ModuleInfo.tokenarray = (struct asm_tok *)( srclinebuffer + SIZE_SRCLINES );
     token_stringbuf = srclinebuffer + SIZE_SRCLINES + SIZE_TOKENARRAY;
+    ModuleInfo.srcfile = AddFile( CurrFName[ASM] );
     fl = PushSrcItem( SIT_FILE, CurrFile[ASM] );
-    fl->srcfile = ModuleInfo.srcfile = AddFile( CurrFName[ASM] );
+    fl->srcfile = ModuleInfo.srcfile;
     FileCur->string_ptr = GetFName( fl->srcfile )->fname;
 }
 
diff --git a/listing.c b/listing.c
index b8be1ca..ce9a238 100644
--- a/listing.c
+++ b/listing.c
@@ -184,7 +184,7 @@ void LstWrite(enum lsttype type, uint_32 oldofs, void* value)
 #endif
             DebugMsg1(("LstWrite: Pass=%u, stored pos=%" I32_SPEC "u\n", Parse_Pass+1, list_pos ));
         }
-        fseek( CurrFile[LST], list_pos, SEEK_SET );
+        SafeSeek( CurrFile[LST], list_pos, SEEK_SET );
     }
 #endif
 
@@ -420,7 +420,7 @@ void LstSetPosition( void )
 {
     if( CurrFile[LST] && ( Parse_Pass > PASS_1 ) && UseSavedState && ModuleInfo.GeneratedCode == 0 ) {
         list_pos = LineStoreCurr->list_pos;
-        fseek( CurrFile[LST], list_pos, SEEK_SET );
+        SafeSeek( CurrFile[LST], list_pos, SEEK_SET );
         ModuleInfo.line_flags |= LOF_SKIPPOS;
     }
 }
@@ -1067,7 +1067,7 @@ void LstWriteCRef( void )
 
     /* go to EOF - also if no symbol tables are written, since the footer
      * line follows and must not overwrite the last source line. */
-    fseek( CurrFile[LST], 0, SEEK_END );
+    SafeSeek( CurrFile[LST], 0, SEEK_END );
 
     if( Options.no_symbol_listing == TRUE )
         return;
diff --git a/macho64.c b/macho64.c
index 9e66fc1..7f03e83 100644
--- a/macho64.c
+++ b/macho64.c
@@ -104,7 +104,7 @@ Build a segment_command_64 structure.
 struct segment_command_64 * macho_build_seg_cmd( int fileofs )
 {
 	struct segment_command_64 *pCmd = NULL;
-	pCmd = malloc(sizeof(struct segment_command_64));
+	pCmd = MemAlloc(sizeof(struct segment_command_64));
 	memset(pCmd,0,sizeof(struct segment_command_64));
 	
 	pCmd->cmd      = LC_SEGMENT_64;
@@ -129,7 +129,7 @@ Build a symtabl_command structure.
 struct symtab_command * macho_build_symtbl_cmd()
 {
 	struct symtab_command *pCmd = NULL;
-	pCmd = malloc(sizeof(struct symtab_command));
+	pCmd = MemAlloc(sizeof(struct symtab_command));
 	memset(pCmd, 0, sizeof(struct symtab_command));
 
 	pCmd->cmd = LC_SYMTAB;
@@ -145,7 +145,7 @@ struct symtab_command * macho_build_symtbl_cmd()
 struct dysymtab_command * macho_build_dysymtbl_cmd()
 {
 	struct dysymtab_command *pCmd = NULL;
-	pCmd = malloc(sizeof(struct dysymtab_command));
+	pCmd = MemAlloc(sizeof(struct dysymtab_command));
 	memset(pCmd, 0, sizeof(struct dysymtab_command));
 
 	pCmd->cmd = LC_DYSYMTAB;
@@ -205,7 +205,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->state != SYM_EXTERNAL && !sym->ispublic && sym->used)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = malloc(sizeof(struct strentry));
+				pstr = MemAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -225,7 +225,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->ispublic)
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = malloc(sizeof(struct strentry));
+				pstr = MemAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -245,7 +245,7 @@ int macho_build_string_tbl(struct symtab_command *pSymCmd, struct macho_module *
 			if (sym->state == SYM_EXTERNAL && (sym->used || sym->ispublic || sym->iscomm)) /* same condition as below, when the entries are written */
 			{
 				tblSize += strlen(sym->name) + 1;
-				pstr = malloc(sizeof(struct strentry));
+				pstr = MemAlloc(sizeof(struct strentry));
 				memset(pstr, 0, sizeof(struct strentry));
 				pstr->pstr = sym->name;
 				pstr->sym = sym;
@@ -283,7 +283,7 @@ Build a macho_section_entry structure.
 struct section_64 * macho_build_section( const char *secName, const char *segName, uint32_t flags, const char *srcName )
 {
 	struct macho_section_entry *pSec = NULL;
-	pSec = malloc(sizeof(struct macho_section_entry));
+	pSec = MemAlloc(sizeof(struct macho_section_entry));
 	memset(pSec, 0, sizeof(struct macho_section_entry));
 
 	pSec->srcName = srcName;
@@ -739,7 +739,7 @@ static ret_code macho_write_module( struct module_info *modinfo )
 		*(mm.srcname - 1) != '\\') mm.srcname--;
 #endif
 	/* position at 0 ( probably unnecessary, since there were no writes yet ) */
-	fseek(CurrFile[OBJ], 0, SEEK_SET);
+	SafeSeek(CurrFile[OBJ], 0, SEEK_SET);
 	
 	if( modinfo->defOfssize == USE64)
 	{
diff --git a/macrolib.c b/macrolib.c
index 9567c9d..ba7d7e6 100644
--- a/macrolib.c
+++ b/macrolib.c
@@ -303,7 +303,7 @@ void InitAutoMacros64(void)
 	{
 		for (j = 0; j < macroLen[i]; j++)
 		{
-			srcLines[j] = (char *)malloc(MAX_LINE_LEN);
+			srcLines[j] = (char *)MemAlloc(MAX_LINE_LEN);
 			if(srcLines[j])
 				strcpy(srcLines[j], macCode[(start_pos + j)]);
 		}
@@ -367,7 +367,7 @@ void InitAutoMacros32(void)
 	{
 		for (j = 0; j < macroLen[i]; j++)
 		{
-			srcLines[j] = (char *)malloc(MAX_LINE_LEN);
+			srcLines[j] = (char *)MemAlloc(MAX_LINE_LEN);
 			strcpy(srcLines[j], macCode[(start_pos + j)]);
 		}
 		mac = CreateMacro(macName32[i]);
diff --git a/omf.c b/omf.c
index f9fb904..1298ab5 100644
--- a/omf.c
+++ b/omf.c
@@ -623,7 +623,7 @@ void omf_set_filepos( void )
     DebugMsg1(( "omf_set_filepos: reset file pos to %X\n", end_of_header ));
 #if MULTIHDR
 #endif
-    fseek( CurrFile[OBJ], end_of_header, SEEK_SET );
+    SafeSeek( CurrFile[OBJ], end_of_header, SEEK_SET );
 }
 
 static void omf_write_dosseg( void )
@@ -1584,7 +1584,7 @@ static ret_code omf_write_module( struct module_info *modinfo )
      * v2.03: most likely no longer necessary, since the file
      * won't become shorter anymore.
      */
-    size = ftell( CurrFile[OBJ] );
+    size = SafeTell( CurrFile[OBJ] );
 #if defined(__UNIX__) || defined(__CYGWIN__) || defined(__DJGPP__)
     fh = fileno( CurrFile[OBJ] );
     if ( ftruncate( fh, size ) ); /* gcc warns if return value of ftruncate() is "ignored" */
@@ -1601,12 +1601,12 @@ static ret_code omf_write_module( struct module_info *modinfo )
     /* write SEGDEF records. Since these records contain the segment's length,
      * the records have to be written again after the final assembly pass.
      */
-    fseek( CurrFile[OBJ] , seg_pos, SEEK_SET );
+    SafeSeek( CurrFile[OBJ] , seg_pos, SEEK_SET );
     omf_write_segdef();
     /* write PUBDEF records. Since the final value of offsets isn't known after
      * the first pass, this has to be called again after the final pass.
      */
-    fseek( CurrFile[OBJ], public_pos, SEEK_SET);
+    SafeSeek( CurrFile[OBJ], public_pos, SEEK_SET);
     omf_write_pubdef();
     return( NOT_ERROR );
 }
@@ -1639,7 +1639,7 @@ static ret_code omf_write_header_initial( struct module_info *modinfo )
      * the records have to be written again after the final assembly pass.
      * hence the start position of those records has to be saved.
      */
-    seg_pos = ftell( CurrFile[OBJ] );
+    seg_pos = SafeTell( CurrFile[OBJ] );
     omf_write_segdef();
     omf_write_grpdef(); /* write GRPDEF records */
     ext_idx = omf_write_extdef(); /* write EXTDEF records */
@@ -1649,7 +1649,7 @@ static ret_code omf_write_header_initial( struct module_info *modinfo )
     /* write PUBDEF records. Since the final value of offsets isn't known after
      * the first pass, this has to be called again after the final pass.
      */
-    public_pos = ftell( CurrFile[OBJ] );
+    public_pos = SafeTell( CurrFile[OBJ] );
     omf_write_pubdef();
     omf_write_export(); /* write export COMENT records */
 
@@ -1661,7 +1661,7 @@ static ret_code omf_write_header_initial( struct module_info *modinfo )
      */
     if ( !ModuleInfo.g.start_fixup )
         omf_end_of_pass1();
-    end_of_header = ftell( CurrFile[OBJ] );
+    end_of_header = SafeTell( CurrFile[OBJ] );
     return( NOT_ERROR );
 }
 
diff --git a/orgfixup.c b/orgfixup.c
index 2233ef1..63970d8 100644
--- a/orgfixup.c
+++ b/orgfixup.c
@@ -12,7 +12,7 @@ struct orgFixup *pOrgTable = NULL;
 void AddOrgFixup(int curPos, int orgValue)
 {
 	struct orgFixup *curPtr = pOrgTable;
-	struct orgFixup *pFixup = (struct orgFixup*)malloc(sizeof(struct orgFixup));
+	struct orgFixup *pFixup = (struct orgFixup*)MemAlloc(sizeof(struct orgFixup));
 	pFixup->startPos = curPos;
 	pFixup->orgValue = orgValue;
 	pFixup->pNext = NULL;
-- 
2.43.0


From 2d090b2d59c69f629eca04bc9943244bd38ae251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 96/98] fix: failed writes, seeks and closes of listing,
 symbol, response and object files were ignored

---
 assemble.c | 23 ++++++++++++++++-------
 cmdline.c  | 18 +++++++-----------
 dbgcv.c    |  4 ++--
 symbols.c  |  9 ++++++---
 4 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/assemble.c b/assemble.c
index 301a809..8a87b4a 100644
--- a/assemble.c
+++ b/assemble.c
@@ -553,7 +553,8 @@ static ret_code WriteModule( struct module_info *modinfo )
                     WriteError();
             }
         }
-        fclose( ld );
+        if ( fclose( ld ) != 0 )
+            return( EmitErr( CANNOT_CLOSE_FILE, Options.names[OPTN_LNKDEF_FN], errno ) );
     }
 #endif
     DebugMsg(("WriteModule exit\n"));
@@ -1404,19 +1405,24 @@ void close_files( void )
      * That's because Fatal() may cause close_files() to be
      * reentered and thus cause an endless loop.
      */
+    FILE *fp;
+    int  failed;
 
     /* close ASM file */
     if( CurrFile[ASM] != NULL ) {
-        if( fclose( CurrFile[ASM] ) != 0 )
-            EmitErr( CANNOT_CLOSE_FILE, CurrFName[ASM], errno );
+        fp = CurrFile[ASM];
         CurrFile[ASM] = NULL;
+        if( fclose( fp ) != 0 )
+            EmitErr( CANNOT_CLOSE_FILE, CurrFName[ASM], errno );
     }
 
     /* close OBJ file */
     if ( CurrFile[OBJ] != NULL ) {
-        if ( fclose( CurrFile[OBJ] ) != 0 )
-            EmitErr( CANNOT_CLOSE_FILE, CurrFName[OBJ], errno );
+        fp = CurrFile[OBJ];
         CurrFile[OBJ] = NULL;
+        failed = ferror( fp );
+        if ( fclose( fp ) != 0 || failed )
+            EmitErr( CANNOT_CLOSE_FILE, CurrFName[OBJ], errno );
     }
     /* delete the object module if errors occured */
     if ( Options.syntax_check_only == FALSE &&
@@ -1425,8 +1431,11 @@ void close_files( void )
     }
 
     if( CurrFile[LST] != NULL ) {
-        fclose( CurrFile[LST] );
+        fp = CurrFile[LST];
         CurrFile[LST] = NULL;
+        failed = ferror( fp );
+        if ( fclose( fp ) != 0 || failed )
+            EmitErr( FILE_WRITE_ERROR, CurrFName[LST], errno );
     }
 
     /* close ERR file */
@@ -1844,7 +1853,7 @@ int EXPQUAL AssembleModule( const char *source )
 		fflush(stdout); /* Force flush of each modules assembly progress */
 	}
     if ( CurrFile[LST] ) {
-        LstPrintf( CurrSource );
+        LstPrintf( "%s", CurrSource );
         LstNL();
     }
 done:
diff --git a/cmdline.c b/cmdline.c
index 1678c08..1477b31 100644
--- a/cmdline.c
+++ b/cmdline.c
@@ -849,17 +849,13 @@ static char *ReadParamFile( const char *name )
         return( NULL );
     }
     len = 0;
-    if ( fseek( file, 0, SEEK_END ) == 0 ) {
-        len = ftell( file );
-        rewind( file );
-        env = MemAlloc( len + 1 );
-#if defined(__GNUC__) /* gcc warns if return value of fread() is "ignored" */
-        if ( fread( env, 1, len, file ) );
-#else
-        fread( env, 1, len, file );
-#endif
-        env[len] = NULLC;
-    }
+    if ( fseek( file, 0, SEEK_END ) != 0 || ( len = ftell( file ) ) < 0 )
+        Fatal( CANNOT_OPEN_FILE, name, ErrnoStr() );
+    rewind( file );
+    env = MemAlloc( len + 1 );
+    if ( fread( env, 1, len, file ) != len )
+        Fatal( CANNOT_OPEN_FILE, name, ErrnoStr() );
+    env[len] = NULLC;
     fclose( file );
     if ( len == 0)
         return( NULL );
diff --git a/dbgcv.c b/dbgcv.c
index 3dd3d4e..dae42a3 100644
--- a/dbgcv.c
+++ b/dbgcv.c
@@ -1263,7 +1263,7 @@ static int calc_md5(const char* filename, unsigned char* sum)
 	size_t i;
 
 	if ((fp = fopen(filename, "rb")) == NULL)
-		return 0;
+		Fatal(CANNOT_OPEN_FILE, filename, ErrnoStr());
 	file_buf = MemAlloc(BUFSIZ);
 	_picohash_md5_init(&ctx);
 	while (!feof(fp)) {
@@ -1271,7 +1271,7 @@ static int calc_md5(const char* filename, unsigned char* sum)
 		if (ferror(fp)) {
 			fclose(fp);
 			MemFree(file_buf);
-			return 0;
+			Fatal(CANNOT_OPEN_FILE, filename, ErrnoStr());
 		}
 		else if (i == 0)
 			break;
diff --git a/symbols.c b/symbols.c
index 9adbc6a..56a672e 100644
--- a/symbols.c
+++ b/symbols.c
@@ -1014,6 +1014,7 @@ void WriteSymbols()
 	int i;
 	FILE *ld;
 	int n = 0;
+	int failed;
 
 	if (Options.dumpSymbols)
 	{
@@ -1031,7 +1032,7 @@ void WriteSymbols()
 			return;
 		}
 		sym = NULL;
-		fseek(ld, 4, SEEK_SET);
+		failed = fseek(ld, 4, SEEK_SET);
 		while (sym = SymEnum(sym, &i)) 
 		{
 			if ((sym->state == SYM_INTERNAL && sym->offset==0 && !sym->isproc) || sym->state == SYM_MACRO || sym->state == SYM_TMACRO || sym->state == SYM_GRP) continue;
@@ -1054,9 +1055,11 @@ void WriteSymbols()
 			fwrite(&n, 1, 1, ld);
 			count++;
 		}
-		fseek(ld, 0, SEEK_SET);
+		failed |= fseek(ld, 0, SEEK_SET);
 		fwrite(&count, 4, 1, ld);
-		fclose(ld);
+		failed |= ferror(ld);
+		if (fclose(ld) != 0 || failed)
+			EmitErr(FILE_WRITE_ERROR, pName, errno);
 	}
 }
 
-- 
2.43.0


From 3047f57bcb4c3659ee7be3c414709bd5763b5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:25 +0000
Subject: [PATCH 97/98] fix: line numbers: keep the item when only the file or
 segment changes, no line below 1 for a function

---
 linnum.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/linnum.c b/linnum.c
index 16749ab..bbfb743 100644
--- a/linnum.c
+++ b/linnum.c
@@ -32,6 +32,8 @@ extern int            procidx;
 
 static struct asym    *dmyproc;
 static uint_32        lastLineNumber;
+static unsigned       lastSrcFile;
+static struct dsym    *lastSeg;
 
 static void AddLinnumData( struct line_num_info *data )
 /*****************************************************/
@@ -117,7 +119,9 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
         }
     }
 
-    if(  line_num && ( write_to_file == FALSE || lastLineNumber == line_num )) {
+    /* one item per line - but the same line number in another file or segment is a new line */
+    if(  line_num && ( write_to_file == FALSE ||
+        ( lastLineNumber == line_num && lastSrcFile == srcfile && lastSeg == CurrSeg ) ) ) {
         return;
     }
 
@@ -134,7 +138,7 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
 
 		/* if there is no prologue, 2 lines get skipped, this corrects line_number; v2.28 */
         if (CurrProc->e.procinfo->size_prolog == 0 && Parse_Pass)
-          curr->line_number -= 3; // this is bit hackish but works
+          curr->line_number = ( curr->line_number > 3 ? curr->line_number - 3 : 1 ); // this is bit hackish but works
         
 		curr->file = srcfile;
         /* set the function's size! */
@@ -158,6 +162,8 @@ void AddLinnumDataRef( unsigned srcfile, uint_32 line_num )
     }
 
     lastLineNumber = line_num;
+    lastSrcFile = srcfile;
+    lastSeg = CurrSeg;
 
     /* v2.11: added, improved multi source support for CV.
      * Also, the size of line number info could have become > 1024,
@@ -214,5 +220,7 @@ void LinnumInit( void )
 /*********************/
 {
     lastLineNumber = 0;
+    lastSrcFile = 0;
+    lastSeg = NULL;
     dmyproc = NULL;
 }
-- 
2.43.0


From e73b23ba75d3e803f10f148adb5f97984fd93028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:39 +0000
Subject: [PATCH 98/98] fix: OMF line numbers: offsets above 64 kB were cut
 when the source file changed at the same time

---
 omf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omf.c b/omf.c
index 1298ab5..650c577 100644
--- a/omf.c
+++ b/omf.c
@@ -571,7 +571,7 @@ void omf_check_flush( const struct line_num_info *curr )
          */
         omf_write_theadr( GetFName( curr->srcfile )->fname );
         ln_srcfile = curr->srcfile;
-        return;
+        /* don't return here: the offset magnitude may change as well */
     }
 #endif
     /* if there's a change in offset magnitude ( 16 -> 32 or 32 -> 16 ),
-- 
2.43.0

