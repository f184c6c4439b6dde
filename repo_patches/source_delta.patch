From f0f3366fe19a2004265ab3285cbe6093e4eaaabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 01/29] fix: size the frame of interpreted closures by their
 parameter count

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 44579b5..c0e9080 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -976,7 +976,7 @@ makeClosureForEval(Cora *co, int label, Obj *R) {
 	Obj env = R[3];
 	int len = listLen(params);
 	Obj ret =
-		makeNative(co->gc, 4, applyClosureForEval, len, 3, params, body, env);
+		makeNative(co->gc, len + 1, applyClosureForEval, len, 3, params, body, env);
 	coraReturn(co, ret);
 }
 
-- 
2.43.0


From 4944fc0c060fe51e2a5671094be8bb942d7fa6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 02/29] fix: vectorAppend goes through the generational write
 barrier

---
 src/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.c b/src/types.c
index 0ffd7b3..5e01e5e 100644
--- a/src/types.c
+++ b/src/types.c
@@ -328,6 +328,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 	}
 	v->data[v->size] = val;
 	v->size++;
+	writeBarrierForGeneration(gc, &v->head, val);
 	return makeNaNPtr(&v->head, TAG_PTR);
 }
 
-- 
2.43.0


From 4e365b450e4554248baef0421cceffbb6ffaa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 03/29] fix: keep the surplus arguments of an over-applied call
 on the stack

coraDispatch ran the first call on a nested machine and then read the surplus
arguments below the stack pointer, where neither the collector nor the frames
of that run leave them alone.
---
 src/runtime.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index c0e9080..cc14924 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -146,6 +146,13 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 	return makeNaNPtr(&clo->head, TAG_NATIVE);
 }
 
+// Continue an over-applied call: R[0], R[1] ... up to the stack pointer are the
+// arguments the first call did not take, pass them to its result.
+static void
+callSurplus(Cora *co, int label, Obj *R) {
+	coraCall(co, co->res, co->ctx.sp - R, R);
+}
+
 static void
 coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	struct scmNative *f = mustNative(fn);
@@ -155,7 +162,14 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		Obj ret = makeCurry(co, fn, nargs, args);
 		coraReturn(co, ret);
 	} else {
-		// eval the first call and get the result;
+		// The surplus arguments wait in a frame of their own, GC can see them.
+		int rest = nargs - required;
+		Obj *saved = stackAlloc(co, rest);
+		for (int i = 0; i < rest; i++) {
+			saved[i] = args[required + i];
+		}
+		saveCont(co, callSurplus, 0, saved);
+		// eval the first call, callSurplus makes the next call.
 		Obj *R = stackAlloc(co, f->nframe);
 		R[0] = fn;
 		for (int i = 0; i < required; i++) {
@@ -163,9 +177,6 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		}
 		co->ctx.fn = f->fn;
 		co->ctx.label = 0;
-		coraRun(co);
-		// make the next call.
-		coraCall(co, co->res, nargs - required, args + required);
 	}
 	return;
 }
-- 
2.43.0


From d4df125883587fcc06897955aad2ad11000cb1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 04/29] fix: load compiles in one step and continues in another

builtinLoad ran the compiler on a nested machine and then used the text of its
argument, which the collector may have freed meanwhile.
---
 src/runtime.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index cc14924..e711b50 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -421,21 +421,25 @@ static int unique = 1;
 static void
 builtinLoad(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinLoad");
-	// (load "file-path.cora")
-	Obj filePath = R[1];
-	Obj arg1 = filePath;
-	str filePathStr = stringStr(filePath);
 	const int BUFSIZE = 512;
 	char buf[BUFSIZE];
-	int cfileidx = unique;
-	unique++;
-	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
-	str tmpCFile = cstr(buf);
-	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
-	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
-	Obj fn = globalRef(co, bind);
-	coraCall2(co, fn, arg1, arg2);
-	coraRun(co);
+	if (label == 0) {
+		// (load "file-path.cora")
+		int idx = unique;
+		unique++;
+		snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", idx);
+		Obj tmpCFile = makeCString(co->gc, buf);
+		Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
+		// Compile it and continue in the next step, R keeps the file path (and
+		// the index of the C file) alive meanwhile.
+		R[0] = makeNumber(idx);
+		saveCont(co, builtinLoad, 1, R);
+		coraCall2(co, globalRef(co, bind), R[1], tmpCFile);
+		return;
+	}
+
+	str filePathStr = stringStr(R[1]);
+	int cfileidx = fixnum(R[0]);
 	// TODO: check res?
 	// Obj res = co->args[1];
 
@@ -462,10 +466,10 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		return;
 	}
 
-	arg1 = makeCString(co->gc, toCStr(tmp));
+	Obj arg1 = makeCString(co->gc, toCStr(tmp));
 	strFree(tmp);
-	arg2 = makeCString(co->gc, "");
-	fn = globalRef(co, bindSymbol(co, intern("load-so")));
+	Obj arg2 = makeCString(co->gc, "");
+	Obj fn = globalRef(co, bindSymbol(co, intern("load-so")));
 	co->ctx.sp = R;
 	coraCall2(co, fn, arg1, arg2);
 	return;
-- 
2.43.0


From ba17d8b4f853d16b9d56da9628696905dfa6944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 05/29] fix: the reader stops at the end of input inside a list

readCons recursed without limit when the input ended before the closing
parenthesis, and character 0xff was taken for the end of input.
---
 src/reader.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 38a7c35..621a0da 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -47,7 +47,7 @@ eatWhitespace(FILE *in) {
 	}
 }
 
-static char
+static int
 peekFirstChar(FILE *in) {
 	eatWhitespace(in);
 	return getc(in);
@@ -60,6 +60,11 @@ readCons(GC *gc, FILE *in, int *errCode) {
 		// read the empty list
 		return Nil;
 	}
+	if (c == EOF) {
+		// the list is not terminated
+		*errCode = 1;
+		return Nil;
+	}
 
 	ungetc(c, in);
 	Obj hd = sexpRead(gc, in, errCode);
@@ -86,7 +91,7 @@ static Obj
 readListMacro(GC *gc, FILE *in, int *errCode) {
 	Obj hd = intern("list");
 	Obj ret = Nil;
-	char b = peekFirstChar(in);
+	int b = peekFirstChar(in);
 	while (b != EOF && b != ']') {
 		if (b == '.') {
 			hd = intern("list-rest");
@@ -97,6 +102,9 @@ readListMacro(GC *gc, FILE *in, int *errCode) {
 		}
 		b = peekFirstChar(in);
 	}
+	if (b == EOF) {
+		*errCode = 1;
+	}
 	return makeCons(gc, hd, reverse(gc, ret));
 }
 
@@ -105,7 +113,7 @@ readNumber(FILE *in) {
 	char buf[30];
 	memset(buf, 0, 30);
 	int i = 0;
-	char c = getc(in);
+	int c = getc(in);
 	while (c != EOF && isdigit(c)) {
 		buf[i] = c;
 		c = getc(in);
-- 
2.43.0


From f1cf3c03f6ea0f8c83b2da23d28ee4535a5e8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 06/29] fix: the reader checks the bounds of its token buffers

---
 src/reader.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 621a0da..c22e39c 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -115,6 +115,10 @@ readNumber(FILE *in) {
 	int i = 0;
 	int c = getc(in);
 	while (c != EOF && isdigit(c)) {
+		if (i >= (int)sizeof(buf) - 1) {
+			fprintf(stderr, "number too long\n");
+			exit(1);
+		}
 		buf[i] = c;
 		c = getc(in);
 		i++;
@@ -180,12 +184,12 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 				exit(1);
 			}
 			/* subtract 1 to save space for '\0' terminator */
-			if (i < 1000 - 1) {
+			if (i < (int)sizeof(buffer) - 1) {
 				buffer[i++] = c;
 			} else {
 				fprintf(stderr,
 					"string too long. Maximum length is %d\n",
-					1000);
+					(int)sizeof(buffer) - 1);
 				exit(1);
 			}
 		}
@@ -197,6 +201,10 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 		/* int firstDot = -1; */
 		i = 0;
 		while (isIdentifierChar(c)) {
+			if (i >= (int)sizeof(buffer) - 1) {
+				fprintf(stderr, "symbol too long\n");
+				exit(1);
+			}
 			buffer[i] = c;
 			if (c == '.') {
 				/* firstDot = i; */
-- 
2.43.0


From a8df839a9fc6ea215a20a450aefc556479973f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 07/29] fix: peg's negative lookahead returned an undefined
 variable

---
 lib/peg.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index 091175b..e4a0492 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -133,7 +133,7 @@
 	   (lambda (toks)
 	     (match (p toks)
 	       ['ok _ toks1] ['fail toks1]
-	       ['fail toks1] ['ok v toks1])))
+	       ['fail toks1] ['ok () toks1])))
 
 	 (defun recur-h (p toks res k)
 	   (match (p toks)
-- 
2.43.0


From a34eee513a42acf14668005ccdaf78af02876bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 08/29] fix: ukanren's reify-name called string.append, which
 does not exist

---
 lib/ukanren.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ukanren.cora b/lib/ukanren.cora
index 3cf0bfb..0aa6737 100644
--- a/lib/ukanren.cora
+++ b/lib/ukanren.cora
@@ -181,7 +181,7 @@
 
 	 (defun reify-name (n)
 	   (intern
-            (string.append "_." (number->string n))))
+            (string-append "_." (number->string n))))
 
 	 (def empty-state (cons () 0))
 	 (defun call/empty-state (g)
-- 
2.43.0


From 0b9c915d0af388ea312b930b781fdff07c01b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:53 +0000
Subject: [PATCH 09/29] fix: the occurs check on list types called a misspelt
 name

---
 lib/infer.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/infer.cora b/lib/infer.cora
index 4a72ef2..d067496 100644
--- a/lib/infer.cora
+++ b/lib/infer.cora
@@ -57,7 +57,7 @@
 	'symbol _ => false
 	[a '-> b] t => (or (occur? a t) (occur? b t))
 	x [a '-> b] => (or (occur? x a) (occur? x b)) where (number? x)
-	['list a] t => (occure? a t)
+	['list a] t => (occur? a t)
 	v t => (= v t))
 
   (func apply-subst
-- 
2.43.0


From 1246b142c706f4fa0f0301ace9c0ea61a9fd1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 10/29] fix: retrying a channel send passes the value on

---
 lib/chan.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/chan.cora b/lib/chan.cora
index ce37843..83b0523 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -41,7 +41,7 @@
 				 (match (dequeue recvq)
 					[state resume wrap]
 					(if (= 'Done (value state))
-					    (send-try [sendq recvq]) ;; ignore stale
+					    (send-try [sendq recvq] val) ;; ignore stale
 					    (begin
 					      (enqueue-task (lambda ()
 							      (begin
-- 
2.43.0


From e76e48e9f10c0d182eb5450ee5e9c67dfdb9a83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 11/29] fix: hash-del! removes the given key

---
 lib/hash.cora | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hash.cora b/lib/hash.cora
index c8277b3..2437b3a 100644
--- a/lib/hash.cora
+++ b/lib/hash.cora
@@ -16,8 +16,8 @@
 
   (func assoc-rm
 	key [] => []
-	key [[key . _] . more] => more
-	key [x . more] => [x . (assoc-rm key x more)])
+	key [[k1 . _] . more] => more where (= key k1)
+	key [x . more] => [x . (assoc-rm key more)])
 
   (defun hash-make (n)
     (let h (vector (+ 3 n))
-- 
2.43.0


From 19ffe531f4cb53f80a743e6d40a44af035db84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:15 +0000
Subject: [PATCH 12/29] fix: sxml escapes the apostrophe, not the backslash

---
 lib/sxml.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sxml.cora b/lib/sxml.cora
index d49b0f6..8f490da 100644
--- a/lib/sxml.cora
+++ b/lib/sxml.cora
@@ -57,7 +57,7 @@
 			(cond
 			 ((= c 34) (buffer-append buf "&quot;"))  ;; "
 			 ((= c 38) (buffer-append buf "&amp;"))  ;; &
-			 ((= c 92) (buffer-append buf "&apos;"))  ;; \
+			 ((= c 39) (buffer-append buf "&apos;"))  ;; '
 			 ((= c 60) (buffer-append buf "&lt;"))  ;; <
 			 ((= c 62) (buffer-append buf "&gt;"))  ;; >
 			 (true (buffer-append buf (string-index str i)))))
-- 
2.43.0


From 08824defef4770426bd565e2a9c11001b7a71bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 13/29] fix: implement the embedding functions cora.h declares

---
 src/cora.h   |  2 +-
 src/export.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/cora.h b/src/cora.h
index 491fbc9..e4bca44 100644
--- a/src/cora.h
+++ b/src/cora.h
@@ -49,7 +49,7 @@ extern "C" {
 	Obj coraMakeVector(Cora *co, int size, int cap);
 	Obj coraVectorRef(Obj vec, int idx);
 	Obj coraVectorSet(Cora *co, Obj vec, int idx, Obj val);
-	Obj coraVectorAppend(Obj vec, Obj val);
+	Obj coraVectorAppend(Cora *co, Obj vec, Obj val);
 	bool coraIsVector(Obj o);
 	int coraVectorLength(Obj vec);
 
diff --git a/src/export.c b/src/export.c
index fdea94a..2896cf9 100644
--- a/src/export.c
+++ b/src/export.c
@@ -98,3 +98,48 @@ Obj
 coraPrimGenSym(Cora *co) {
 	return primGenSym(co);
 }
+
+void *
+coraMustCObj(Obj o) {
+	return mustCObj(o);
+}
+
+bool
+coraIsNumber(Obj o) {
+	return isNumber(o);
+}
+
+Obj
+coraMakeBytes(Cora *co, int len) {
+	return makeBytes(co->gc, len);
+}
+
+int
+coraBytesLen(Obj o) {
+	return bytesLen(o);
+}
+
+Obj
+coraCar(Obj o) {
+	return car(o);
+}
+
+Obj
+coraCdr(Obj o) {
+	return cdr(o);
+}
+
+Obj
+coraVectorAppend(Cora *co, Obj vec, Obj val) {
+	return vectorAppend(co->gc, vec, val);
+}
+
+bool
+coraIsVector(Obj o) {
+	return isvector(o);
+}
+
+int
+coraVectorLength(Obj vec) {
+	return vectorLength(vec);
+}
-- 
2.43.0


From a018963f083fa7986dfeae595983cc3ff1133441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:58 +0000
Subject: [PATCH 14/29] fix: apply is a tail call, and a return pops every
 stack segment left behind

---
 src/runtime.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index e711b50..a1a1317 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -41,15 +41,17 @@ stackAllocSlowPath(Cora *co, int n) {
 
 void
 coraReturnSlowPath(Cora *co) {
-	assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
-	free(co->stk.begin);
-	vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
-	co->stk.data.v.len--;
+	// Tail calls may have left more than one segment behind.
+	do {
+		assert(vecLen(&co->stk.data) > 1);
+		assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
+		free(co->stk.begin);
+		vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
+		co->stk.data.v.len--;
 
-	co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
-	co->stk.end = co->stk.begin + INIT_STACK_SIZE;
-
-	assert(co->ctx.sp >= co->stk.begin && co->ctx.sp < co->stk.end);
+		co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
+		co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+	} while (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end);
 }
 
 static Cora *
@@ -386,6 +388,8 @@ builtinApply(Cora *co, int label, Obj *R) {
 		assert(false);
 	}
 
+	// A tail call, the frame of apply itself is no longer used.
+	co->ctx.sp = R;
 	Obj *frame = stackAlloc(co, f->nframe);
 	frame[0] = fn;
 	int p = 1;
-- 
2.43.0


From 8ea4dace6ca00ca131ff2f1af6731671315c2fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 15/29] fix: define error, report an exception nobody catches,
 and the missing integer? primitive

---
 init.c        | 3420 ++++++++++++++---------------
 init.cora     |    6 +-
 lib/eval.cora |    1 +
 lib/toc.c     | 5786 ++++++++++++++++++++++++-------------------------
 src/reader.c  |    2 +-
 src/runtime.c |   18 +-
 6 files changed, 4626 insertions(+), 4607 deletions(-)

diff --git a/init.c b/init.c
index acc8e96..7783d5c 100644
--- a/init.c
+++ b/init.c
@@ -102,7 +102,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 162);
+Binding *__symbolTable = malloc(sizeof(Binding) * 163);
 __symbolTable[0] = bindSymbol(co, intern("cora/init#assq"));
 __symbolTable[1] = bindSymbol(co, intern("cora/init#append"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#filter"));
@@ -111,160 +111,161 @@ __symbolTable[4] = bindSymbol(co, intern("cora/init#elem?"));
 __symbolTable[5] = bindSymbol(co, intern("cora/init#macroexpand"));
 __symbolTable[6] = bindSymbol(co, intern("cora/init#map"));
 __symbolTable[7] = bindSymbol(co, intern("cora/init#reverse"));
-__symbolTable[8] = bindSymbol(co, intern("cora/init#throw"));
-__symbolTable[9] = bindSymbol(co, intern("cora/init#try"));
-__symbolTable[10] = bindSymbol(co, intern("cora/init#import"));
-__symbolTable[11] = bindSymbol(co, intern("cora/init#load-so"));
-__symbolTable[12] = bindSymbol(co, intern("cora/init#load"));
-__symbolTable[13] = bindSymbol(co, intern("cora/init#apply"));
-__symbolTable[14] = bindSymbol(co, intern("cora/init#read-file-as-sexp"));
-__symbolTable[15] = bindSymbol(co, intern("cora/init#value-or"));
-__symbolTable[16] = bindSymbol(co, intern("cora/init#value"));
-__symbolTable[17] = bindSymbol(co, intern("cora/init#bytes-length"));
-__symbolTable[18] = bindSymbol(co, intern("cora/init#bytes"));
-__symbolTable[19] = bindSymbol(co, intern("cora/init#vector-length"));
-__symbolTable[20] = bindSymbol(co, intern("cora/init#vector-ref"));
-__symbolTable[21] = bindSymbol(co, intern("cora/init#vector-set!"));
-__symbolTable[22] = bindSymbol(co, intern("cora/init#vector?"));
-__symbolTable[23] = bindSymbol(co, intern("cora/init#vector"));
-__symbolTable[24] = bindSymbol(co, intern("cora/init#symbol->string"));
-__symbolTable[25] = bindSymbol(co, intern("cora/init#intern"));
-__symbolTable[26] = bindSymbol(co, intern("cora/init#string-append"));
-__symbolTable[27] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[28] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[29] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[30] = bindSymbol(co, intern("cora/init#atom?"));
-__symbolTable[31] = bindSymbol(co, intern("cora/init#pair?"));
-__symbolTable[32] = bindSymbol(co, intern("cora/init#cdddr"));
-__symbolTable[33] = bindSymbol(co, intern("cora/init#cadddr"));
-__symbolTable[34] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[35] = bindSymbol(co, intern("cora/init#cddr"));
-__symbolTable[36] = bindSymbol(co, intern("cora/init#cdar"));
-__symbolTable[37] = bindSymbol(co, intern("cora/init#caar"));
-__symbolTable[38] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[39] = bindSymbol(co, intern("throw"));
-__symbolTable[40] = bindSymbol(co, intern("try"));
-__symbolTable[41] = bindSymbol(co, intern("load"));
-__symbolTable[42] = bindSymbol(co, intern("load-so"));
-__symbolTable[43] = bindSymbol(co, intern("apply"));
-__symbolTable[44] = bindSymbol(co, intern("value"));
-__symbolTable[45] = bindSymbol(co, intern("read-file-as-sexp"));
-__symbolTable[46] = bindSymbol(co, intern("bytes-length"));
-__symbolTable[47] = bindSymbol(co, intern("bytes"));
-__symbolTable[48] = bindSymbol(co, intern("vector-length"));
-__symbolTable[49] = bindSymbol(co, intern("vector-ref"));
-__symbolTable[50] = bindSymbol(co, intern("vector-set!"));
-__symbolTable[51] = bindSymbol(co, intern("vector?"));
-__symbolTable[52] = bindSymbol(co, intern("vector"));
-__symbolTable[53] = bindSymbol(co, intern("cora/init#*ns-export*"));
-__symbolTable[54] = bindSymbol(co, intern("number?"));
-__symbolTable[55] = bindSymbol(co, intern("cora/init#builtin?"));
-__symbolTable[56] = bindSymbol(co, intern("assq"));
-__symbolTable[57] = bindSymbol(co, intern("string?"));
-__symbolTable[58] = bindSymbol(co, intern("integer?"));
-__symbolTable[59] = bindSymbol(co, intern("not"));
-__symbolTable[60] = bindSymbol(co, intern("symbol?"));
-__symbolTable[61] = bindSymbol(co, intern("gensym"));
-__symbolTable[62] = bindSymbol(co, intern("<"));
-__symbolTable[63] = bindSymbol(co, intern(">"));
-__symbolTable[64] = bindSymbol(co, intern("/"));
-__symbolTable[65] = bindSymbol(co, intern("*"));
-__symbolTable[66] = bindSymbol(co, intern("-"));
-__symbolTable[67] = bindSymbol(co, intern("+"));
-__symbolTable[68] = bindSymbol(co, intern("set"));
-__symbolTable[69] = bindSymbol(co, intern("cora/init#*builtin-prims*"));
-__symbolTable[70] = bindSymbol(co, intern("value-or"));
-__symbolTable[71] = bindSymbol(co, intern("cora/init#lookup-var"));
-__symbolTable[72] = bindSymbol(co, intern("symbol->string"));
-__symbolTable[73] = bindSymbol(co, intern("string-append"));
-__symbolTable[74] = bindSymbol(co, intern("intern"));
-__symbolTable[75] = bindSymbol(co, intern("symbol-cooked?"));
-__symbolTable[76] = bindSymbol(co, intern("cora/init#var-with-ns"));
-__symbolTable[77] = bindSymbol(co, intern("*ns-export*"));
-__symbolTable[78] = bindSymbol(co, intern("ns"));
-__symbolTable[79] = bindSymbol(co, intern("package"));
-__symbolTable[80] = bindSymbol(co, intern("cora/init#parse-package"));
-__symbolTable[81] = bindSymbol(co, intern("import"));
-__symbolTable[82] = bindSymbol(co, intern("export"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#parse-package-h"));
-__symbolTable[84] = bindSymbol(co, intern("fold-apply"));
-__symbolTable[85] = bindSymbol(co, intern("cora/init#rewrite-fold-apply"));
-__symbolTable[86] = bindSymbol(co, intern("backquote"));
-__symbolTable[87] = bindSymbol(co, intern("unquote"));
-__symbolTable[88] = bindSymbol(co, intern("cora/init#rewrite-backquote"));
-__symbolTable[89] = bindSymbol(co, intern("begin"));
-__symbolTable[90] = bindSymbol(co, intern("do"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#rewrite-begin"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#peval"));
-__symbolTable[93] = bindSymbol(co, intern("cora/init#parse"));
-__symbolTable[94] = bindSymbol(co, intern("cora/init#rewrite-namespace"));
-__symbolTable[95] = bindSymbol(co, intern("func"));
-__symbolTable[96] = bindSymbol(co, intern("cora/init#gen-paramenters"));
-__symbolTable[97] = bindSymbol(co, intern("cora/init#rules-arg-count"));
-__symbolTable[98] = bindSymbol(co, intern("append"));
-__symbolTable[99] = bindSymbol(co, intern("filter"));
-__symbolTable[100] = bindSymbol(co, intern("cora/init#filter-h"));
-__symbolTable[101] = bindSymbol(co, intern("length"));
-__symbolTable[102] = bindSymbol(co, intern("cora/init#length-h"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#rules-patterns"));
-__symbolTable[104] = bindSymbol(co, intern("cora/init#extract-rules"));
-__symbolTable[105] = bindSymbol(co, intern("=>"));
-__symbolTable[106] = bindSymbol(co, intern("cora/init#extract-rules1"));
-__symbolTable[107] = bindSymbol(co, intern("match"));
-__symbolTable[108] = bindSymbol(co, intern("cora/init#rewrite-match"));
-__symbolTable[109] = bindSymbol(co, intern("cora/init#match-helper"));
-__symbolTable[110] = bindSymbol(co, intern("where"));
-__symbolTable[111] = bindSymbol(co, intern("cora/init#extract-rule-action"));
-__symbolTable[112] = bindSymbol(co, intern("str"));
-__symbolTable[113] = bindSymbol(co, intern("="));
-__symbolTable[114] = bindSymbol(co, intern("cdr"));
-__symbolTable[115] = bindSymbol(co, intern("car"));
-__symbolTable[116] = bindSymbol(co, intern("cons?"));
-__symbolTable[117] = bindSymbol(co, intern("cora/init#match1"));
-__symbolTable[118] = bindSymbol(co, intern("cora/init#match-cons-expander"));
-__symbolTable[119] = bindSymbol(co, intern("list-rest"));
-__symbolTable[120] = bindSymbol(co, intern("cora/init#rcons1"));
-__symbolTable[121] = bindSymbol(co, intern("boolean?"));
-__symbolTable[122] = bindSymbol(co, intern("and"));
-__symbolTable[123] = bindSymbol(co, intern("cora/init#rewrite-and"));
-__symbolTable[124] = bindSymbol(co, intern("or"));
-__symbolTable[125] = bindSymbol(co, intern("cora/init#rewrite-or"));
-__symbolTable[126] = bindSymbol(co, intern("if"));
-__symbolTable[127] = bindSymbol(co, intern("error"));
-__symbolTable[128] = bindSymbol(co, intern("cond"));
-__symbolTable[129] = bindSymbol(co, intern("let"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#rewrite-let"));
-__symbolTable[131] = bindSymbol(co, intern("atom?"));
-__symbolTable[132] = bindSymbol(co, intern("elem?"));
-__symbolTable[133] = bindSymbol(co, intern("def"));
-__symbolTable[134] = bindSymbol(co, intern("defun"));
-__symbolTable[135] = bindSymbol(co, intern("list"));
-__symbolTable[136] = bindSymbol(co, intern("defmacro"));
-__symbolTable[137] = bindSymbol(co, intern("defmacro-macro"));
-__symbolTable[138] = bindSymbol(co, intern("macroexpand"));
-__symbolTable[139] = bindSymbol(co, intern("quote"));
-__symbolTable[140] = bindSymbol(co, intern("lambda"));
-__symbolTable[141] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
-__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand1"));
-__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
-__symbolTable[144] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
-__symbolTable[145] = bindSymbol(co, intern("*protect-symbol*"));
-__symbolTable[146] = bindSymbol(co, intern("*macros*"));
-__symbolTable[147] = bindSymbol(co, intern("map"));
-__symbolTable[148] = bindSymbol(co, intern("map-h"));
-__symbolTable[149] = bindSymbol(co, intern("reverse"));
-__symbolTable[150] = bindSymbol(co, intern("cora/init#reverse-h"));
-__symbolTable[151] = bindSymbol(co, intern("pair?"));
-__symbolTable[152] = bindSymbol(co, intern("cons"));
-__symbolTable[153] = bindSymbol(co, intern("rcons"));
-__symbolTable[154] = bindSymbol(co, intern("cdddr"));
-__symbolTable[155] = bindSymbol(co, intern("cadddr"));
-__symbolTable[156] = bindSymbol(co, intern("caddr"));
-__symbolTable[157] = bindSymbol(co, intern("cddr"));
-__symbolTable[158] = bindSymbol(co, intern("cdar"));
-__symbolTable[159] = bindSymbol(co, intern("caar"));
-__symbolTable[160] = bindSymbol(co, intern("cadr"));
-__symbolTable[161] = bindSymbol(co, intern("null?"));
+__symbolTable[8] = bindSymbol(co, intern("cora/init#symbol-cooked?"));
+__symbolTable[9] = bindSymbol(co, intern("cora/init#error"));
+__symbolTable[10] = bindSymbol(co, intern("cora/init#throw"));
+__symbolTable[11] = bindSymbol(co, intern("cora/init#try"));
+__symbolTable[12] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[13] = bindSymbol(co, intern("cora/init#load-so"));
+__symbolTable[14] = bindSymbol(co, intern("cora/init#load"));
+__symbolTable[15] = bindSymbol(co, intern("cora/init#apply"));
+__symbolTable[16] = bindSymbol(co, intern("cora/init#read-file-as-sexp"));
+__symbolTable[17] = bindSymbol(co, intern("cora/init#value-or"));
+__symbolTable[18] = bindSymbol(co, intern("cora/init#value"));
+__symbolTable[19] = bindSymbol(co, intern("cora/init#bytes-length"));
+__symbolTable[20] = bindSymbol(co, intern("cora/init#bytes"));
+__symbolTable[21] = bindSymbol(co, intern("cora/init#vector-length"));
+__symbolTable[22] = bindSymbol(co, intern("cora/init#vector-ref"));
+__symbolTable[23] = bindSymbol(co, intern("cora/init#vector-set!"));
+__symbolTable[24] = bindSymbol(co, intern("cora/init#vector?"));
+__symbolTable[25] = bindSymbol(co, intern("cora/init#vector"));
+__symbolTable[26] = bindSymbol(co, intern("cora/init#symbol->string"));
+__symbolTable[27] = bindSymbol(co, intern("cora/init#intern"));
+__symbolTable[28] = bindSymbol(co, intern("cora/init#string-append"));
+__symbolTable[29] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[30] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[31] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[32] = bindSymbol(co, intern("cora/init#atom?"));
+__symbolTable[33] = bindSymbol(co, intern("cora/init#pair?"));
+__symbolTable[34] = bindSymbol(co, intern("cora/init#cdddr"));
+__symbolTable[35] = bindSymbol(co, intern("cora/init#cadddr"));
+__symbolTable[36] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[37] = bindSymbol(co, intern("cora/init#cddr"));
+__symbolTable[38] = bindSymbol(co, intern("cora/init#cdar"));
+__symbolTable[39] = bindSymbol(co, intern("cora/init#caar"));
+__symbolTable[40] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[41] = bindSymbol(co, intern("throw"));
+__symbolTable[42] = bindSymbol(co, intern("try"));
+__symbolTable[43] = bindSymbol(co, intern("load"));
+__symbolTable[44] = bindSymbol(co, intern("load-so"));
+__symbolTable[45] = bindSymbol(co, intern("apply"));
+__symbolTable[46] = bindSymbol(co, intern("value"));
+__symbolTable[47] = bindSymbol(co, intern("read-file-as-sexp"));
+__symbolTable[48] = bindSymbol(co, intern("bytes-length"));
+__symbolTable[49] = bindSymbol(co, intern("bytes"));
+__symbolTable[50] = bindSymbol(co, intern("vector-length"));
+__symbolTable[51] = bindSymbol(co, intern("vector-ref"));
+__symbolTable[52] = bindSymbol(co, intern("vector-set!"));
+__symbolTable[53] = bindSymbol(co, intern("vector?"));
+__symbolTable[54] = bindSymbol(co, intern("vector"));
+__symbolTable[55] = bindSymbol(co, intern("cora/init#*ns-export*"));
+__symbolTable[56] = bindSymbol(co, intern("number?"));
+__symbolTable[57] = bindSymbol(co, intern("cora/init#builtin?"));
+__symbolTable[58] = bindSymbol(co, intern("assq"));
+__symbolTable[59] = bindSymbol(co, intern("string?"));
+__symbolTable[60] = bindSymbol(co, intern("integer?"));
+__symbolTable[61] = bindSymbol(co, intern("not"));
+__symbolTable[62] = bindSymbol(co, intern("symbol?"));
+__symbolTable[63] = bindSymbol(co, intern("gensym"));
+__symbolTable[64] = bindSymbol(co, intern("<"));
+__symbolTable[65] = bindSymbol(co, intern(">"));
+__symbolTable[66] = bindSymbol(co, intern("/"));
+__symbolTable[67] = bindSymbol(co, intern("*"));
+__symbolTable[68] = bindSymbol(co, intern("-"));
+__symbolTable[69] = bindSymbol(co, intern("+"));
+__symbolTable[70] = bindSymbol(co, intern("set"));
+__symbolTable[71] = bindSymbol(co, intern("cora/init#*builtin-prims*"));
+__symbolTable[72] = bindSymbol(co, intern("value-or"));
+__symbolTable[73] = bindSymbol(co, intern("cora/init#lookup-var"));
+__symbolTable[74] = bindSymbol(co, intern("symbol->string"));
+__symbolTable[75] = bindSymbol(co, intern("string-append"));
+__symbolTable[76] = bindSymbol(co, intern("intern"));
+__symbolTable[77] = bindSymbol(co, intern("symbol-cooked?"));
+__symbolTable[78] = bindSymbol(co, intern("cora/init#var-with-ns"));
+__symbolTable[79] = bindSymbol(co, intern("*ns-export*"));
+__symbolTable[80] = bindSymbol(co, intern("ns"));
+__symbolTable[81] = bindSymbol(co, intern("package"));
+__symbolTable[82] = bindSymbol(co, intern("cora/init#parse-package"));
+__symbolTable[83] = bindSymbol(co, intern("import"));
+__symbolTable[84] = bindSymbol(co, intern("export"));
+__symbolTable[85] = bindSymbol(co, intern("cora/init#parse-package-h"));
+__symbolTable[86] = bindSymbol(co, intern("fold-apply"));
+__symbolTable[87] = bindSymbol(co, intern("cora/init#rewrite-fold-apply"));
+__symbolTable[88] = bindSymbol(co, intern("backquote"));
+__symbolTable[89] = bindSymbol(co, intern("unquote"));
+__symbolTable[90] = bindSymbol(co, intern("cora/init#rewrite-backquote"));
+__symbolTable[91] = bindSymbol(co, intern("begin"));
+__symbolTable[92] = bindSymbol(co, intern("do"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#rewrite-begin"));
+__symbolTable[94] = bindSymbol(co, intern("cora/init#peval"));
+__symbolTable[95] = bindSymbol(co, intern("cora/init#parse"));
+__symbolTable[96] = bindSymbol(co, intern("cora/init#rewrite-namespace"));
+__symbolTable[97] = bindSymbol(co, intern("func"));
+__symbolTable[98] = bindSymbol(co, intern("cora/init#gen-paramenters"));
+__symbolTable[99] = bindSymbol(co, intern("cora/init#rules-arg-count"));
+__symbolTable[100] = bindSymbol(co, intern("append"));
+__symbolTable[101] = bindSymbol(co, intern("filter"));
+__symbolTable[102] = bindSymbol(co, intern("cora/init#filter-h"));
+__symbolTable[103] = bindSymbol(co, intern("length"));
+__symbolTable[104] = bindSymbol(co, intern("cora/init#length-h"));
+__symbolTable[105] = bindSymbol(co, intern("cora/init#rules-patterns"));
+__symbolTable[106] = bindSymbol(co, intern("cora/init#extract-rules"));
+__symbolTable[107] = bindSymbol(co, intern("=>"));
+__symbolTable[108] = bindSymbol(co, intern("cora/init#extract-rules1"));
+__symbolTable[109] = bindSymbol(co, intern("match"));
+__symbolTable[110] = bindSymbol(co, intern("cora/init#rewrite-match"));
+__symbolTable[111] = bindSymbol(co, intern("cora/init#match-helper"));
+__symbolTable[112] = bindSymbol(co, intern("where"));
+__symbolTable[113] = bindSymbol(co, intern("cora/init#extract-rule-action"));
+__symbolTable[114] = bindSymbol(co, intern("="));
+__symbolTable[115] = bindSymbol(co, intern("cdr"));
+__symbolTable[116] = bindSymbol(co, intern("car"));
+__symbolTable[117] = bindSymbol(co, intern("cons?"));
+__symbolTable[118] = bindSymbol(co, intern("cora/init#match1"));
+__symbolTable[119] = bindSymbol(co, intern("cora/init#match-cons-expander"));
+__symbolTable[120] = bindSymbol(co, intern("list-rest"));
+__symbolTable[121] = bindSymbol(co, intern("cora/init#rcons1"));
+__symbolTable[122] = bindSymbol(co, intern("boolean?"));
+__symbolTable[123] = bindSymbol(co, intern("and"));
+__symbolTable[124] = bindSymbol(co, intern("cora/init#rewrite-and"));
+__symbolTable[125] = bindSymbol(co, intern("or"));
+__symbolTable[126] = bindSymbol(co, intern("cora/init#rewrite-or"));
+__symbolTable[127] = bindSymbol(co, intern("if"));
+__symbolTable[128] = bindSymbol(co, intern("error"));
+__symbolTable[129] = bindSymbol(co, intern("cond"));
+__symbolTable[130] = bindSymbol(co, intern("let"));
+__symbolTable[131] = bindSymbol(co, intern("cora/init#rewrite-let"));
+__symbolTable[132] = bindSymbol(co, intern("atom?"));
+__symbolTable[133] = bindSymbol(co, intern("elem?"));
+__symbolTable[134] = bindSymbol(co, intern("def"));
+__symbolTable[135] = bindSymbol(co, intern("defun"));
+__symbolTable[136] = bindSymbol(co, intern("list"));
+__symbolTable[137] = bindSymbol(co, intern("defmacro"));
+__symbolTable[138] = bindSymbol(co, intern("defmacro-macro"));
+__symbolTable[139] = bindSymbol(co, intern("macroexpand"));
+__symbolTable[140] = bindSymbol(co, intern("quote"));
+__symbolTable[141] = bindSymbol(co, intern("lambda"));
+__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
+__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1"));
+__symbolTable[144] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
+__symbolTable[145] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
+__symbolTable[146] = bindSymbol(co, intern("*protect-symbol*"));
+__symbolTable[147] = bindSymbol(co, intern("*macros*"));
+__symbolTable[148] = bindSymbol(co, intern("map"));
+__symbolTable[149] = bindSymbol(co, intern("map-h"));
+__symbolTable[150] = bindSymbol(co, intern("reverse"));
+__symbolTable[151] = bindSymbol(co, intern("cora/init#reverse-h"));
+__symbolTable[152] = bindSymbol(co, intern("pair?"));
+__symbolTable[153] = bindSymbol(co, intern("cons"));
+__symbolTable[154] = bindSymbol(co, intern("rcons"));
+__symbolTable[155] = bindSymbol(co, intern("cdddr"));
+__symbolTable[156] = bindSymbol(co, intern("cadddr"));
+__symbolTable[157] = bindSymbol(co, intern("caddr"));
+__symbolTable[158] = bindSymbol(co, intern("cddr"));
+__symbolTable[159] = bindSymbol(co, intern("cdar"));
+__symbolTable[160] = bindSymbol(co, intern("caar"));
+__symbolTable[161] = bindSymbol(co, intern("cadr"));
+__symbolTable[162] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
 co->ctx.fn = clofun95;
 co->ctx.label = 0;
@@ -274,317 +275,321 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512466_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512469_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512472_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512475_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512478_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512482_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512487_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512491_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512499_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512501_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512506_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3512476_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3512479_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3512482_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3512485_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3512488_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3512492_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3512497_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3512501_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3512509_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3512511_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3512516_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj _3512986_37= co->res;
-Obj _3512992_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513004_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513005_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513006_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513005_37);
-Obj _3513007_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513006_37);
-Obj _3513008_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513009_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513008_37);
-Obj _3513010_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513009_37);
-Obj _3513011_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513012_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513011_37);
-Obj _3513013_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513012_37);
-Obj _3513014_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513015_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513014_37);
-Obj _3513016_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513015_37);
-Obj _3513017_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513018_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513017_37);
-Obj _3513019_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513018_37);
-Obj _3513020_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513021_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513020_37);
-Obj _3513022_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513021_37);
-Obj _3513023_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513024_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513023_37);
-Obj _3513025_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513024_37);
-Obj _3513026_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513027_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513026_37);
-Obj _3513028_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513027_37);
-Obj _3513029_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513030_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513029_37);
-Obj _3513031_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513030_37);
-Obj _3513032_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513033_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513032_37);
-Obj _3513034_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513033_37);
-Obj _3513035_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513036_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513035_37);
-Obj _3513037_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513036_37);
-Obj _3513038_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513039_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513038_37);
-Obj _3513040_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513039_37);
-Obj _3513041_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513042_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513041_37);
-Obj _3513043_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513042_37);
-Obj _3513044_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513045_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513044_37);
-Obj _3513046_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513045_37);
-Obj _3513047_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513048_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513047_37);
-Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513048_37);
-Obj _3513050_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513051_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513054_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, _3513055_37, Nil);
-Obj _3513057_37 = makeCons(co->gc, _3513052_37, _3513056_37);
-Obj _3513058_37 = makeCons(co->gc, _3513049_37, _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, _3513046_37, _3513058_37);
-Obj _3513060_37 = makeCons(co->gc, _3513043_37, _3513059_37);
-Obj _3513061_37 = makeCons(co->gc, _3513040_37, _3513060_37);
-Obj _3513062_37 = makeCons(co->gc, _3513037_37, _3513061_37);
-Obj _3513063_37 = makeCons(co->gc, _3513034_37, _3513062_37);
-Obj _3513064_37 = makeCons(co->gc, _3513031_37, _3513063_37);
-Obj _3513065_37 = makeCons(co->gc, _3513028_37, _3513064_37);
-Obj _3513066_37 = makeCons(co->gc, _3513025_37, _3513065_37);
-Obj _3513067_37 = makeCons(co->gc, _3513022_37, _3513066_37);
-Obj _3513068_37 = makeCons(co->gc, _3513019_37, _3513067_37);
-Obj _3513069_37 = makeCons(co->gc, _3513016_37, _3513068_37);
-Obj _3513070_37 = makeCons(co->gc, _3513013_37, _3513069_37);
-Obj _3513071_37 = makeCons(co->gc, _3513010_37, _3513070_37);
-Obj _3513072_37 = makeCons(co->gc, _3513007_37, _3513071_37);
-Obj _3513073_37 = primSet(co, getBinding(co, packageID, 69).name, _3513072_37);
-Obj _3513088_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513092_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513270_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513271_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513272_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513271_37);
-Obj _3513273_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513272_37);
-Obj _3513274_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513273_37);
-Obj _3513275_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513274_37);
-Obj _3513276_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513275_37);
-Obj _3513277_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513276_37);
-Obj _3513278_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513277_37);
-Obj _3513279_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513278_37);
-Obj _3513280_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513279_37);
-Obj _3513281_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513280_37);
-Obj _3513282_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513281_37);
-Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513282_37);
-Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513283_37);
-Obj _3513285_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513284_37);
-Obj _3513286_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513285_37);
-Obj _3513287_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513286_37);
-Obj _3513288_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513287_37);
-Obj _3513289_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513288_37);
-Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513289_37);
-Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513291_37);
-Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513294_37);
-Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513295_37);
-Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513296_37);
-Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513297_37);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513298_37);
-Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513300_37);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513301_37);
-Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513302_37);
-Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513304_37);
-Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513305_37);
-Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513307_37);
-Obj _3513309_37 = primSet(co, getBinding(co, packageID, 53).name, _3513308_37);
-Obj _3513310_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513311_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513312_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513313_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513314_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513315_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513316_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513317_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513318_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513319_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513320_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513321_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513322_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513323_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513324_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513326_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513327_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513328_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513329_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513330_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513331_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513332_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513333_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513334_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513335_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513336_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513337_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513338_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513339_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513341_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513342_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513345_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513346_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513348_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513348_37);
+Obj _3512997_37= co->res;
+Obj _3513003_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513015_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513016_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513017_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513016_37);
+Obj _3513018_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513017_37);
+Obj _3513019_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513020_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513019_37);
+Obj _3513021_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513020_37);
+Obj _3513022_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3513023_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513022_37);
+Obj _3513024_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513023_37);
+Obj _3513025_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513026_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513025_37);
+Obj _3513027_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513026_37);
+Obj _3513028_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513029_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513028_37);
+Obj _3513030_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3513029_37);
+Obj _3513031_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513032_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513031_37);
+Obj _3513033_37 = makeCons(co->gc, getBinding(co, packageID, 69).name, _3513032_37);
+Obj _3513034_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513035_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513034_37);
+Obj _3513036_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513035_37);
+Obj _3513037_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513038_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513037_37);
+Obj _3513039_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513038_37);
+Obj _3513040_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513041_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513040_37);
+Obj _3513042_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513041_37);
+Obj _3513043_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513044_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513043_37);
+Obj _3513045_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513044_37);
+Obj _3513046_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513047_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513046_37);
+Obj _3513048_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513047_37);
+Obj _3513049_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3513050_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513049_37);
+Obj _3513051_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513050_37);
+Obj _3513052_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513053_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513052_37);
+Obj _3513054_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513053_37);
+Obj _3513055_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513056_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513055_37);
+Obj _3513057_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513056_37);
+Obj _3513058_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513059_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513058_37);
+Obj _3513060_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513059_37);
+Obj _3513061_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513062_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513061_37);
+Obj _3513063_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513062_37);
+Obj _3513064_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3513065_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513064_37);
+Obj _3513066_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513065_37);
+Obj _3513067_37 = makeCons(co->gc, _3513066_37, Nil);
+Obj _3513068_37 = makeCons(co->gc, _3513063_37, _3513067_37);
+Obj _3513069_37 = makeCons(co->gc, _3513060_37, _3513068_37);
+Obj _3513070_37 = makeCons(co->gc, _3513057_37, _3513069_37);
+Obj _3513071_37 = makeCons(co->gc, _3513054_37, _3513070_37);
+Obj _3513072_37 = makeCons(co->gc, _3513051_37, _3513071_37);
+Obj _3513073_37 = makeCons(co->gc, _3513048_37, _3513072_37);
+Obj _3513074_37 = makeCons(co->gc, _3513045_37, _3513073_37);
+Obj _3513075_37 = makeCons(co->gc, _3513042_37, _3513074_37);
+Obj _3513076_37 = makeCons(co->gc, _3513039_37, _3513075_37);
+Obj _3513077_37 = makeCons(co->gc, _3513036_37, _3513076_37);
+Obj _3513078_37 = makeCons(co->gc, _3513033_37, _3513077_37);
+Obj _3513079_37 = makeCons(co->gc, _3513030_37, _3513078_37);
+Obj _3513080_37 = makeCons(co->gc, _3513027_37, _3513079_37);
+Obj _3513081_37 = makeCons(co->gc, _3513024_37, _3513080_37);
+Obj _3513082_37 = makeCons(co->gc, _3513021_37, _3513081_37);
+Obj _3513083_37 = makeCons(co->gc, _3513018_37, _3513082_37);
+Obj _3513084_37 = primSet(co, getBinding(co, packageID, 71).name, _3513083_37);
+Obj _3513099_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513103_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3513281_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3513282_37 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
+Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513282_37);
+Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 103).name, _3513283_37);
+Obj _3513285_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513284_37);
+Obj _3513286_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513285_37);
+Obj _3513287_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, _3513286_37);
+Obj _3513288_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, _3513287_37);
+Obj _3513289_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513288_37);
+Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513289_37);
+Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513290_37);
+Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513291_37);
+Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513292_37);
+Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3513293_37);
+Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513294_37);
+Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513295_37);
+Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513296_37);
+Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513297_37);
+Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513298_37);
+Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513299_37);
+Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513300_37);
+Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513301_37);
+Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513302_37);
+Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513303_37);
+Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 53).name, _3513304_37);
+Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513305_37);
+Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513306_37);
+Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, _3513307_37);
+Obj _3513309_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3513308_37);
+Obj _3513310_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, _3513309_37);
+Obj _3513311_37 = makeCons(co->gc, getBinding(co, packageID, 56).name, _3513310_37);
+Obj _3513312_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, _3513311_37);
+Obj _3513313_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513312_37);
+Obj _3513314_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513313_37);
+Obj _3513315_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513314_37);
+Obj _3513316_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513315_37);
+Obj _3513317_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513316_37);
+Obj _3513318_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513317_37);
+Obj _3513319_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513318_37);
+Obj _3513320_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513319_37);
+Obj _3513321_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513320_37);
+Obj _3513322_37 = primSet(co, getBinding(co, packageID, 55).name, _3513321_37);
+Obj _3513323_37 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3513324_37 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3513325_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3513326_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3513327_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3513328_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3513329_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3513330_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj _3513331_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3513332_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj _3513333_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj _3513334_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
+Obj _3513335_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
+Obj _3513336_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
+Obj _3513337_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3513338_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3513339_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
+Obj _3513340_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3513341_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3513342_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3513343_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3513344_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3513345_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3513346_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3513347_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3513348_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3513349_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3513350_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3513351_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
+Obj _3513352_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3513353_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3513354_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
+Obj _3513355_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
+Obj _3513356_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj _3513357_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj _3513358_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj _3513359_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj _3513360_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
+Obj _3513361_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3513362_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
+Obj _3513363_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
+coraReturn(co, _3513363_37);
 return;
 }
 case 2:
 {
-Obj _3512936_37= co->res;
-Obj _3512965_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3512966_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3512947_37= co->res;
+Obj _3512976_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3512977_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512919_37= co->res;
-Obj _3512933_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3512930_37= co->res;
+Obj _3512944_37 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512897_37= co->res;
-Obj _3512917_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3512908_37= co->res;
+Obj _3512928_37 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512866_37= co->res;
-Obj _3512867_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512868_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512871_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512895_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3512877_37= co->res;
+Obj _3512878_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3512879_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3512882_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3512906_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512758_37= co->res;
-Obj _3512810_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512811_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512816_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512820_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512821_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512829_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512830_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512836_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512847_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512853_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3512769_37= co->res;
+Obj _3512821_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3512822_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3512827_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3512831_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3512832_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3512840_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3512841_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3512847_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3512858_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3512864_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 97).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512653_37= co->res;
-Obj _3512675_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512708_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512721_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512743_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512757_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3512663_37= co->res;
+Obj _3512685_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3512719_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3512732_37 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3512754_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3512768_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512638_37= co->res;
-Obj _3512641_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512651_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3512648_37= co->res;
+Obj _3512651_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3512661_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512624_37= co->res;
-Obj _3512636_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3512634_37= co->res;
+Obj _3512646_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512610_37= co->res;
-Obj _3512622_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3512620_37= co->res;
+Obj _3512632_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512596_37= co->res;
+Obj _3512606_37= co->res;
 saveCont(co, clofun95, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512574_37= co->res;
-Obj _3512579_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512582_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512594_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3512584_37= co->res;
+Obj _3512589_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3512592_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3512604_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512564_37= co->res;
+Obj _3512574_37= co->res;
 saveCont(co, clofun95, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512562_37= co->res;
+Obj _3512572_37= co->res;
 saveCont(co, clofun95, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512507_37= co->res;
-Obj _3512508_37 = primSet(co, getBinding(co, packageID, 149).name, _3512507_37);
-Obj _3512514_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512515_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512516_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512517_37 = primGenSym(co);
-Obj _3512518_37 = primSet(co, getBinding(co, packageID, 145).name, _3512517_37);
-Obj _3512522_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512531_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512532_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512549_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512550_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512561_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3512517_37= co->res;
+Obj _3512518_37 = primSet(co, getBinding(co, packageID, 150).name, _3512517_37);
+Obj _3512524_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3512525_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3512526_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj _3512527_37 = primGenSym(co);
+Obj _3512528_37 = primSet(co, getBinding(co, packageID, 146).name, _3512527_37);
+Obj _3512532_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3512541_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3512542_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3512559_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3512560_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj _3512571_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
 }
 }
@@ -594,67 +599,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512437_37 = R[1];
-Obj _3512438_37 = R[2];
-Obj _3512439_37 = R[3];
-Obj _3512440_37 = R[4];
-Obj _3512461_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512437_37, _3512438_37, _3512439_37, _3512440_37);
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+Obj _3512447_37 = R[1];
+Obj _3512448_37 = R[2];
+Obj _3512449_37 = R[3];
+Obj _3512450_37 = R[4];
+Obj _3512471_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512447_37, _3512448_37, _3512449_37, _3512450_37);
+R[1] = _3512450_37;
+R[2] = _3512471_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), _3512450_37);
 return;
 }
 case 1:
 {
-Obj _3513269_37= co->res;
-Obj _3512461_37 = R[1];
-if (True == _3513269_37) {
+Obj _3513280_37= co->res;
+Obj _3512471_37 = R[1];
+if (True == _3513280_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512471_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, False);
+coraCall1(co, _3512471_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513268_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513268_37) {
+Obj _3513279_37= co->res;
+Obj _3512450_37 = R[1];
+Obj _3512471_37 = R[2];
+if (True == _3513279_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512471_37, True);
 return;
 } else {
-R[1] = _3512461_37;
+R[1] = _3512471_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512450_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513266_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513266_37) {
+Obj _3513277_37= co->res;
+Obj _3512450_37 = R[1];
+Obj _3512471_37 = R[2];
+if (True == _3513277_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512471_37, True);
 return;
 } else {
-Obj _3513267_37 = primIsString(_3512440_37);
-if (True == _3513267_37) {
+Obj _3513278_37 = primIsString(_3512450_37);
+if (True == _3513278_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512471_37, True);
 return;
 } else {
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+R[1] = _3512450_37;
+R[2] = _3512471_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), _3512450_37);
 return;
 }
 }
@@ -666,49 +671,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512462_37 = R[1];
-if (True == _3512462_37) {
+Obj _3512472_37 = R[1];
+if (True == _3512472_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512442_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513254_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513254_37) {
-Obj _3513255_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513256_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513255_37);
-if (True == _3513256_37) {
-Obj _3513257_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513258_37 = PRIM_ISCONS(_3513257_37);
-if (True == _3513258_37) {
-Obj _3513259_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513260_37 = PRIM_CAR(_3513259_37);
-Obj x = _3513260_37;
-Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513262_37 = PRIM_CDR(_3513261_37);
-Obj _3513263_37 = PRIM_EQ(Nil, _3513262_37);
-if (True == _3513263_37) {
-Obj _3513264_37 = makeCons(co->gc, x, Nil);
-Obj _3513265_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513264_37);
-coraReturn(co, _3513265_37);
+Obj _3512452_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513265_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3513265_37) {
+Obj _3513266_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3513267_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513266_37);
+if (True == _3513267_37) {
+Obj _3513268_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513269_37 = PRIM_ISCONS(_3513268_37);
+if (True == _3513269_37) {
+Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513271_37 = PRIM_CAR(_3513270_37);
+Obj x = _3513271_37;
+Obj _3513272_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513273_37 = PRIM_CDR(_3513272_37);
+Obj _3513274_37 = PRIM_EQ(Nil, _3513273_37);
+if (True == _3513274_37) {
+Obj _3513275_37 = makeCons(co->gc, x, Nil);
+Obj _3513276_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513275_37);
+coraReturn(co, _3513276_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512452_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512452_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512452_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512452_37);
 return;
 }
 }
@@ -720,111 +725,111 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513093_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513093_37) {
+Obj _3513104_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513104_37) {
 saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj _3512444_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513232_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513232_37) {
-Obj _3513233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513234_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513233_37);
-if (True == _3513234_37) {
-Obj _3513235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513236_37 = PRIM_ISCONS(_3513235_37);
-if (True == _3513236_37) {
-Obj _3513237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513238_37 = PRIM_CAR(_3513237_37);
-Obj args = _3513238_37;
-Obj _3513239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_ISCONS(_3513240_37);
-if (True == _3513241_37) {
-Obj _3513242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513243_37 = PRIM_CDR(_3513242_37);
-Obj _3513244_37 = PRIM_CAR(_3513243_37);
-Obj body = _3513244_37;
-Obj _3513245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513246_37 = PRIM_CDR(_3513245_37);
-Obj _3513247_37 = PRIM_CDR(_3513246_37);
-Obj _3513248_37 = PRIM_EQ(Nil, _3513247_37);
-if (True == _3513248_37) {
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj _3512454_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513243_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513243_37) {
+Obj _3513244_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513245_37 = PRIM_EQ(getBinding(co, packageID, 141).name, _3513244_37);
+if (True == _3513245_37) {
+Obj _3513246_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513247_37 = PRIM_ISCONS(_3513246_37);
+if (True == _3513247_37) {
+Obj _3513248_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513249_37 = PRIM_CAR(_3513248_37);
+Obj args = _3513249_37;
+Obj _3513250_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513251_37 = PRIM_CDR(_3513250_37);
+Obj _3513252_37 = PRIM_ISCONS(_3513251_37);
+if (True == _3513252_37) {
+Obj _3513253_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513254_37 = PRIM_CDR(_3513253_37);
+Obj _3513255_37 = PRIM_CAR(_3513254_37);
+Obj body = _3513255_37;
+Obj _3513256_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513257_37 = PRIM_CDR(_3513256_37);
+Obj _3513258_37 = PRIM_CDR(_3513257_37);
+Obj _3513259_37 = PRIM_EQ(Nil, _3513258_37);
+if (True == _3513259_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), args, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512454_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512454_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512454_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512454_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512454_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513095_37= co->res;
-if (True == _3513095_37) {
+Obj _3513106_37= co->res;
+if (True == _3513106_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
 case 2:
 {
-Obj _3513094_37= co->res;
-if (True == _3513094_37) {
+Obj _3513105_37= co->res;
+if (True == _3513105_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
 saveCont(co, clofun92, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 55)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), closureRef(R[0], 0));
 return;
 }
 }
 case 3:
 {
-Obj _3513250_37= co->res;
+Obj _3513261_37= co->res;
 Obj args = R[1];
-Obj _3513251_37 = makeCons(co->gc, _3513250_37, Nil);
-Obj _3513252_37 = makeCons(co->gc, args, _3513251_37);
-Obj _3513253_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513252_37);
-coraReturn(co, _3513253_37);
+Obj _3513262_37 = makeCons(co->gc, _3513261_37, Nil);
+Obj _3513263_37 = makeCons(co->gc, args, _3513262_37);
+Obj _3513264_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513263_37);
+coraReturn(co, _3513264_37);
 return;
 }
 case 4:
 {
-Obj _3513249_37= co->res;
+Obj _3513260_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513249_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3513260_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
 return;
 }
 }
@@ -834,132 +839,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512445_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513188_37) {
-Obj _3513189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513190_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513189_37);
-if (True == _3513190_37) {
-Obj _3513191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513192_37 = PRIM_ISCONS(_3513191_37);
-if (True == _3513192_37) {
-Obj _3513193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513194_37 = PRIM_CAR(_3513193_37);
-Obj _3513195_37 = PRIM_ISCONS(_3513194_37);
-if (True == _3513195_37) {
-Obj _3513196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513197_37 = PRIM_CAR(_3513196_37);
-Obj _3513198_37 = PRIM_CAR(_3513197_37);
-Obj _3513199_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513198_37);
+Obj _3512455_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513199_37 = PRIM_ISCONS(closureRef(R[0], 0));
 if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513201_37 = PRIM_CAR(_3513200_37);
-Obj _3513202_37 = PRIM_CDR(_3513201_37);
+Obj _3513200_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513201_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3513200_37);
+if (True == _3513201_37) {
+Obj _3513202_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513203_37 = PRIM_ISCONS(_3513202_37);
 if (True == _3513203_37) {
 Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513205_37 = PRIM_CAR(_3513204_37);
-Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_CAR(_3513206_37);
-Obj pkg = _3513207_37;
-Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513206_37 = PRIM_ISCONS(_3513205_37);
+if (True == _3513206_37) {
+Obj _3513207_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513208_37 = PRIM_CAR(_3513207_37);
 Obj _3513209_37 = PRIM_CAR(_3513208_37);
-Obj _3513210_37 = PRIM_CDR(_3513209_37);
-Obj _3513211_37 = PRIM_CDR(_3513210_37);
-Obj _3513212_37 = PRIM_EQ(Nil, _3513211_37);
-if (True == _3513212_37) {
-Obj _3513213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513214_37 = PRIM_CDR(_3513213_37);
-Obj _3513215_37 = PRIM_ISCONS(_3513214_37);
-if (True == _3513215_37) {
-Obj _3513216_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513210_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3513209_37);
+if (True == _3513210_37) {
+Obj _3513211_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513212_37 = PRIM_CAR(_3513211_37);
+Obj _3513213_37 = PRIM_CDR(_3513212_37);
+Obj _3513214_37 = PRIM_ISCONS(_3513213_37);
+if (True == _3513214_37) {
+Obj _3513215_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513216_37 = PRIM_CAR(_3513215_37);
 Obj _3513217_37 = PRIM_CDR(_3513216_37);
 Obj _3513218_37 = PRIM_CAR(_3513217_37);
-Obj y = _3513218_37;
+Obj pkg = _3513218_37;
 Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513220_37 = PRIM_CDR(_3513219_37);
+Obj _3513220_37 = PRIM_CAR(_3513219_37);
 Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_EQ(Nil, _3513221_37);
-if (True == _3513222_37) {
-Obj _3513223_37 = primIsString(pkg);
+Obj _3513222_37 = PRIM_CDR(_3513221_37);
+Obj _3513223_37 = PRIM_EQ(Nil, _3513222_37);
 if (True == _3513223_37) {
-Obj _3513224_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513225_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513224_37);
+Obj _3513224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513225_37 = PRIM_CDR(_3513224_37);
+Obj _3513226_37 = PRIM_ISCONS(_3513225_37);
+if (True == _3513226_37) {
+Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513228_37 = PRIM_CDR(_3513227_37);
+Obj _3513229_37 = PRIM_CAR(_3513228_37);
+Obj y = _3513229_37;
+Obj _3513230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513231_37 = PRIM_CDR(_3513230_37);
+Obj _3513232_37 = PRIM_CDR(_3513231_37);
+Obj _3513233_37 = PRIM_EQ(Nil, _3513232_37);
+if (True == _3513233_37) {
+Obj _3513234_37 = primIsString(pkg);
+if (True == _3513234_37) {
+Obj _3513235_37 = makeCons(co->gc, pkg, Nil);
+Obj _3513236_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3513235_37);
 R[1] = pkg;
 R[2] = y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513225_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513236_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512455_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513228_37= co->res;
-Obj _3513226_37 = R[1];
-Obj _3513229_37 = makeCons(co->gc, _3513228_37, Nil);
-Obj _3513230_37 = makeCons(co->gc, _3513226_37, _3513229_37);
-Obj _3513231_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513230_37);
-coraReturn(co, _3513231_37);
+Obj _3513239_37= co->res;
+Obj _3513237_37 = R[1];
+Obj _3513240_37 = makeCons(co->gc, _3513239_37, Nil);
+Obj _3513241_37 = makeCons(co->gc, _3513237_37, _3513240_37);
+Obj _3513242_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3513241_37);
+coraReturn(co, _3513242_37);
 return;
 }
 case 2:
 {
-Obj _3513226_37= co->res;
+Obj _3513237_37= co->res;
 Obj pkg = R[1];
 Obj y = R[2];
-Obj _3513227_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513226_37;
+Obj _3513238_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
+R[1] = _3513237_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513227_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), _3513238_37, y);
 return;
 }
 }
@@ -969,34 +974,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512446_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513180_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513180_37) {
-Obj _3513181_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513181_37;
-Obj _3513182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513182_37;
-Obj _3512463_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512446_37);
-Obj _3513186_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513186_37) {
+Obj _3512456_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513191_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513191_37) {
+Obj _3513192_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3513192_37;
+Obj _3513193_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3513193_37;
+Obj _3512473_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512456_37);
+Obj _3513197_37 = PRIM_EQ(op, getBinding(co, packageID, 127).name);
+if (True == _3513197_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3512473_37, True);
 return;
 } else {
-Obj _3513187_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513187_37) {
+Obj _3513198_37 = PRIM_EQ(op, getBinding(co, packageID, 92).name);
+if (True == _3513198_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3512473_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, False);
+coraCall1(co, _3512473_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512446_37);
+coraCall0(co, _3512456_37);
 return;
 }
 }
@@ -1007,10 +1012,10 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512464_37 = R[1];
-if (True == _3512464_37) {
+Obj _3512474_37 = R[1];
+if (True == _3512474_37) {
 saveCont(co, clofun89, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1020,16 +1025,16 @@ return;
 }
 case 1:
 {
-Obj _3513184_37= co->res;
-Obj _3513185_37 = makeCons(co->gc, closureRef(R[0], 0), _3513184_37);
-coraReturn(co, _3513185_37);
+Obj _3513195_37= co->res;
+Obj _3513196_37 = makeCons(co->gc, closureRef(R[0], 0), _3513195_37);
+coraReturn(co, _3513196_37);
 return;
 }
 case 2:
 {
-Obj _3513183_37= co->res;
+Obj _3513194_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513183_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513194_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1039,100 +1044,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512447_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513147_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513147_37) {
-Obj _3513148_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513149_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513148_37);
-if (True == _3513149_37) {
-Obj _3513150_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513151_37 = PRIM_ISCONS(_3513150_37);
-if (True == _3513151_37) {
-Obj _3513152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513153_37 = PRIM_CAR(_3513152_37);
-Obj a = _3513153_37;
-Obj _3513154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513155_37 = PRIM_CDR(_3513154_37);
-Obj _3513156_37 = PRIM_ISCONS(_3513155_37);
-if (True == _3513156_37) {
-Obj _3513157_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj _3513159_37 = PRIM_CAR(_3513158_37);
-Obj b = _3513159_37;
-Obj _3513160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513161_37 = PRIM_CDR(_3513160_37);
-Obj _3513162_37 = PRIM_CDR(_3513161_37);
-Obj _3513163_37 = PRIM_ISCONS(_3513162_37);
-if (True == _3513163_37) {
-Obj _3513164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513165_37 = PRIM_CDR(_3513164_37);
+Obj _3512457_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513158_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513158_37) {
+Obj _3513159_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513160_37 = PRIM_EQ(getBinding(co, packageID, 130).name, _3513159_37);
+if (True == _3513160_37) {
+Obj _3513161_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513162_37 = PRIM_ISCONS(_3513161_37);
+if (True == _3513162_37) {
+Obj _3513163_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513164_37 = PRIM_CAR(_3513163_37);
+Obj a = _3513164_37;
+Obj _3513165_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513166_37 = PRIM_CDR(_3513165_37);
-Obj _3513167_37 = PRIM_CAR(_3513166_37);
-Obj c = _3513167_37;
+Obj _3513167_37 = PRIM_ISCONS(_3513166_37);
+if (True == _3513167_37) {
 Obj _3513168_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj _3513169_37 = PRIM_CDR(_3513168_37);
-Obj _3513170_37 = PRIM_CDR(_3513169_37);
-Obj _3513171_37 = PRIM_CDR(_3513170_37);
-Obj _3513172_37 = PRIM_EQ(Nil, _3513171_37);
-if (True == _3513172_37) {
+Obj _3513170_37 = PRIM_CAR(_3513169_37);
+Obj b = _3513170_37;
+Obj _3513171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513172_37 = PRIM_CDR(_3513171_37);
+Obj _3513173_37 = PRIM_CDR(_3513172_37);
+Obj _3513174_37 = PRIM_ISCONS(_3513173_37);
+if (True == _3513174_37) {
+Obj _3513175_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513176_37 = PRIM_CDR(_3513175_37);
+Obj _3513177_37 = PRIM_CDR(_3513176_37);
+Obj _3513178_37 = PRIM_CAR(_3513177_37);
+Obj c = _3513178_37;
+Obj _3513179_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513180_37 = PRIM_CDR(_3513179_37);
+Obj _3513181_37 = PRIM_CDR(_3513180_37);
+Obj _3513182_37 = PRIM_CDR(_3513181_37);
+Obj _3513183_37 = PRIM_EQ(Nil, _3513182_37);
+if (True == _3513183_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), b);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512457_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512457_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512457_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512457_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512457_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512457_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513175_37= co->res;
-Obj _3513173_37 = R[1];
+Obj _3513186_37= co->res;
+Obj _3513184_37 = R[1];
 Obj a = R[2];
-Obj _3513176_37 = makeCons(co->gc, _3513175_37, Nil);
-Obj _3513177_37 = makeCons(co->gc, _3513173_37, _3513176_37);
-Obj _3513178_37 = makeCons(co->gc, a, _3513177_37);
-Obj _3513179_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513178_37);
-coraReturn(co, _3513179_37);
+Obj _3513187_37 = makeCons(co->gc, _3513186_37, Nil);
+Obj _3513188_37 = makeCons(co->gc, _3513184_37, _3513187_37);
+Obj _3513189_37 = makeCons(co->gc, a, _3513188_37);
+Obj _3513190_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513189_37);
+coraReturn(co, _3513190_37);
 return;
 }
 case 2:
 {
-Obj _3513173_37= co->res;
+Obj _3513184_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3513174_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513173_37;
+Obj _3513185_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3513184_37;
 R[2] = a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513174_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3513185_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
 return;
 }
 }
@@ -1142,73 +1147,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512448_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513121_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513121_37) {
-Obj _3513122_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513123_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513122_37);
-if (True == _3513123_37) {
-Obj _3513124_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513125_37 = PRIM_ISCONS(_3513124_37);
-if (True == _3513125_37) {
-Obj _3513126_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513127_37 = PRIM_CAR(_3513126_37);
-Obj path = _3513127_37;
-Obj _3513128_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513129_37 = PRIM_CDR(_3513128_37);
-Obj _3513130_37 = PRIM_ISCONS(_3513129_37);
-if (True == _3513130_37) {
-Obj _3513131_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513132_37 = PRIM_CDR(_3513131_37);
-Obj _3513133_37 = PRIM_CAR(_3513132_37);
-Obj import = _3513133_37;
-Obj _3513134_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513135_37 = PRIM_CDR(_3513134_37);
-Obj _3513136_37 = PRIM_CDR(_3513135_37);
-Obj _3513137_37 = PRIM_ISCONS(_3513136_37);
-if (True == _3513137_37) {
-Obj _3513138_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513139_37 = PRIM_CDR(_3513138_37);
+Obj _3512458_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513132_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513132_37) {
+Obj _3513133_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513134_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3513133_37);
+if (True == _3513134_37) {
+Obj _3513135_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513136_37 = PRIM_ISCONS(_3513135_37);
+if (True == _3513136_37) {
+Obj _3513137_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513138_37 = PRIM_CAR(_3513137_37);
+Obj path = _3513138_37;
+Obj _3513139_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3513140_37 = PRIM_CDR(_3513139_37);
-Obj _3513141_37 = PRIM_CAR(_3513140_37);
-Obj body = _3513141_37;
+Obj _3513141_37 = PRIM_ISCONS(_3513140_37);
+if (True == _3513141_37) {
 Obj _3513142_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj _3513143_37 = PRIM_CDR(_3513142_37);
-Obj _3513144_37 = PRIM_CDR(_3513143_37);
-Obj _3513145_37 = PRIM_CDR(_3513144_37);
-Obj _3513146_37 = PRIM_EQ(Nil, _3513145_37);
-if (True == _3513146_37) {
+Obj _3513144_37 = PRIM_CAR(_3513143_37);
+Obj import = _3513144_37;
+Obj _3513145_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513146_37 = PRIM_CDR(_3513145_37);
+Obj _3513147_37 = PRIM_CDR(_3513146_37);
+Obj _3513148_37 = PRIM_ISCONS(_3513147_37);
+if (True == _3513148_37) {
+Obj _3513149_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513150_37 = PRIM_CDR(_3513149_37);
+Obj _3513151_37 = PRIM_CDR(_3513150_37);
+Obj _3513152_37 = PRIM_CAR(_3513151_37);
+Obj body = _3513152_37;
+Obj _3513153_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513154_37 = PRIM_CDR(_3513153_37);
+Obj _3513155_37 = PRIM_CDR(_3513154_37);
+Obj _3513156_37 = PRIM_CDR(_3513155_37);
+Obj _3513157_37 = PRIM_EQ(Nil, _3513156_37);
+if (True == _3513157_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), path, import, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512458_37);
 return;
 }
 }
@@ -1219,81 +1224,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512449_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513097_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513097_37) {
-Obj _3513098_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513099_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513098_37);
-if (True == _3513099_37) {
-Obj _3513100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513101_37 = PRIM_ISCONS(_3513100_37);
-if (True == _3513101_37) {
-Obj _3513102_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513103_37 = PRIM_CAR(_3513102_37);
-Obj var = _3513103_37;
-Obj _3513104_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513105_37 = PRIM_CDR(_3513104_37);
-Obj _3513106_37 = PRIM_ISCONS(_3513105_37);
-if (True == _3513106_37) {
-Obj _3513107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513108_37 = PRIM_CDR(_3513107_37);
-Obj _3513109_37 = PRIM_CAR(_3513108_37);
-Obj val = _3513109_37;
-Obj _3513110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513111_37 = PRIM_CDR(_3513110_37);
-Obj _3513112_37 = PRIM_CDR(_3513111_37);
-Obj _3513113_37 = PRIM_EQ(Nil, _3513112_37);
-if (True == _3513113_37) {
+Obj _3512459_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513108_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513108_37) {
+Obj _3513109_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513110_37 = PRIM_EQ(getBinding(co, packageID, 134).name, _3513109_37);
+if (True == _3513110_37) {
+Obj _3513111_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513112_37 = PRIM_ISCONS(_3513111_37);
+if (True == _3513112_37) {
+Obj _3513113_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513114_37 = PRIM_CAR(_3513113_37);
+Obj var = _3513114_37;
+Obj _3513115_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513116_37 = PRIM_CDR(_3513115_37);
+Obj _3513117_37 = PRIM_ISCONS(_3513116_37);
+if (True == _3513117_37) {
+Obj _3513118_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513119_37 = PRIM_CDR(_3513118_37);
+Obj _3513120_37 = PRIM_CAR(_3513119_37);
+Obj val = _3513120_37;
+Obj _3513121_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513122_37 = PRIM_CDR(_3513121_37);
+Obj _3513123_37 = PRIM_CDR(_3513122_37);
+Obj _3513124_37 = PRIM_EQ(Nil, _3513123_37);
+if (True == _3513124_37) {
 R[1] = val;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512459_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513117_37= co->res;
-Obj _3513116_37 = R[1];
-Obj _3513118_37 = makeCons(co->gc, _3513117_37, Nil);
-Obj _3513119_37 = makeCons(co->gc, _3513116_37, _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513119_37);
-coraReturn(co, _3513120_37);
+Obj _3513128_37= co->res;
+Obj _3513127_37 = R[1];
+Obj _3513129_37 = makeCons(co->gc, _3513128_37, Nil);
+Obj _3513130_37 = makeCons(co->gc, _3513127_37, _3513129_37);
+Obj _3513131_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513130_37);
+coraReturn(co, _3513131_37);
 return;
 }
 case 2:
 {
-Obj _3513114_37= co->res;
+Obj _3513125_37= co->res;
 Obj val = R[1];
-Obj var1 = _3513114_37;
-Obj _3513115_37 = makeCons(co->gc, var1, Nil);
-Obj _3513116_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513115_37);
-R[1] = _3513116_37;
+Obj var1 = _3513125_37;
+Obj _3513126_37 = makeCons(co->gc, var1, Nil);
+Obj _3513127_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513126_37);
+R[1] = _3513127_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
 return;
 }
 }
@@ -1304,14 +1309,14 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun85, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3513096_37= co->res;
+Obj _3513107_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513096_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513107_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1323,21 +1328,21 @@ case 0:
 {
 Obj x = R[1];
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), x, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), x, globalRef(co, getBinding(co, packageID, 71)));
 return;
 }
 case 1:
 {
-Obj _3513090_37= co->res;
-Obj _3513091_37 = primNot(_3513090_37);
-coraReturn(co, _3513091_37);
+Obj _3513101_37= co->res;
+Obj _3513102_37 = primNot(_3513101_37);
+coraReturn(co, _3513102_37);
 return;
 }
 case 2:
 {
-Obj _3513089_37= co->res;
+Obj _3513100_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513089_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513100_37);
 return;
 }
 }
@@ -1347,44 +1352,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512432_37 = R[1];
-Obj _3512433_37 = R[2];
-Obj _3513074_37 = PRIM_EQ(Nil, _3512433_37);
-if (True == _3513074_37) {
+Obj _3512442_37 = R[1];
+Obj _3512443_37 = R[2];
+Obj _3513085_37 = PRIM_EQ(Nil, _3512443_37);
+if (True == _3513085_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512435_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512433_37, _3512432_37);
-Obj _3513078_37 = PRIM_ISCONS(_3512433_37);
-if (True == _3513078_37) {
-Obj _3513079_37 = PRIM_CAR(_3512433_37);
-Obj _3513080_37 = PRIM_ISCONS(_3513079_37);
-if (True == _3513080_37) {
-Obj _3513081_37 = PRIM_CAR(_3512433_37);
-Obj _3513082_37 = PRIM_CAR(_3513081_37);
-Obj x = _3513082_37;
-Obj _3513083_37 = PRIM_CAR(_3512433_37);
-Obj _3513084_37 = PRIM_CDR(_3513083_37);
-Obj y = _3513084_37;
-Obj _3513085_37 = PRIM_CDR(_3512433_37);
-Obj _3513086_37 = PRIM_EQ(_3512432_37, x);
-if (True == _3513086_37) {
-Obj _3513087_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513087_37);
+Obj _3512445_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512443_37, _3512442_37);
+Obj _3513089_37 = PRIM_ISCONS(_3512443_37);
+if (True == _3513089_37) {
+Obj _3513090_37 = PRIM_CAR(_3512443_37);
+Obj _3513091_37 = PRIM_ISCONS(_3513090_37);
+if (True == _3513091_37) {
+Obj _3513092_37 = PRIM_CAR(_3512443_37);
+Obj _3513093_37 = PRIM_CAR(_3513092_37);
+Obj x = _3513093_37;
+Obj _3513094_37 = PRIM_CAR(_3512443_37);
+Obj _3513095_37 = PRIM_CDR(_3513094_37);
+Obj y = _3513095_37;
+Obj _3513096_37 = PRIM_CDR(_3512443_37);
+Obj _3513097_37 = PRIM_EQ(_3512442_37, x);
+if (True == _3513097_37) {
+Obj _3513098_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3513098_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512445_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512445_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512445_37);
 return;
 }
 }
@@ -1396,17 +1401,17 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513075_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513075_37) {
-Obj _3513076_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513077_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513077_37;
+Obj _3513086_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513086_37) {
+Obj _3513087_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513088_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3513088_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -1417,121 +1422,121 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512427_37 = R[1];
-Obj _3512428_37 = R[2];
-Obj _3512429_37 = R[3];
-Obj _3512993_37 = PRIM_EQ(Nil, _3512429_37);
-if (True == _3512993_37) {
+Obj _3512437_37 = R[1];
+Obj _3512438_37 = R[2];
+Obj _3512439_37 = R[3];
+Obj _3513004_37 = PRIM_EQ(Nil, _3512439_37);
+if (True == _3513004_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512427_37, _3512428_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), _3512437_37, _3512438_37);
 return;
 } else {
-Obj _3512994_37 = PRIM_ISCONS(_3512429_37);
-if (True == _3512994_37) {
-Obj _3512995_37 = PRIM_CAR(_3512429_37);
-Obj import = _3512995_37;
-Obj _3512996_37 = PRIM_CDR(_3512429_37);
-Obj more = _3512996_37;
+Obj _3513005_37 = PRIM_ISCONS(_3512439_37);
+if (True == _3513005_37) {
+Obj _3513006_37 = PRIM_CAR(_3512439_37);
+Obj import = _3513006_37;
+Obj _3513007_37 = PRIM_CDR(_3512439_37);
+Obj more = _3513007_37;
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512437_37;
+R[3] = _3512438_37;
 R[4] = more;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), import, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513003_37= co->res;
+Obj _3513014_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513003_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513014_37);
 return;
 }
 case 2:
 {
-Obj _3513002_37= co->res;
+Obj _3513013_37= co->res;
 Obj import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513002_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), import, _3513013_37);
 return;
 }
 case 3:
 {
-Obj _3513001_37= co->res;
+Obj _3513012_37= co->res;
 Obj import = R[1];
 R[1] = import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513001_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513012_37);
 return;
 }
 case 4:
 {
-Obj _3513000_37= co->res;
+Obj _3513011_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512437_37 = R[2];
+Obj _3512438_37 = R[3];
 Obj more = R[4];
-if (True == _3513000_37) {
+if (True == _3513011_37) {
 R[1] = import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512427_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512437_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512427_37, _3512428_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), _3512437_37, _3512438_37, more);
 return;
 }
 }
 case 5:
 {
-Obj _3512999_37= co->res;
+Obj _3513010_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512437_37 = R[2];
+Obj _3512438_37 = R[3];
 Obj more = R[4];
-Obj export = _3512999_37;
+Obj export = _3513010_37;
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512437_37;
+R[3] = _3512438_37;
 R[4] = more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512427_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), _3512437_37, export);
 return;
 }
 case 6:
 {
-Obj _3512998_37= co->res;
+Obj _3513009_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512437_37 = R[2];
+Obj _3512438_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512437_37;
+R[3] = _3512438_37;
 R[4] = more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3512998_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), _3513009_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3512997_37= co->res;
+Obj _3513008_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512437_37 = R[2];
+Obj _3512438_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512437_37;
+R[3] = _3512438_37;
 R[4] = more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512997_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513008_37);
 return;
 }
 }
@@ -1543,54 +1548,54 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3512987_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3512987_37) {
+Obj _3512998_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3512998_37) {
 coraReturn(co, var);
 return;
 } else {
 R[1] = var;
 R[2] = ns;
 saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), var);
 return;
 }
 }
 case 1:
 {
-Obj _3512991_37= co->res;
+Obj _3513002_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512991_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513002_37);
 return;
 }
 case 2:
 {
-Obj _3512990_37= co->res;
+Obj _3513001_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3512990_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), ns, _3513001_37);
 return;
 }
 case 3:
 {
-Obj _3512989_37= co->res;
+Obj _3513000_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3512989_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513000_37);
 return;
 }
 case 4:
 {
-Obj _3512988_37= co->res;
+Obj _3512999_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3512988_37) {
+if (True == _3512999_37) {
 coraReturn(co, var);
 return;
 } else {
 R[1] = ns;
 saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), var);
 return;
 }
 }
@@ -1604,34 +1609,34 @@ case 0:
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), sexp);
 return;
 }
 case 1:
 {
-Obj _3512969_37= co->res;
+Obj _3512980_37= co->res;
 Obj path = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3512969_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3512980_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
 return;
 }
 case 2:
 {
-Obj _3512968_37= co->res;
+Obj _3512979_37= co->res;
 Obj path = R[1];
 R[1] = path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3512968_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3512979_37);
 return;
 }
 case 3:
 {
-Obj _3512967_37= co->res;
+Obj _3512978_37= co->res;
 Obj sexp = R[1];
-Obj path = _3512967_37;
+Obj path = _3512978_37;
 R[1] = path;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), sexp);
 return;
 }
 }
@@ -1644,41 +1649,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3512970_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3512981_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3512970_37;
+R[3] = _3512981_37;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3512980_37= co->res;
-Obj _3512970_37 = R[1];
-Obj _3512981_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3512980_37);
-Obj _3512982_37 = makeCons(co->gc, _3512981_37, Nil);
-Obj _3512983_37 = makeCons(co->gc, _3512970_37, _3512982_37);
-Obj _3512984_37 = makeCons(co->gc, closureRef(R[0], 0), _3512983_37);
-Obj _3512985_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3512984_37);
-coraReturn(co, _3512985_37);
+Obj _3512991_37= co->res;
+Obj _3512981_37 = R[1];
+Obj _3512992_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3512991_37);
+Obj _3512993_37 = makeCons(co->gc, _3512992_37, Nil);
+Obj _3512994_37 = makeCons(co->gc, _3512981_37, _3512993_37);
+Obj _3512995_37 = makeCons(co->gc, closureRef(R[0], 0), _3512994_37);
+Obj _3512996_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3512995_37);
+coraReturn(co, _3512996_37);
 return;
 }
 case 2:
 {
-Obj _3512973_37= co->res;
+Obj _3512984_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3512970_37 = R[3];
-Obj _3512974_37 = makeCons(co->gc, export, Nil);
-Obj _3512975_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3512974_37);
-Obj _3512976_37 = makeCons(co->gc, _3512975_37, Nil);
-Obj _3512977_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3512976_37);
-Obj _3512978_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512977_37);
-Obj _3512979_37 = makeCons(co->gc, _3512978_37, body);
-R[1] = _3512970_37;
+Obj _3512981_37 = R[3];
+Obj _3512985_37 = makeCons(co->gc, export, Nil);
+Obj _3512986_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3512985_37);
+Obj _3512987_37 = makeCons(co->gc, _3512986_37, Nil);
+Obj _3512988_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, _3512987_37);
+Obj _3512989_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512988_37);
+Obj _3512990_37 = makeCons(co->gc, _3512989_37, body);
+R[1] = _3512981_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512973_37, _3512979_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3512984_37, _3512990_37);
 return;
 }
 }
@@ -1689,9 +1694,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3512971_37 = makeCons(co->gc, imp, Nil);
-Obj _3512972_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3512971_37);
-coraReturn(co, _3512972_37);
+Obj _3512982_37 = makeCons(co->gc, imp, Nil);
+Obj _3512983_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3512982_37);
+coraReturn(co, _3512983_37);
 return;
 }
 }
@@ -1704,7 +1709,7 @@ case 0:
 Obj data = R[1];
 Obj k = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), data, Nil, Nil, k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), data, Nil, Nil, k);
 return;
 }
 }
@@ -1714,62 +1719,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512420_37 = R[1];
-Obj _3512421_37 = R[2];
-Obj _3512422_37 = R[3];
-Obj _3512423_37 = R[4];
-Obj _3512424_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512422_37, _3512420_37, _3512421_37, _3512423_37);
-Obj _3512947_37 = PRIM_ISCONS(_3512420_37);
-if (True == _3512947_37) {
-Obj _3512948_37 = PRIM_CAR(_3512420_37);
-Obj _3512949_37 = PRIM_ISCONS(_3512948_37);
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(_3512420_37);
-Obj _3512951_37 = PRIM_CAR(_3512950_37);
-Obj _3512952_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3512951_37);
-if (True == _3512952_37) {
-Obj _3512953_37 = PRIM_CAR(_3512420_37);
-Obj _3512954_37 = PRIM_CDR(_3512953_37);
-Obj _3512955_37 = PRIM_ISCONS(_3512954_37);
-if (True == _3512955_37) {
-Obj _3512956_37 = PRIM_CAR(_3512420_37);
-Obj _3512957_37 = PRIM_CDR(_3512956_37);
-Obj _3512958_37 = PRIM_CAR(_3512957_37);
-Obj lib = _3512958_37;
-Obj _3512959_37 = PRIM_CAR(_3512420_37);
-Obj _3512960_37 = PRIM_CDR(_3512959_37);
-Obj _3512961_37 = PRIM_CDR(_3512960_37);
-Obj _3512962_37 = PRIM_EQ(Nil, _3512961_37);
-if (True == _3512962_37) {
-Obj _3512963_37 = PRIM_CDR(_3512420_37);
-Obj rest = _3512963_37;
-Obj _3512964_37 = makeCons(co->gc, lib, _3512421_37);
+Obj _3512430_37 = R[1];
+Obj _3512431_37 = R[2];
+Obj _3512432_37 = R[3];
+Obj _3512433_37 = R[4];
+Obj _3512434_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512432_37, _3512430_37, _3512431_37, _3512433_37);
+Obj _3512958_37 = PRIM_ISCONS(_3512430_37);
+if (True == _3512958_37) {
+Obj _3512959_37 = PRIM_CAR(_3512430_37);
+Obj _3512960_37 = PRIM_ISCONS(_3512959_37);
+if (True == _3512960_37) {
+Obj _3512961_37 = PRIM_CAR(_3512430_37);
+Obj _3512962_37 = PRIM_CAR(_3512961_37);
+Obj _3512963_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3512962_37);
+if (True == _3512963_37) {
+Obj _3512964_37 = PRIM_CAR(_3512430_37);
+Obj _3512965_37 = PRIM_CDR(_3512964_37);
+Obj _3512966_37 = PRIM_ISCONS(_3512965_37);
+if (True == _3512966_37) {
+Obj _3512967_37 = PRIM_CAR(_3512430_37);
+Obj _3512968_37 = PRIM_CDR(_3512967_37);
+Obj _3512969_37 = PRIM_CAR(_3512968_37);
+Obj lib = _3512969_37;
+Obj _3512970_37 = PRIM_CAR(_3512430_37);
+Obj _3512971_37 = PRIM_CDR(_3512970_37);
+Obj _3512972_37 = PRIM_CDR(_3512971_37);
+Obj _3512973_37 = PRIM_EQ(Nil, _3512972_37);
+if (True == _3512973_37) {
+Obj _3512974_37 = PRIM_CDR(_3512430_37);
+Obj rest = _3512974_37;
+Obj _3512975_37 = makeCons(co->gc, lib, _3512431_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3512964_37, _3512422_37, _3512423_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), rest, _3512975_37, _3512432_37, _3512433_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512434_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512434_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512434_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512434_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512434_37);
 return;
 }
 }
@@ -1780,37 +1785,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512425_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3512938_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512938_37) {
-Obj _3512939_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512940_37 = PRIM_ISCONS(_3512939_37);
-if (True == _3512940_37) {
-Obj _3512941_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512942_37 = PRIM_CAR(_3512941_37);
-Obj _3512943_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3512942_37);
-if (True == _3512943_37) {
-Obj _3512944_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512945_37 = PRIM_CDR(_3512944_37);
-Obj more = _3512945_37;
-Obj _3512946_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3512946_37;
+Obj _3512435_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3512949_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512949_37) {
+Obj _3512950_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512951_37 = PRIM_ISCONS(_3512950_37);
+if (True == _3512951_37) {
+Obj _3512952_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512953_37 = PRIM_CAR(_3512952_37);
+Obj _3512954_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3512953_37);
+if (True == _3512954_37) {
+Obj _3512955_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512956_37 = PRIM_CDR(_3512955_37);
+Obj more = _3512956_37;
+Obj _3512957_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj rest = _3512957_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512435_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512435_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512435_37);
 return;
 }
 }
@@ -1822,14 +1827,14 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj _3512937_37= co->res;
+Obj _3512948_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3512937_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3512948_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1842,24 +1847,24 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 1:
 {
-Obj _3512935_37= co->res;
-Obj _3512934_37 = R[1];
+Obj _3512946_37= co->res;
+Obj _3512945_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3512934_37, _3512935_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), _3512945_37, _3512946_37);
 return;
 }
 case 2:
 {
-Obj _3512934_37= co->res;
+Obj _3512945_37= co->res;
 Obj exp = R[1];
-R[1] = _3512934_37;
+R[1] = _3512945_37;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 }
@@ -1874,62 +1879,62 @@ Obj arglist = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), arglist);
 return;
 }
 case 1:
 {
-Obj _3512923_37= co->res;
-Obj _3512922_37 = R[1];
+Obj _3512934_37= co->res;
+Obj _3512933_37 = R[1];
 Obj fn = R[2];
-Obj _3512924_37 = makeCons(co->gc, _3512923_37, Nil);
-Obj _3512925_37 = makeCons(co->gc, _3512922_37, _3512924_37);
-Obj _3512926_37 = makeCons(co->gc, fn, _3512925_37);
-coraReturn(co, _3512926_37);
+Obj _3512935_37 = makeCons(co->gc, _3512934_37, Nil);
+Obj _3512936_37 = makeCons(co->gc, _3512933_37, _3512935_37);
+Obj _3512937_37 = makeCons(co->gc, fn, _3512936_37);
+coraReturn(co, _3512937_37);
 return;
 }
 case 2:
 {
-Obj _3512929_37= co->res;
-Obj _3512927_37 = R[1];
+Obj _3512940_37= co->res;
+Obj _3512938_37 = R[1];
 Obj fn = R[2];
-Obj _3512930_37 = makeCons(co->gc, _3512929_37, Nil);
-Obj _3512931_37 = makeCons(co->gc, _3512927_37, _3512930_37);
-Obj _3512932_37 = makeCons(co->gc, fn, _3512931_37);
-coraReturn(co, _3512932_37);
+Obj _3512941_37 = makeCons(co->gc, _3512940_37, Nil);
+Obj _3512942_37 = makeCons(co->gc, _3512938_37, _3512941_37);
+Obj _3512943_37 = makeCons(co->gc, fn, _3512942_37);
+coraReturn(co, _3512943_37);
 return;
 }
 case 3:
 {
-Obj _3512921_37= co->res;
+Obj _3512932_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512921_37) {
-Obj _3512922_37 = PRIM_CAR(arglist);
-R[1] = _3512922_37;
+if (True == _3512932_37) {
+Obj _3512933_37 = PRIM_CAR(arglist);
+R[1] = _3512933_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), arglist);
 return;
 } else {
-Obj _3512927_37 = PRIM_CAR(arglist);
-Obj _3512928_37 = PRIM_CDR(arglist);
-R[1] = _3512927_37;
+Obj _3512938_37 = PRIM_CAR(arglist);
+Obj _3512939_37 = PRIM_CDR(arglist);
+R[1] = _3512938_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512928_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), fn, _3512939_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512920_37= co->res;
+Obj _3512931_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512931_37);
 return;
 }
 }
@@ -1941,14 +1946,14 @@ case 0:
 {
 Obj exp = R[1];
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 1:
 {
-Obj _3512918_37= co->res;
+Obj _3512929_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), _3512929_37);
 return;
 }
 }
@@ -1958,50 +1963,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512415_37 = R[1];
-Obj _3512898_37 = primIsSymbol(_3512415_37);
-if (True == _3512898_37) {
-Obj _3512899_37 = makeCons(co->gc, _3512415_37, Nil);
-Obj _3512900_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512899_37);
-coraReturn(co, _3512900_37);
-return;
-} else {
-Obj _3512417_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512415_37);
-Obj _3512907_37 = PRIM_ISCONS(_3512415_37);
-if (True == _3512907_37) {
-Obj _3512908_37 = PRIM_CAR(_3512415_37);
-Obj _3512909_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512908_37);
+Obj _3512425_37 = R[1];
+Obj _3512909_37 = primIsSymbol(_3512425_37);
 if (True == _3512909_37) {
-Obj _3512910_37 = PRIM_CDR(_3512415_37);
-Obj _3512911_37 = PRIM_ISCONS(_3512910_37);
-if (True == _3512911_37) {
-Obj _3512912_37 = PRIM_CDR(_3512415_37);
-Obj _3512913_37 = PRIM_CAR(_3512912_37);
-Obj x = _3512913_37;
-Obj _3512914_37 = PRIM_CDR(_3512415_37);
-Obj _3512915_37 = PRIM_CDR(_3512914_37);
-Obj _3512916_37 = PRIM_EQ(Nil, _3512915_37);
-if (True == _3512916_37) {
+Obj _3512910_37 = makeCons(co->gc, _3512425_37, Nil);
+Obj _3512911_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512910_37);
+coraReturn(co, _3512911_37);
+return;
+} else {
+Obj _3512427_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512425_37);
+Obj _3512918_37 = PRIM_ISCONS(_3512425_37);
+if (True == _3512918_37) {
+Obj _3512919_37 = PRIM_CAR(_3512425_37);
+Obj _3512920_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3512919_37);
+if (True == _3512920_37) {
+Obj _3512921_37 = PRIM_CDR(_3512425_37);
+Obj _3512922_37 = PRIM_ISCONS(_3512921_37);
+if (True == _3512922_37) {
+Obj _3512923_37 = PRIM_CDR(_3512425_37);
+Obj _3512924_37 = PRIM_CAR(_3512923_37);
+Obj x = _3512924_37;
+Obj _3512925_37 = PRIM_CDR(_3512425_37);
+Obj _3512926_37 = PRIM_CDR(_3512925_37);
+Obj _3512927_37 = PRIM_EQ(Nil, _3512926_37);
+if (True == _3512927_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512427_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512427_37);
 return;
 }
 }
@@ -2013,15 +2018,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512901_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512901_37) {
-Obj _3512902_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512902_37;
-Obj _3512903_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512903_37;
-Obj _3512904_37 = makeCons(co->gc, x, more);
+Obj _3512912_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512912_37) {
+Obj _3512913_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512913_37;
+Obj _3512914_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3512914_37;
+Obj _3512915_37 = makeCons(co->gc, x, more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512904_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), _3512915_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2030,9 +2035,9 @@ return;
 }
 case 1:
 {
-Obj _3512905_37= co->res;
-Obj _3512906_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512905_37);
-coraReturn(co, _3512906_37);
+Obj _3512916_37= co->res;
+Obj _3512917_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3512916_37);
+coraReturn(co, _3512917_37);
 return;
 }
 }
@@ -2043,9 +2048,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512896_37 = PRIM_CDR(exp);
+Obj _3512907_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512896_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3512907_37);
 return;
 }
 }
@@ -2055,25 +2060,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512411_37 = R[1];
-Obj _3512412_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512411_37);
-Obj _3512891_37 = PRIM_ISCONS(_3512411_37);
-if (True == _3512891_37) {
-Obj _3512892_37 = PRIM_CAR(_3512411_37);
-Obj x = _3512892_37;
-Obj _3512893_37 = PRIM_CDR(_3512411_37);
-Obj _3512894_37 = PRIM_EQ(Nil, _3512893_37);
-if (True == _3512894_37) {
+Obj _3512421_37 = R[1];
+Obj _3512422_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512421_37);
+Obj _3512902_37 = PRIM_ISCONS(_3512421_37);
+if (True == _3512902_37) {
+Obj _3512903_37 = PRIM_CAR(_3512421_37);
+Obj x = _3512903_37;
+Obj _3512904_37 = PRIM_CDR(_3512421_37);
+Obj _3512905_37 = PRIM_EQ(Nil, _3512904_37);
+if (True == _3512905_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, _3512422_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, _3512422_37);
 return;
 }
 }
@@ -2084,39 +2089,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512413_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512879_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512879_37) {
-Obj _3512880_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512880_37;
-Obj _3512881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512882_37 = PRIM_ISCONS(_3512881_37);
-if (True == _3512882_37) {
-Obj _3512883_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512884_37 = PRIM_CAR(_3512883_37);
-Obj y = _3512884_37;
-Obj _3512885_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512886_37 = PRIM_CDR(_3512885_37);
-Obj _3512887_37 = PRIM_EQ(Nil, _3512886_37);
-if (True == _3512887_37) {
-Obj _3512888_37 = makeCons(co->gc, y, Nil);
-Obj _3512889_37 = makeCons(co->gc, x, _3512888_37);
-Obj _3512890_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512889_37);
-coraReturn(co, _3512890_37);
+Obj _3512423_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3512890_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512890_37) {
+Obj _3512891_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512891_37;
+Obj _3512892_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512893_37 = PRIM_ISCONS(_3512892_37);
+if (True == _3512893_37) {
+Obj _3512894_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512895_37 = PRIM_CAR(_3512894_37);
+Obj y = _3512895_37;
+Obj _3512896_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512897_37 = PRIM_CDR(_3512896_37);
+Obj _3512898_37 = PRIM_EQ(Nil, _3512897_37);
+if (True == _3512898_37) {
+Obj _3512899_37 = makeCons(co->gc, y, Nil);
+Obj _3512900_37 = makeCons(co->gc, x, _3512899_37);
+Obj _3512901_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3512900_37);
+coraReturn(co, _3512901_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512423_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512423_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512423_37);
 return;
 }
 }
@@ -2127,30 +2132,30 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512872_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512872_37) {
-Obj _3512873_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512873_37;
-Obj _3512874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512874_37;
+Obj _3512883_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512883_37) {
+Obj _3512884_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512884_37;
+Obj _3512885_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512885_37;
 R[1] = x;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), y);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj _3512875_37= co->res;
+Obj _3512886_37= co->res;
 Obj x = R[1];
-Obj _3512876_37 = makeCons(co->gc, _3512875_37, Nil);
-Obj _3512877_37 = makeCons(co->gc, x, _3512876_37);
-Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512877_37);
-coraReturn(co, _3512878_37);
+Obj _3512887_37 = makeCons(co->gc, _3512886_37, Nil);
+Obj _3512888_37 = makeCons(co->gc, x, _3512887_37);
+Obj _3512889_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3512888_37);
+coraReturn(co, _3512889_37);
 return;
 }
 }
@@ -2162,21 +2167,21 @@ case 0:
 {
 Obj exp = R[1];
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp);
 return;
 }
 case 1:
 {
-Obj _3512870_37= co->res;
+Obj _3512881_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512870_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512881_37);
 return;
 }
 case 2:
 {
-Obj _3512869_37= co->res;
+Obj _3512880_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512880_37);
 return;
 }
 }
@@ -2199,7 +2204,7 @@ case 0:
 {
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), Nil, makeCString(co->gc, ""), Nil, exp);
 return;
 }
 }
@@ -2212,66 +2217,66 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 1:
 {
-Obj _3512858_37= co->res;
+Obj _3512869_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3512859_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512860_37 = makeCons(co->gc, _3512859_37, body);
-Obj _3512861_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512860_37);
-Obj _3512862_37 = makeCons(co->gc, _3512861_37, Nil);
-Obj _3512863_37 = makeCons(co->gc, args, _3512862_37);
-Obj _3512864_37 = makeCons(co->gc, _3512858_37, _3512863_37);
-Obj _3512865_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512864_37);
-coraReturn(co, _3512865_37);
+Obj _3512870_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, args);
+Obj _3512871_37 = makeCons(co->gc, _3512870_37, body);
+Obj _3512872_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3512871_37);
+Obj _3512873_37 = makeCons(co->gc, _3512872_37, Nil);
+Obj _3512874_37 = makeCons(co->gc, args, _3512873_37);
+Obj _3512875_37 = makeCons(co->gc, _3512869_37, _3512874_37);
+Obj _3512876_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512875_37);
+coraReturn(co, _3512876_37);
 return;
 }
 case 2:
 {
-Obj _3512857_37= co->res;
+Obj _3512868_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj args = _3512857_37;
+Obj args = _3512868_37;
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 3:
 {
-Obj _3512856_37= co->res;
+Obj _3512867_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj nargs = _3512856_37;
+Obj nargs = _3512867_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), nargs);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), nargs);
 return;
 }
 case 4:
 {
-Obj _3512855_37= co->res;
+Obj _3512866_37= co->res;
 Obj exp = R[1];
-Obj body = _3512855_37;
+Obj body = _3512866_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), body);
 return;
 }
 case 5:
 {
-Obj _3512854_37= co->res;
+Obj _3512865_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512854_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), _3512865_37);
 return;
 }
 }
@@ -2282,25 +2287,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512848_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512848_37) {
+Obj _3512859_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3512859_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512849_37 = primGenSym(co);
-Obj _3512850_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512849_37;
+Obj _3512860_37 = primGenSym(co);
+Obj _3512861_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3512860_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512850_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), _3512861_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512851_37= co->res;
-Obj _3512849_37 = R[1];
-Obj _3512852_37 = makeCons(co->gc, _3512849_37, _3512851_37);
-coraReturn(co, _3512852_37);
+Obj _3512862_37= co->res;
+Obj _3512860_37 = R[1];
+Obj _3512863_37 = makeCons(co->gc, _3512860_37, _3512862_37);
+coraReturn(co, _3512863_37);
 return;
 }
 }
@@ -2312,17 +2317,17 @@ case 0:
 {
 Obj rules = R[1];
 saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), Nil, rules);
 return;
 }
 case 1:
 {
-Obj _3512845_37= co->res;
+Obj _3512856_37= co->res;
 Obj n = R[1];
-Obj _3512846_37 = primNot(_3512845_37);
-if (True == _3512846_37) {
+Obj _3512857_37 = primNot(_3512856_37);
+if (True == _3512857_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
 coraReturn(co, n);
@@ -2331,31 +2336,31 @@ return;
 }
 case 2:
 {
-Obj _3512844_37= co->res;
+Obj _3512855_37= co->res;
 Obj n = R[1];
 R[1] = n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512844_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512855_37);
 return;
 }
 case 3:
 {
-Obj _3512839_37= co->res;
-Obj counts = _3512839_37;
-Obj _3512840_37 = PRIM_CAR(counts);
-Obj n = _3512840_37;
-Obj _3512843_37 = PRIM_CDR(counts);
+Obj _3512850_37= co->res;
+Obj counts = _3512850_37;
+Obj _3512851_37 = PRIM_CAR(counts);
+Obj n = _3512851_37;
+Obj _3512854_37 = PRIM_CDR(counts);
 R[1] = n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512843_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512854_37);
 return;
 }
 case 4:
 {
-Obj _3512837_37= co->res;
-Obj pats = _3512837_37;
+Obj _3512848_37= co->res;
+Obj pats = _3512848_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
 return;
 }
 }
@@ -2366,9 +2371,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512841_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512842_37 = primNot(_3512841_37);
-coraReturn(co, _3512842_37);
+Obj _3512852_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3512853_37 = primNot(_3512852_37);
+coraReturn(co, _3512853_37);
 return;
 }
 }
@@ -2379,9 +2384,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512838_37 = PRIM_CDR(x);
+Obj _3512849_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3512849_37);
 return;
 }
 }
@@ -2393,25 +2398,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512831_37 = PRIM_EQ(l1, Nil);
-if (True == _3512831_37) {
+Obj _3512842_37 = PRIM_EQ(l1, Nil);
+if (True == _3512842_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512832_37 = PRIM_CAR(l1);
-Obj _3512833_37 = PRIM_CDR(l1);
-R[1] = _3512832_37;
+Obj _3512843_37 = PRIM_CAR(l1);
+Obj _3512844_37 = PRIM_CDR(l1);
+R[1] = _3512843_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512833_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3512844_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512834_37= co->res;
-Obj _3512832_37 = R[1];
-Obj _3512835_37 = makeCons(co->gc, _3512832_37, _3512834_37);
-coraReturn(co, _3512835_37);
+Obj _3512845_37= co->res;
+Obj _3512843_37 = R[1];
+Obj _3512846_37 = makeCons(co->gc, _3512843_37, _3512845_37);
+coraReturn(co, _3512846_37);
 return;
 }
 }
@@ -2424,7 +2429,7 @@ case 0:
 Obj fn = R[1];
 Obj l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, fn, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), Nil, fn, l);
 return;
 }
 }
@@ -2437,38 +2442,38 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512822_37 = PRIM_ISCONS(l);
-if (True == _3512822_37) {
-Obj _3512823_37 = PRIM_CAR(l);
+Obj _3512833_37 = PRIM_ISCONS(l);
+if (True == _3512833_37) {
+Obj _3512834_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512823_37);
+coraCall1(co, fn, _3512834_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
 return;
 }
 }
 case 1:
 {
-Obj _3512824_37= co->res;
+Obj _3512835_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512824_37) {
-Obj _3512825_37 = PRIM_CAR(l);
-Obj _3512826_37 = makeCons(co->gc, _3512825_37, res);
-Obj _3512827_37 = PRIM_CDR(l);
+if (True == _3512835_37) {
+Obj _3512836_37 = PRIM_CAR(l);
+Obj _3512837_37 = makeCons(co->gc, _3512836_37, res);
+Obj _3512838_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512826_37, fn, _3512827_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), _3512837_37, fn, _3512838_37);
 return;
 } else {
-Obj _3512828_37 = PRIM_CDR(l);
+Obj _3512839_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512828_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), res, fn, _3512839_37);
 return;
 }
 }
@@ -2481,7 +2486,7 @@ case 0:
 {
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), MAKE_NUMBER(0), l);
 return;
 }
 }
@@ -2493,15 +2498,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512817_37 = PRIM_EQ(l, Nil);
-if (True == _3512817_37) {
+Obj _3512828_37 = PRIM_EQ(l, Nil);
+if (True == _3512828_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512818_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512819_37 = PRIM_CDR(l);
+Obj _3512829_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3512830_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512818_37, _3512819_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), _3512829_37, _3512830_37);
 return;
 }
 }
@@ -2517,32 +2522,32 @@ Obj rules = R[2];
 R[1] = res;
 R[2] = rules;
 saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), rules);
 return;
 }
 case 1:
 {
-Obj _3512815_37= co->res;
-Obj _3512814_37 = R[1];
+Obj _3512826_37= co->res;
+Obj _3512825_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512814_37, _3512815_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), _3512825_37, _3512826_37);
 return;
 }
 case 2:
 {
-Obj _3512812_37= co->res;
+Obj _3512823_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512812_37) {
+if (True == _3512823_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
 return;
 } else {
-Obj _3512813_37 = PRIM_CAR(rules);
-Obj _3512814_37 = makeCons(co->gc, _3512813_37, res);
-R[1] = _3512814_37;
+Obj _3512824_37 = PRIM_CAR(rules);
+Obj _3512825_37 = makeCons(co->gc, _3512824_37, res);
+R[1] = _3512825_37;
 saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), rules);
 return;
 }
 }
@@ -2555,7 +2560,7 @@ case 0:
 {
 Obj input = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), input, Nil, Nil);
 return;
 }
 }
@@ -2568,103 +2573,103 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512759_37 = PRIM_EQ(Nil, input);
-if (True == _3512759_37) {
+Obj _3512770_37 = PRIM_EQ(Nil, input);
+if (True == _3512770_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), result);
 return;
 } else {
-Obj _3512408_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512777_37 = PRIM_ISCONS(input);
-if (True == _3512777_37) {
-Obj _3512778_37 = PRIM_CAR(input);
-Obj _3512779_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512778_37);
-if (True == _3512779_37) {
-Obj _3512780_37 = PRIM_CDR(input);
-Obj _3512781_37 = PRIM_ISCONS(_3512780_37);
-if (True == _3512781_37) {
-Obj _3512782_37 = PRIM_CDR(input);
-Obj _3512783_37 = PRIM_CAR(_3512782_37);
-Obj act = _3512783_37;
-Obj _3512784_37 = PRIM_CDR(input);
-Obj _3512785_37 = PRIM_CDR(_3512784_37);
-Obj _3512786_37 = PRIM_ISCONS(_3512785_37);
-if (True == _3512786_37) {
-Obj _3512787_37 = PRIM_CDR(input);
-Obj _3512788_37 = PRIM_CDR(_3512787_37);
-Obj _3512789_37 = PRIM_CAR(_3512788_37);
-Obj _3512790_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512789_37);
+Obj _3512418_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3512788_37 = PRIM_ISCONS(input);
+if (True == _3512788_37) {
+Obj _3512789_37 = PRIM_CAR(input);
+Obj _3512790_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3512789_37);
 if (True == _3512790_37) {
 Obj _3512791_37 = PRIM_CDR(input);
-Obj _3512792_37 = PRIM_CDR(_3512791_37);
-Obj _3512793_37 = PRIM_CDR(_3512792_37);
-Obj _3512794_37 = PRIM_ISCONS(_3512793_37);
-if (True == _3512794_37) {
+Obj _3512792_37 = PRIM_ISCONS(_3512791_37);
+if (True == _3512792_37) {
+Obj _3512793_37 = PRIM_CDR(input);
+Obj _3512794_37 = PRIM_CAR(_3512793_37);
+Obj act = _3512794_37;
 Obj _3512795_37 = PRIM_CDR(input);
 Obj _3512796_37 = PRIM_CDR(_3512795_37);
-Obj _3512797_37 = PRIM_CDR(_3512796_37);
-Obj _3512798_37 = PRIM_CAR(_3512797_37);
-Obj pred = _3512798_37;
-Obj _3512799_37 = PRIM_CDR(input);
-Obj _3512800_37 = PRIM_CDR(_3512799_37);
-Obj _3512801_37 = PRIM_CDR(_3512800_37);
-Obj _3512802_37 = PRIM_CDR(_3512801_37);
-Obj remain = _3512802_37;
+Obj _3512797_37 = PRIM_ISCONS(_3512796_37);
+if (True == _3512797_37) {
+Obj _3512798_37 = PRIM_CDR(input);
+Obj _3512799_37 = PRIM_CDR(_3512798_37);
+Obj _3512800_37 = PRIM_CAR(_3512799_37);
+Obj _3512801_37 = PRIM_EQ(getBinding(co, packageID, 112).name, _3512800_37);
+if (True == _3512801_37) {
+Obj _3512802_37 = PRIM_CDR(input);
+Obj _3512803_37 = PRIM_CDR(_3512802_37);
+Obj _3512804_37 = PRIM_CDR(_3512803_37);
+Obj _3512805_37 = PRIM_ISCONS(_3512804_37);
+if (True == _3512805_37) {
+Obj _3512806_37 = PRIM_CDR(input);
+Obj _3512807_37 = PRIM_CDR(_3512806_37);
+Obj _3512808_37 = PRIM_CDR(_3512807_37);
+Obj _3512809_37 = PRIM_CAR(_3512808_37);
+Obj pred = _3512809_37;
+Obj _3512810_37 = PRIM_CDR(input);
+Obj _3512811_37 = PRIM_CDR(_3512810_37);
+Obj _3512812_37 = PRIM_CDR(_3512811_37);
+Obj _3512813_37 = PRIM_CDR(_3512812_37);
+Obj remain = _3512813_37;
 R[1] = act;
 R[2] = pred;
 R[3] = result;
 R[4] = remain;
 saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512418_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512418_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512418_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512418_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512418_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512418_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512803_37= co->res;
+Obj _3512814_37= co->res;
 Obj act = R[1];
 Obj pred = R[2];
 Obj result = R[3];
 Obj remain = R[4];
-Obj _3512804_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512803_37);
-Obj pat = _3512804_37;
-Obj _3512805_37 = makeCons(co->gc, act, Nil);
-Obj _3512806_37 = makeCons(co->gc, pred, _3512805_37);
-Obj _3512807_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512806_37);
-Obj _3512808_37 = makeCons(co->gc, pat, result);
-Obj _3512809_37 = makeCons(co->gc, _3512807_37, _3512808_37);
+Obj _3512815_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3512814_37);
+Obj pat = _3512815_37;
+Obj _3512816_37 = makeCons(co->gc, act, Nil);
+Obj _3512817_37 = makeCons(co->gc, pred, _3512816_37);
+Obj _3512818_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3512817_37);
+Obj _3512819_37 = makeCons(co->gc, pat, result);
+Obj _3512820_37 = makeCons(co->gc, _3512818_37, _3512819_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512809_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), remain, Nil, _3512820_37);
 return;
 }
 }
@@ -2674,53 +2679,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512409_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512764_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512764_37) {
-Obj _3512765_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512766_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512765_37);
-if (True == _3512766_37) {
-Obj _3512767_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512768_37 = PRIM_ISCONS(_3512767_37);
-if (True == _3512768_37) {
-Obj _3512769_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512770_37 = PRIM_CAR(_3512769_37);
-Obj act = _3512770_37;
-Obj _3512771_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512772_37 = PRIM_CDR(_3512771_37);
-Obj remain = _3512772_37;
+Obj _3512419_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3512775_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512775_37) {
+Obj _3512776_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3512777_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3512776_37);
+if (True == _3512777_37) {
+Obj _3512778_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512779_37 = PRIM_ISCONS(_3512778_37);
+if (True == _3512779_37) {
+Obj _3512780_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512781_37 = PRIM_CAR(_3512780_37);
+Obj act = _3512781_37;
+Obj _3512782_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512783_37 = PRIM_CDR(_3512782_37);
+Obj remain = _3512783_37;
 R[1] = act;
 R[2] = remain;
 saveCont(co, clofun47, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512419_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512419_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512419_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512773_37= co->res;
+Obj _3512784_37= co->res;
 Obj act = R[1];
 Obj remain = R[2];
-Obj _3512774_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512773_37);
-Obj pat = _3512774_37;
-Obj _3512775_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512776_37 = makeCons(co->gc, act, _3512775_37);
+Obj _3512785_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3512784_37);
+Obj pat = _3512785_37;
+Obj _3512786_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
+Obj _3512787_37 = makeCons(co->gc, act, _3512786_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512776_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), remain, Nil, _3512787_37);
 return;
 }
 }
@@ -2730,19 +2735,19 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512760_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512760_37) {
-Obj _3512761_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512761_37;
-Obj _3512762_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512762_37;
-Obj _3512763_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3512771_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512771_37) {
+Obj _3512772_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512772_37;
+Obj _3512773_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512773_37;
+Obj _3512774_37 = makeCons(co->gc, x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512763_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), y, _3512774_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2755,7 +2760,7 @@ case 0:
 {
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 110)), exp);
 return;
 }
 }
@@ -2768,52 +2773,52 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 1:
 {
-Obj _3512746_37= co->res;
+Obj _3512757_37= co->res;
 Obj value = R[1];
-Obj rules = _3512746_37;
-Obj _3512459_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512753_37 = PRIM_ISCONS(value);
-if (True == _3512753_37) {
-Obj _3512754_37 = PRIM_CAR(value);
-Obj _3512755_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512754_37);
-Obj _3512756_37 = primNot(_3512755_37);
-if (True == _3512756_37) {
+Obj rules = _3512757_37;
+Obj _3512469_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
+Obj _3512764_37 = PRIM_ISCONS(value);
+if (True == _3512764_37) {
+Obj _3512765_37 = PRIM_CAR(value);
+Obj _3512766_37 = PRIM_EQ(getBinding(co, packageID, 153).name, _3512765_37);
+Obj _3512767_37 = primNot(_3512766_37);
+if (True == _3512767_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, True);
+coraCall1(co, _3512469_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, _3512469_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, _3512469_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512745_37= co->res;
+Obj _3512756_37= co->res;
 Obj exp = R[1];
-Obj value = _3512745_37;
+Obj value = _3512756_37;
 R[1] = value;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 3:
 {
-Obj _3512744_37= co->res;
+Obj _3512755_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512744_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), _3512755_37);
 return;
 }
 }
@@ -2823,29 +2828,29 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512460_37 = R[1];
-if (True == _3512460_37) {
-Obj _3512747_37 = primGenSym(co);
-Obj val = _3512747_37;
+Obj _3512470_37 = R[1];
+if (True == _3512470_37) {
+Obj _3512758_37 = primGenSym(co);
+Obj val = _3512758_37;
 R[1] = val;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), val, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3512748_37= co->res;
+Obj _3512759_37= co->res;
 Obj val = R[1];
-Obj _3512749_37 = makeCons(co->gc, _3512748_37, Nil);
-Obj _3512750_37 = makeCons(co->gc, closureRef(R[0], 0), _3512749_37);
-Obj _3512751_37 = makeCons(co->gc, val, _3512750_37);
-Obj _3512752_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512751_37);
-coraReturn(co, _3512752_37);
+Obj _3512760_37 = makeCons(co->gc, _3512759_37, Nil);
+Obj _3512761_37 = makeCons(co->gc, closureRef(R[0], 0), _3512760_37);
+Obj _3512762_37 = makeCons(co->gc, val, _3512761_37);
+Obj _3512763_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512762_37);
+coraReturn(co, _3512763_37);
 return;
 }
 }
@@ -2860,56 +2865,56 @@ Obj rules = R[2];
 R[1] = value;
 R[2] = rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), rules);
 return;
 }
 case 1:
 {
-Obj _3512742_37= co->res;
-Obj _3512457_37 = R[1];
-if (True == _3512742_37) {
+Obj _3512753_37= co->res;
+Obj _3512467_37 = R[1];
+if (True == _3512753_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, True);
+coraCall1(co, _3512467_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, _3512467_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512740_37= co->res;
+Obj _3512751_37= co->res;
 Obj rules = R[1];
-Obj _3512457_37 = R[2];
-if (True == _3512740_37) {
-Obj _3512741_37 = PRIM_CDR(rules);
-R[1] = _3512457_37;
+Obj _3512467_37 = R[2];
+if (True == _3512751_37) {
+Obj _3512752_37 = PRIM_CDR(rules);
+R[1] = _3512467_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512741_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), _3512752_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, _3512467_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512722_37= co->res;
+Obj _3512733_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512722_37) {
-Obj _3512723_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512724_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512723_37);
-coraReturn(co, _3512724_37);
+if (True == _3512733_37) {
+Obj _3512734_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3512735_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512734_37);
+coraReturn(co, _3512735_37);
 return;
 } else {
-Obj _3512457_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3512467_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512457_37;
+R[2] = _3512467_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), rules);
 return;
 }
 }
@@ -2920,72 +2925,72 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512458_37 = R[1];
-if (True == _3512458_37) {
-Obj _3512725_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512725_37;
-Obj _3512726_37 = primGenSym(co);
-Obj cc = _3512726_37;
+Obj _3512468_37 = R[1];
+if (True == _3512468_37) {
+Obj _3512736_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj pat = _3512736_37;
+Obj _3512737_37 = primGenSym(co);
+Obj cc = _3512737_37;
 R[1] = pat;
 R[2] = cc;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), cc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), cc);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 case 1:
 {
-Obj _3512732_37= co->res;
+Obj _3512743_37= co->res;
 Obj curr = R[1];
 Obj cc = R[2];
-Obj rest = _3512732_37;
-Obj _3512733_37 = makeCons(co->gc, rest, Nil);
-Obj _3512734_37 = makeCons(co->gc, Nil, _3512733_37);
-Obj _3512735_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512734_37);
-Obj _3512736_37 = makeCons(co->gc, curr, Nil);
-Obj _3512737_37 = makeCons(co->gc, _3512735_37, _3512736_37);
-Obj _3512738_37 = makeCons(co->gc, cc, _3512737_37);
-Obj _3512739_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512738_37);
-coraReturn(co, _3512739_37);
+Obj rest = _3512743_37;
+Obj _3512744_37 = makeCons(co->gc, rest, Nil);
+Obj _3512745_37 = makeCons(co->gc, Nil, _3512744_37);
+Obj _3512746_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512745_37);
+Obj _3512747_37 = makeCons(co->gc, curr, Nil);
+Obj _3512748_37 = makeCons(co->gc, _3512746_37, _3512747_37);
+Obj _3512749_37 = makeCons(co->gc, cc, _3512748_37);
+Obj _3512750_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512749_37);
+coraReturn(co, _3512750_37);
 return;
 }
 case 2:
 {
-Obj _3512729_37= co->res;
+Obj _3512740_37= co->res;
 Obj cc = R[1];
-Obj curr = _3512729_37;
-Obj _3512730_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512731_37 = PRIM_CDR(_3512730_37);
+Obj curr = _3512740_37;
+Obj _3512741_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3512742_37 = PRIM_CDR(_3512741_37);
 R[1] = curr;
 R[2] = cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), _3512742_37);
 return;
 }
 case 3:
 {
-Obj _3512728_37= co->res;
+Obj _3512739_37= co->res;
 Obj action = R[1];
 Obj cc = R[2];
 R[1] = cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512728_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), _3512739_37, closureRef(R[0], 0), action, cc);
 return;
 }
 case 4:
 {
-Obj _3512727_37= co->res;
+Obj _3512738_37= co->res;
 Obj pat = R[1];
 Obj cc = R[2];
-Obj action = _3512727_37;
+Obj action = _3512738_37;
 R[1] = action;
 R[2] = cc;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), pat);
 return;
 }
 }
@@ -2997,36 +3002,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512709_37 = PRIM_CDR(rules);
-Obj _3512710_37 = PRIM_CAR(_3512709_37);
-Obj action = _3512710_37;
-Obj _3512455_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
+Obj _3512720_37 = PRIM_CDR(rules);
+Obj _3512721_37 = PRIM_CAR(_3512720_37);
+Obj action = _3512721_37;
+Obj _3512465_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
 R[1] = action;
-R[2] = _3512455_37;
+R[2] = _3512465_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), action);
 return;
 }
 case 1:
 {
-Obj _3512718_37= co->res;
+Obj _3512729_37= co->res;
 Obj action = R[1];
-Obj _3512455_37 = R[2];
-if (True == _3512718_37) {
-Obj _3512719_37 = PRIM_CAR(action);
-Obj _3512720_37 = PRIM_EQ(_3512719_37, getBinding(co, packageID, 110).name);
-if (True == _3512720_37) {
+Obj _3512465_37 = R[2];
+if (True == _3512729_37) {
+Obj _3512730_37 = PRIM_CAR(action);
+Obj _3512731_37 = PRIM_EQ(_3512730_37, getBinding(co, packageID, 112).name);
+if (True == _3512731_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, True);
+coraCall1(co, _3512465_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, _3512465_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, _3512465_37, False);
 return;
 }
 }
@@ -3037,10 +3042,10 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512456_37 = R[1];
-if (True == _3512456_37) {
+Obj _3512466_37 = R[1];
+if (True == _3512466_37) {
 saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -3049,22 +3054,22 @@ return;
 }
 case 1:
 {
-Obj _3512712_37= co->res;
-Obj _3512711_37 = R[1];
-Obj _3512713_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512714_37 = makeCons(co->gc, _3512713_37, Nil);
-Obj _3512715_37 = makeCons(co->gc, _3512712_37, _3512714_37);
-Obj _3512716_37 = makeCons(co->gc, _3512711_37, _3512715_37);
-Obj _3512717_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512716_37);
-coraReturn(co, _3512717_37);
+Obj _3512723_37= co->res;
+Obj _3512722_37 = R[1];
+Obj _3512724_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3512725_37 = makeCons(co->gc, _3512724_37, Nil);
+Obj _3512726_37 = makeCons(co->gc, _3512723_37, _3512725_37);
+Obj _3512727_37 = makeCons(co->gc, _3512722_37, _3512726_37);
+Obj _3512728_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512727_37);
+coraReturn(co, _3512728_37);
 return;
 }
 case 2:
 {
-Obj _3512711_37= co->res;
-R[1] = _3512711_37;
+Obj _3512722_37= co->res;
+R[1] = _3512722_37;
 saveCont(co, clofun39, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
 }
 }
@@ -3082,97 +3087,92 @@ R[1] = expr;
 R[2] = body;
 R[3] = cc;
 R[4] = pat;
-saveCont(co, clofun38, 3, R);
+saveCont(co, clofun38, 2, R);
 coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), pat);
 return;
 }
 case 1:
 {
-Obj _3512707_37= co->res;
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512707_37);
-return;
-}
-case 2:
-{
-Obj _3512694_37= co->res;
+Obj _3512704_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512694_37) {
-Obj _3512695_37 = PRIM_CAR(pat);
-Obj _3512696_37 = PRIM_EQ(_3512695_37, getBinding(co, packageID, 139).name);
-if (True == _3512696_37) {
-Obj _3512697_37 = makeCons(co->gc, expr, Nil);
-Obj _3512698_37 = makeCons(co->gc, pat, _3512697_37);
-Obj _3512699_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512698_37);
-Obj _3512700_37 = makeCons(co->gc, cc, Nil);
-Obj _3512701_37 = makeCons(co->gc, _3512700_37, Nil);
-Obj _3512702_37 = makeCons(co->gc, body, _3512701_37);
-Obj _3512703_37 = makeCons(co->gc, _3512699_37, _3512702_37);
-Obj _3512704_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512703_37);
-coraReturn(co, _3512704_37);
-return;
-} else {
+if (True == _3512704_37) {
 Obj _3512705_37 = PRIM_CAR(pat);
-Obj _3512706_37 = PRIM_EQ(_3512705_37, getBinding(co, packageID, 152).name);
+Obj _3512706_37 = PRIM_EQ(_3512705_37, getBinding(co, packageID, 140).name);
 if (True == _3512706_37) {
+Obj _3512707_37 = makeCons(co->gc, expr, Nil);
+Obj _3512708_37 = makeCons(co->gc, pat, _3512707_37);
+Obj _3512709_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512708_37);
+Obj _3512710_37 = makeCons(co->gc, cc, Nil);
+Obj _3512711_37 = makeCons(co->gc, _3512710_37, Nil);
+Obj _3512712_37 = makeCons(co->gc, body, _3512711_37);
+Obj _3512713_37 = makeCons(co->gc, _3512709_37, _3512712_37);
+Obj _3512714_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512713_37);
+coraReturn(co, _3512714_37);
+return;
+} else {
+Obj _3512715_37 = PRIM_CAR(pat);
+Obj _3512716_37 = PRIM_EQ(_3512715_37, getBinding(co, packageID, 153).name);
+if (True == _3512716_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), pat, expr, body, cc);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 } else {
-saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), pat);
+Obj _3512717_37 = makeCons(co->gc, pat, Nil);
+Obj _3512718_37 = makeCons(co->gc, makeCString(co->gc, "match fail"), _3512717_37);
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), _3512718_37);
 return;
 }
 }
-case 3:
+case 2:
 {
-Obj _3512679_37= co->res;
+Obj _3512689_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512679_37) {
-Obj _3512680_37 = PRIM_EQ(pat, expr);
-if (True == _3512680_37) {
+if (True == _3512689_37) {
+Obj _3512690_37 = PRIM_EQ(pat, expr);
+if (True == _3512690_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512681_37 = makeCons(co->gc, expr, Nil);
-Obj _3512682_37 = makeCons(co->gc, pat, _3512681_37);
-Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512682_37);
-Obj _3512684_37 = makeCons(co->gc, cc, Nil);
-Obj _3512685_37 = makeCons(co->gc, _3512684_37, Nil);
-Obj _3512686_37 = makeCons(co->gc, body, _3512685_37);
-Obj _3512687_37 = makeCons(co->gc, _3512683_37, _3512686_37);
-Obj _3512688_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512687_37);
-coraReturn(co, _3512688_37);
+Obj _3512691_37 = makeCons(co->gc, expr, Nil);
+Obj _3512692_37 = makeCons(co->gc, pat, _3512691_37);
+Obj _3512693_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512692_37);
+Obj _3512694_37 = makeCons(co->gc, cc, Nil);
+Obj _3512695_37 = makeCons(co->gc, _3512694_37, Nil);
+Obj _3512696_37 = makeCons(co->gc, body, _3512695_37);
+Obj _3512697_37 = makeCons(co->gc, _3512693_37, _3512696_37);
+Obj _3512698_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512697_37);
+coraReturn(co, _3512698_37);
 return;
 }
 } else {
-Obj _3512689_37 = primIsSymbol(pat);
-if (True == _3512689_37) {
-Obj _3512690_37 = makeCons(co->gc, body, Nil);
-Obj _3512691_37 = makeCons(co->gc, expr, _3512690_37);
-Obj _3512692_37 = makeCons(co->gc, pat, _3512691_37);
-Obj _3512693_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512692_37);
-coraReturn(co, _3512693_37);
+Obj _3512699_37 = primIsSymbol(pat);
+if (True == _3512699_37) {
+Obj _3512700_37 = makeCons(co->gc, body, Nil);
+Obj _3512701_37 = makeCons(co->gc, expr, _3512700_37);
+Obj _3512702_37 = makeCons(co->gc, pat, _3512701_37);
+Obj _3512703_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512702_37);
+coraReturn(co, _3512703_37);
 return;
 } else {
 R[1] = expr;
 R[2] = body;
 R[3] = cc;
 R[4] = pat;
-saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), pat);
+saveCont(co, clofun38, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), pat);
 return;
 }
 }
@@ -3187,17 +3187,17 @@ case 0:
 Obj x = R[1];
 R[1] = x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), x);
 return;
 }
 case 1:
 {
-Obj _3512676_37= co->res;
+Obj _3512686_37= co->res;
 Obj x = R[1];
-if (True == _3512676_37) {
-Obj _3512677_37 = primIsSymbol(x);
-Obj _3512678_37 = primNot(_3512677_37);
-if (True == _3512678_37) {
+if (True == _3512686_37) {
+Obj _3512687_37 = primIsSymbol(x);
+Obj _3512688_37 = primNot(_3512687_37);
+if (True == _3512688_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3225,51 +3225,51 @@ R[2] = body;
 R[3] = cc;
 R[4] = expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), pat);
 return;
 }
 case 1:
 {
-Obj _3512655_37= co->res;
+Obj _3512665_37= co->res;
 Obj x = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512655_37;
-Obj _3512453_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512672_37 = PRIM_ISCONS(expr);
-if (True == _3512672_37) {
-Obj _3512673_37 = PRIM_CAR(expr);
-Obj _3512674_37 = PRIM_EQ(_3512673_37, getBinding(co, packageID, 152).name);
-if (True == _3512674_37) {
+Obj y = _3512665_37;
+Obj _3512463_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
+Obj _3512682_37 = PRIM_ISCONS(expr);
+if (True == _3512682_37) {
+Obj _3512683_37 = PRIM_CAR(expr);
+Obj _3512684_37 = PRIM_EQ(_3512683_37, getBinding(co, packageID, 153).name);
+if (True == _3512684_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, True);
+coraCall1(co, _3512463_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, _3512463_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, _3512463_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512654_37= co->res;
+Obj _3512664_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512654_37;
+Obj x = _3512664_37;
 R[1] = x;
 R[2] = body;
 R[3] = cc;
 R[4] = expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), pat);
 return;
 }
 }
@@ -3279,72 +3279,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512454_37 = R[1];
-if (True == _3512454_37) {
+Obj _3512464_37 = R[1];
+if (True == _3512464_37) {
 saveCont(co, clofun35, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512659_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512660_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512659_37);
-Obj _3512661_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512662_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512661_37);
-Obj _3512663_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512664_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512663_37);
-R[1] = _3512662_37;
-R[2] = _3512660_37;
+Obj _3512669_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512670_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3512669_37);
+Obj _3512671_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512672_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512671_37);
+Obj _3512673_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512674_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512673_37);
+R[1] = _3512672_37;
+R[2] = _3512670_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512664_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), _3512674_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512658_37= co->res;
+Obj _3512668_37= co->res;
 Obj e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512658_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), e1, _3512668_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512657_37= co->res;
+Obj _3512667_37= co->res;
 Obj e1 = R[1];
-Obj e2 = _3512657_37;
+Obj e2 = _3512667_37;
 R[1] = e1;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3512656_37= co->res;
-Obj e1 = _3512656_37;
+Obj _3512666_37= co->res;
+Obj e1 = _3512666_37;
 R[1] = e1;
 saveCont(co, clofun35, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3512666_37= co->res;
-Obj _3512660_37 = R[1];
-Obj _3512667_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512668_37 = makeCons(co->gc, _3512667_37, Nil);
-Obj _3512669_37 = makeCons(co->gc, _3512666_37, _3512668_37);
-Obj _3512670_37 = makeCons(co->gc, _3512660_37, _3512669_37);
-Obj _3512671_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512670_37);
-coraReturn(co, _3512671_37);
+Obj _3512676_37= co->res;
+Obj _3512670_37 = R[1];
+Obj _3512677_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3512678_37 = makeCons(co->gc, _3512677_37, Nil);
+Obj _3512679_37 = makeCons(co->gc, _3512676_37, _3512678_37);
+Obj _3512680_37 = makeCons(co->gc, _3512670_37, _3512679_37);
+Obj _3512681_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512680_37);
+coraReturn(co, _3512681_37);
 return;
 }
 case 5:
 {
-Obj _3512665_37= co->res;
-Obj _3512662_37 = R[1];
-Obj _3512660_37 = R[2];
-R[1] = _3512660_37;
+Obj _3512675_37= co->res;
+Obj _3512672_37 = R[1];
+Obj _3512670_37 = R[2];
+R[1] = _3512670_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512662_37, _3512665_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), _3512672_37, _3512675_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3355,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512652_37 = PRIM_CDR(exp);
+Obj _3512662_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512652_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512662_37);
 return;
 }
 }
@@ -3368,36 +3368,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512642_37 = PRIM_CDR(pat);
+Obj _3512652_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512652_37);
 return;
 }
 case 1:
 {
-Obj _3512647_37= co->res;
-Obj _3512645_37 = R[1];
-Obj _3512648_37 = makeCons(co->gc, _3512647_37, Nil);
-Obj _3512649_37 = makeCons(co->gc, _3512645_37, _3512648_37);
-Obj _3512650_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512649_37);
-coraReturn(co, _3512650_37);
+Obj _3512657_37= co->res;
+Obj _3512655_37 = R[1];
+Obj _3512658_37 = makeCons(co->gc, _3512657_37, Nil);
+Obj _3512659_37 = makeCons(co->gc, _3512655_37, _3512658_37);
+Obj _3512660_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3512659_37);
+coraReturn(co, _3512660_37);
 return;
 }
 case 2:
 {
-Obj _3512643_37= co->res;
+Obj _3512653_37= co->res;
 Obj pat = R[1];
-if (True == _3512643_37) {
-Obj _3512644_37 = PRIM_CAR(pat);
-coraReturn(co, _3512644_37);
+if (True == _3512653_37) {
+Obj _3512654_37 = PRIM_CAR(pat);
+coraReturn(co, _3512654_37);
 return;
 } else {
-Obj _3512645_37 = PRIM_CAR(pat);
-Obj _3512646_37 = PRIM_CDR(pat);
-R[1] = _3512645_37;
+Obj _3512655_37 = PRIM_CAR(pat);
+Obj _3512656_37 = PRIM_CDR(pat);
+R[1] = _3512655_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512656_37);
 return;
 }
 }
@@ -3409,13 +3409,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512639_37 = PRIM_EQ(x, True);
-if (True == _3512639_37) {
+Obj _3512649_37 = PRIM_EQ(x, True);
+if (True == _3512649_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512640_37 = PRIM_EQ(x, False);
-if (True == _3512640_37) {
+Obj _3512650_37 = PRIM_EQ(x, False);
+if (True == _3512650_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3432,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512637_37 = PRIM_CDR(exp);
+Obj _3512647_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512637_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3512647_37);
 return;
 }
 }
@@ -3445,41 +3445,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512625_37 = PRIM_EQ(Nil, l);
-if (True == _3512625_37) {
+Obj _3512635_37 = PRIM_EQ(Nil, l);
+if (True == _3512635_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512626_37 = PRIM_CAR(l);
-Obj _3512627_37 = PRIM_EQ(_3512626_37, False);
-if (True == _3512627_37) {
+Obj _3512636_37 = PRIM_CAR(l);
+Obj _3512637_37 = PRIM_EQ(_3512636_37, False);
+if (True == _3512637_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512628_37 = PRIM_CDR(l);
+Obj _3512638_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512628_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3512638_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512629_37= co->res;
+Obj _3512639_37= co->res;
 Obj l = R[1];
-Obj more = _3512629_37;
-Obj _3512630_37 = PRIM_EQ(more, False);
-if (True == _3512630_37) {
+Obj more = _3512639_37;
+Obj _3512640_37 = PRIM_EQ(more, False);
+if (True == _3512640_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512631_37 = PRIM_CAR(l);
-Obj _3512632_37 = makeCons(co->gc, False, Nil);
-Obj _3512633_37 = makeCons(co->gc, more, _3512632_37);
-Obj _3512634_37 = makeCons(co->gc, _3512631_37, _3512633_37);
-Obj _3512635_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512634_37);
-coraReturn(co, _3512635_37);
+Obj _3512641_37 = PRIM_CAR(l);
+Obj _3512642_37 = makeCons(co->gc, False, Nil);
+Obj _3512643_37 = makeCons(co->gc, more, _3512642_37);
+Obj _3512644_37 = makeCons(co->gc, _3512641_37, _3512643_37);
+Obj _3512645_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512644_37);
+coraReturn(co, _3512645_37);
 return;
 }
 }
@@ -3491,9 +3491,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512623_37 = PRIM_CDR(exp);
+Obj _3512633_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3512633_37);
 return;
 }
 }
@@ -3504,41 +3504,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512611_37 = PRIM_EQ(l, Nil);
-if (True == _3512611_37) {
+Obj _3512621_37 = PRIM_EQ(l, Nil);
+if (True == _3512621_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512612_37 = PRIM_CAR(l);
-Obj _3512613_37 = PRIM_EQ(_3512612_37, True);
-if (True == _3512613_37) {
+Obj _3512622_37 = PRIM_CAR(l);
+Obj _3512623_37 = PRIM_EQ(_3512622_37, True);
+if (True == _3512623_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512614_37 = PRIM_CDR(l);
+Obj _3512624_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512614_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3512624_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512615_37= co->res;
+Obj _3512625_37= co->res;
 Obj l = R[1];
-Obj more = _3512615_37;
-Obj _3512616_37 = PRIM_EQ(more, True);
-if (True == _3512616_37) {
+Obj more = _3512625_37;
+Obj _3512626_37 = PRIM_EQ(more, True);
+if (True == _3512626_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512617_37 = PRIM_CAR(l);
-Obj _3512618_37 = makeCons(co->gc, more, Nil);
-Obj _3512619_37 = makeCons(co->gc, True, _3512618_37);
-Obj _3512620_37 = makeCons(co->gc, _3512617_37, _3512619_37);
-Obj _3512621_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512620_37);
-coraReturn(co, _3512621_37);
+Obj _3512627_37 = PRIM_CAR(l);
+Obj _3512628_37 = makeCons(co->gc, more, Nil);
+Obj _3512629_37 = makeCons(co->gc, True, _3512628_37);
+Obj _3512630_37 = makeCons(co->gc, _3512627_37, _3512629_37);
+Obj _3512631_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512630_37);
+coraReturn(co, _3512631_37);
 return;
 }
 }
@@ -3550,54 +3550,54 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512597_37 = PRIM_CDR(exp);
-Obj _3512598_37 = PRIM_EQ(Nil, _3512597_37);
-if (True == _3512598_37) {
-Obj _3512599_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512600_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512599_37);
-coraReturn(co, _3512600_37);
+Obj _3512607_37 = PRIM_CDR(exp);
+Obj _3512608_37 = PRIM_EQ(Nil, _3512607_37);
+if (True == _3512608_37) {
+Obj _3512609_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3512610_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512609_37);
+coraReturn(co, _3512610_37);
 return;
 } else {
 R[1] = exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 }
 case 1:
 {
-Obj _3512604_37= co->res;
-Obj _3512603_37 = R[1];
-Obj _3512602_37 = R[2];
-Obj _3512605_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512604_37);
-Obj _3512606_37 = makeCons(co->gc, _3512605_37, Nil);
-Obj _3512607_37 = makeCons(co->gc, _3512603_37, _3512606_37);
-Obj _3512608_37 = makeCons(co->gc, _3512602_37, _3512607_37);
-Obj _3512609_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512608_37);
-coraReturn(co, _3512609_37);
+Obj _3512614_37= co->res;
+Obj _3512613_37 = R[1];
+Obj _3512612_37 = R[2];
+Obj _3512615_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512614_37);
+Obj _3512616_37 = makeCons(co->gc, _3512615_37, Nil);
+Obj _3512617_37 = makeCons(co->gc, _3512613_37, _3512616_37);
+Obj _3512618_37 = makeCons(co->gc, _3512612_37, _3512617_37);
+Obj _3512619_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512618_37);
+coraReturn(co, _3512619_37);
 return;
 }
 case 2:
 {
-Obj _3512603_37= co->res;
+Obj _3512613_37= co->res;
 Obj exp = R[1];
-Obj _3512602_37 = R[2];
-R[1] = _3512603_37;
-R[2] = _3512602_37;
+Obj _3512612_37 = R[2];
+R[1] = _3512613_37;
+R[2] = _3512612_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 3:
 {
-Obj _3512601_37= co->res;
+Obj _3512611_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512601_37;
-Obj _3512602_37 = PRIM_CAR(curr);
+Obj curr = _3512611_37;
+Obj _3512612_37 = PRIM_CAR(curr);
 R[1] = exp;
-R[2] = _3512602_37;
+R[2] = _3512612_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), curr);
 return;
 }
 }
@@ -3608,9 +3608,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512595_37 = PRIM_CDR(exp);
+Obj _3512605_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3512605_37);
 return;
 }
 }
@@ -3621,60 +3621,60 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512583_37 = PRIM_CDR(exp);
+Obj _3512593_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512583_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512593_37);
 return;
 }
 case 1:
 {
-Obj _3512589_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-Obj _3512590_37 = makeCons(co->gc, _3512589_37, Nil);
-Obj _3512591_37 = makeCons(co->gc, _3512587_37, _3512590_37);
-Obj _3512592_37 = makeCons(co->gc, _3512586_37, _3512591_37);
-Obj _3512593_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512592_37);
-coraReturn(co, _3512593_37);
+Obj _3512599_37= co->res;
+Obj _3512597_37 = R[1];
+Obj _3512596_37 = R[2];
+Obj _3512600_37 = makeCons(co->gc, _3512599_37, Nil);
+Obj _3512601_37 = makeCons(co->gc, _3512597_37, _3512600_37);
+Obj _3512602_37 = makeCons(co->gc, _3512596_37, _3512601_37);
+Obj _3512603_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512602_37);
+coraReturn(co, _3512603_37);
 return;
 }
 case 2:
 {
-Obj _3512588_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj _3512598_37= co->res;
+Obj _3512597_37 = R[1];
+Obj _3512596_37 = R[2];
+R[1] = _3512597_37;
+R[2] = _3512596_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3512598_37);
 return;
 }
 case 3:
 {
-Obj _3512587_37= co->res;
+Obj _3512597_37= co->res;
 Obj exp = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj _3512596_37 = R[2];
+R[1] = _3512597_37;
+R[2] = _3512596_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 4:
 {
-Obj _3512584_37= co->res;
+Obj _3512594_37= co->res;
 Obj exp = R[1];
-if (True == _3512584_37) {
-Obj _3512585_37 = PRIM_CAR(exp);
-coraReturn(co, _3512585_37);
+if (True == _3512594_37) {
+Obj _3512595_37 = PRIM_CAR(exp);
+coraReturn(co, _3512595_37);
 return;
 } else {
-Obj _3512586_37 = PRIM_CAR(exp);
+Obj _3512596_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512586_37;
+R[2] = _3512596_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 }
@@ -3686,9 +3686,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512580_37 = PRIM_ISCONS(x);
-Obj _3512581_37 = primNot(_3512580_37);
-coraReturn(co, _3512581_37);
+Obj _3512590_37 = PRIM_ISCONS(x);
+Obj _3512591_37 = primNot(_3512590_37);
+coraReturn(co, _3512591_37);
 return;
 }
 }
@@ -3700,17 +3700,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512575_37 = PRIM_ISCONS(l);
-if (True == _3512575_37) {
-Obj _3512576_37 = PRIM_CAR(l);
-Obj _3512577_37 = PRIM_EQ(_3512576_37, x);
-if (True == _3512577_37) {
+Obj _3512585_37 = PRIM_ISCONS(l);
+if (True == _3512585_37) {
+Obj _3512586_37 = PRIM_CAR(l);
+Obj _3512587_37 = PRIM_EQ(_3512586_37, x);
+if (True == _3512587_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512578_37 = PRIM_CDR(l);
+Obj _3512588_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), x, _3512588_37);
 return;
 }
 } else {
@@ -3728,42 +3728,42 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 1:
 {
-Obj _3512567_37= co->res;
-Obj _3512566_37 = R[1];
-Obj _3512565_37 = R[2];
-Obj _3512568_37 = makeCons(co->gc, _3512567_37, Nil);
-Obj _3512569_37 = makeCons(co->gc, _3512566_37, _3512568_37);
-Obj _3512570_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512569_37);
-Obj _3512571_37 = makeCons(co->gc, _3512570_37, Nil);
-Obj _3512572_37 = makeCons(co->gc, _3512565_37, _3512571_37);
-Obj _3512573_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512572_37);
-coraReturn(co, _3512573_37);
+Obj _3512577_37= co->res;
+Obj _3512576_37 = R[1];
+Obj _3512575_37 = R[2];
+Obj _3512578_37 = makeCons(co->gc, _3512577_37, Nil);
+Obj _3512579_37 = makeCons(co->gc, _3512576_37, _3512578_37);
+Obj _3512580_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512579_37);
+Obj _3512581_37 = makeCons(co->gc, _3512580_37, Nil);
+Obj _3512582_37 = makeCons(co->gc, _3512575_37, _3512581_37);
+Obj _3512583_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512582_37);
+coraReturn(co, _3512583_37);
 return;
 }
 case 2:
 {
-Obj _3512566_37= co->res;
+Obj _3512576_37= co->res;
 Obj exp = R[1];
-Obj _3512565_37 = R[2];
-R[1] = _3512566_37;
-R[2] = _3512565_37;
+Obj _3512575_37 = R[2];
+R[1] = _3512576_37;
+R[2] = _3512575_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 3:
 {
-Obj _3512565_37= co->res;
+Obj _3512575_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512565_37;
+R[2] = _3512575_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 }
@@ -3774,9 +3774,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512563_37 = PRIM_CDR(exp);
+Obj _3512573_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512563_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3512573_37);
 return;
 }
 }
@@ -3789,43 +3789,43 @@ case 0:
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 1:
 {
-Obj _3512555_37= co->res;
-Obj _3512554_37 = R[1];
-Obj _3512553_37 = R[2];
-Obj _3512556_37 = makeCons(co->gc, _3512554_37, _3512555_37);
-Obj _3512557_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512556_37);
-Obj _3512558_37 = makeCons(co->gc, _3512557_37, Nil);
-Obj _3512559_37 = makeCons(co->gc, _3512553_37, _3512558_37);
-Obj _3512560_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512559_37);
-coraReturn(co, _3512560_37);
+Obj _3512565_37= co->res;
+Obj _3512564_37 = R[1];
+Obj _3512563_37 = R[2];
+Obj _3512566_37 = makeCons(co->gc, _3512564_37, _3512565_37);
+Obj _3512567_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512566_37);
+Obj _3512568_37 = makeCons(co->gc, _3512567_37, Nil);
+Obj _3512569_37 = makeCons(co->gc, _3512563_37, _3512568_37);
+Obj _3512570_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, _3512569_37);
+coraReturn(co, _3512570_37);
 return;
 }
 case 2:
 {
-Obj _3512554_37= co->res;
+Obj _3512564_37= co->res;
 Obj exp = R[1];
-Obj _3512553_37 = R[2];
-R[1] = _3512554_37;
-R[2] = _3512553_37;
+Obj _3512563_37 = R[2];
+R[1] = _3512564_37;
+R[2] = _3512563_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512551_37= co->res;
+Obj _3512561_37= co->res;
 Obj exp = R[1];
-Obj _3512552_37 = makeCons(co->gc, _3512551_37, Nil);
-Obj _3512553_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512552_37);
+Obj _3512562_37 = makeCons(co->gc, _3512561_37, Nil);
+Obj _3512563_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512562_37);
 R[1] = exp;
-R[2] = _3512553_37;
+R[2] = _3512563_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 }
@@ -3836,32 +3836,32 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512533_37 = PRIM_ISCONS(exp);
-if (True == _3512533_37) {
-Obj _3512534_37 = PRIM_CAR(exp);
-Obj _3512535_37 = PRIM_EQ(_3512534_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512535_37) {
-Obj _3512536_37 = PRIM_CDR(exp);
-coraReturn(co, _3512536_37);
-return;
-} else {
-Obj _3512537_37 = PRIM_CAR(exp);
-Obj _3512538_37 = PRIM_EQ(_3512537_37, getBinding(co, packageID, 140).name);
-if (True == _3512538_37) {
+Obj _3512543_37 = PRIM_ISCONS(exp);
+if (True == _3512543_37) {
+Obj _3512544_37 = PRIM_CAR(exp);
+Obj _3512545_37 = PRIM_EQ(_3512544_37, globalRef(co, getBinding(co, packageID, 146)));
+if (True == _3512545_37) {
+Obj _3512546_37 = PRIM_CDR(exp);
+coraReturn(co, _3512546_37);
+return;
+} else {
+Obj _3512547_37 = PRIM_CAR(exp);
+Obj _3512548_37 = PRIM_EQ(_3512547_37, getBinding(co, packageID, 141).name);
+if (True == _3512548_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 } else {
-Obj _3512545_37 = PRIM_CAR(exp);
-Obj _3512546_37 = PRIM_EQ(_3512545_37, getBinding(co, packageID, 139).name);
-if (True == _3512546_37) {
+Obj _3512555_37 = PRIM_CAR(exp);
+Obj _3512556_37 = PRIM_EQ(_3512555_37, getBinding(co, packageID, 140).name);
+if (True == _3512556_37) {
 coraReturn(co, exp);
 return;
 } else {
 R[1] = exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), exp);
 return;
 }
 }
@@ -3873,38 +3873,38 @@ return;
 }
 case 1:
 {
-Obj _3512541_37= co->res;
-Obj _3512539_37 = R[1];
-Obj _3512542_37 = makeCons(co->gc, _3512541_37, Nil);
-Obj _3512543_37 = makeCons(co->gc, _3512539_37, _3512542_37);
-Obj _3512544_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512543_37);
-coraReturn(co, _3512544_37);
+Obj _3512551_37= co->res;
+Obj _3512549_37 = R[1];
+Obj _3512552_37 = makeCons(co->gc, _3512551_37, Nil);
+Obj _3512553_37 = makeCons(co->gc, _3512549_37, _3512552_37);
+Obj _3512554_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512553_37);
+coraReturn(co, _3512554_37);
 return;
 }
 case 2:
 {
-Obj _3512540_37= co->res;
-Obj _3512539_37 = R[1];
-R[1] = _3512539_37;
+Obj _3512550_37= co->res;
+Obj _3512549_37 = R[1];
+R[1] = _3512549_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512540_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), _3512550_37);
 return;
 }
 case 3:
 {
-Obj _3512539_37= co->res;
+Obj _3512549_37= co->res;
 Obj exp = R[1];
-R[1] = _3512539_37;
+R[1] = _3512549_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512548_37= co->res;
+Obj _3512558_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512548_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512558_37);
 return;
 }
 }
@@ -3915,14 +3915,14 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512547_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512547_37) {
+Obj _3512557_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3512557_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp1);
 return;
 }
 }
@@ -3935,7 +3935,7 @@ case 0:
 {
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), exp, globalRef(co, getBinding(co, packageID, 147)));
 return;
 }
 }
@@ -3947,14 +3947,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512523_37 = PRIM_EQ(Nil, macros);
-if (True == _3512523_37) {
+Obj _3512533_37 = PRIM_EQ(Nil, macros);
+if (True == _3512533_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512530_37 = PRIM_CAR(macros);
+Obj _3512540_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512530_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512540_37);
 return;
 }
 }
@@ -3966,24 +3966,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512451_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512526_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512526_37) {
-Obj _3512527_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512528_37 = PRIM_CAR(item);
-Obj _3512529_37 = PRIM_EQ(_3512527_37, _3512528_37);
-if (True == _3512529_37) {
+Obj _3512461_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3512536_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512536_37) {
+Obj _3512537_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512538_37 = PRIM_CAR(item);
+Obj _3512539_37 = PRIM_EQ(_3512537_37, _3512538_37);
+if (True == _3512539_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, True);
+coraCall1(co, _3512461_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, _3512461_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, _3512461_37, False);
 return;
 }
 }
@@ -3994,16 +3994,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512452_37 = R[1];
-if (True == _3512452_37) {
-Obj _3512524_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512462_37 = R[1];
+if (True == _3512462_37) {
+Obj _3512534_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512524_37, closureRef(R[0], 1));
+coraCall1(co, _3512534_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512525_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3512535_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512525_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), _3512535_37);
 return;
 }
 }
@@ -4016,10 +4016,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512519_37 = makeCons(co->gc, n, v);
-Obj _3512520_37 = makeCons(co->gc, _3512519_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512521_37 = primSet(co, getBinding(co, packageID, 146).name, _3512520_37);
-coraReturn(co, _3512521_37);
+Obj _3512529_37 = makeCons(co->gc, n, v);
+Obj _3512530_37 = makeCons(co->gc, _3512529_37, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3512531_37 = primSet(co, getBinding(co, packageID, 147).name, _3512530_37);
+coraReturn(co, _3512531_37);
 return;
 }
 }
@@ -4032,7 +4032,7 @@ case 0:
 Obj f = R[1];
 Obj l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, f, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, f, l);
 return;
 }
 }
@@ -4045,31 +4045,31 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512509_37 = PRIM_ISCONS(l);
-if (True == _3512509_37) {
-Obj _3512510_37 = PRIM_CAR(l);
+Obj _3512519_37 = PRIM_ISCONS(l);
+if (True == _3512519_37) {
+Obj _3512520_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512510_37);
+coraCall1(co, f, _3512520_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
 return;
 }
 }
 case 1:
 {
-Obj _3512511_37= co->res;
+Obj _3512521_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512512_37 = makeCons(co->gc, _3512511_37, res);
-Obj _3512513_37 = PRIM_CDR(l);
+Obj _3512522_37 = makeCons(co->gc, _3512521_37, res);
+Obj _3512523_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512512_37, f, _3512513_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), _3512522_37, f, _3512523_37);
 return;
 }
 }
@@ -4081,13 +4081,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512502_37 = PRIM_ISCONS(l);
-if (True == _3512502_37) {
-Obj _3512503_37 = PRIM_CAR(l);
-Obj _3512504_37 = makeCons(co->gc, _3512503_37, res);
-Obj _3512505_37 = PRIM_CDR(l);
+Obj _3512512_37 = PRIM_ISCONS(l);
+if (True == _3512512_37) {
+Obj _3512513_37 = PRIM_CAR(l);
+Obj _3512514_37 = makeCons(co->gc, _3512513_37, res);
+Obj _3512515_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512504_37, _3512505_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), _3512514_37, _3512515_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4102,8 +4102,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512500_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512500_37);
+Obj _3512510_37 = PRIM_ISCONS(x);
+coraReturn(co, _3512510_37);
 return;
 }
 }
@@ -4114,13 +4114,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512492_37 = PRIM_ISCONS(exp);
-if (True == _3512492_37) {
-Obj _3512493_37 = PRIM_CAR(exp);
-Obj _3512494_37 = PRIM_CDR(exp);
-R[1] = _3512493_37;
+Obj _3512502_37 = PRIM_ISCONS(exp);
+if (True == _3512502_37) {
+Obj _3512503_37 = PRIM_CAR(exp);
+Obj _3512504_37 = PRIM_CDR(exp);
+R[1] = _3512503_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512494_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3512504_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4129,12 @@ return;
 }
 case 1:
 {
-Obj _3512495_37= co->res;
-Obj _3512493_37 = R[1];
-Obj _3512496_37 = makeCons(co->gc, _3512495_37, Nil);
-Obj _3512497_37 = makeCons(co->gc, _3512493_37, _3512496_37);
-Obj _3512498_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512497_37);
-coraReturn(co, _3512498_37);
+Obj _3512505_37= co->res;
+Obj _3512503_37 = R[1];
+Obj _3512506_37 = makeCons(co->gc, _3512505_37, Nil);
+Obj _3512507_37 = makeCons(co->gc, _3512503_37, _3512506_37);
+Obj _3512508_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3512507_37);
+coraReturn(co, _3512508_37);
 return;
 }
 }
@@ -4145,10 +4145,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512488_37 = PRIM_CDR(x);
-Obj _3512489_37 = PRIM_CDR(_3512488_37);
-Obj _3512490_37 = PRIM_CDR(_3512489_37);
-coraReturn(co, _3512490_37);
+Obj _3512498_37 = PRIM_CDR(x);
+Obj _3512499_37 = PRIM_CDR(_3512498_37);
+Obj _3512500_37 = PRIM_CDR(_3512499_37);
+coraReturn(co, _3512500_37);
 return;
 }
 }
@@ -4159,11 +4159,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512483_37 = PRIM_CDR(x);
-Obj _3512484_37 = PRIM_CDR(_3512483_37);
-Obj _3512485_37 = PRIM_CDR(_3512484_37);
-Obj _3512486_37 = PRIM_CAR(_3512485_37);
-coraReturn(co, _3512486_37);
+Obj _3512493_37 = PRIM_CDR(x);
+Obj _3512494_37 = PRIM_CDR(_3512493_37);
+Obj _3512495_37 = PRIM_CDR(_3512494_37);
+Obj _3512496_37 = PRIM_CAR(_3512495_37);
+coraReturn(co, _3512496_37);
 return;
 }
 }
@@ -4174,10 +4174,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512479_37 = PRIM_CDR(x);
-Obj _3512480_37 = PRIM_CDR(_3512479_37);
-Obj _3512481_37 = PRIM_CAR(_3512480_37);
-coraReturn(co, _3512481_37);
+Obj _3512489_37 = PRIM_CDR(x);
+Obj _3512490_37 = PRIM_CDR(_3512489_37);
+Obj _3512491_37 = PRIM_CAR(_3512490_37);
+coraReturn(co, _3512491_37);
 return;
 }
 }
@@ -4188,9 +4188,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512476_37 = PRIM_CDR(x);
-Obj _3512477_37 = PRIM_CDR(_3512476_37);
-coraReturn(co, _3512477_37);
+Obj _3512486_37 = PRIM_CDR(x);
+Obj _3512487_37 = PRIM_CDR(_3512486_37);
+coraReturn(co, _3512487_37);
 return;
 }
 }
@@ -4201,9 +4201,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512473_37 = PRIM_CAR(x);
-Obj _3512474_37 = PRIM_CDR(_3512473_37);
-coraReturn(co, _3512474_37);
+Obj _3512483_37 = PRIM_CAR(x);
+Obj _3512484_37 = PRIM_CDR(_3512483_37);
+coraReturn(co, _3512484_37);
 return;
 }
 }
@@ -4214,9 +4214,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512470_37 = PRIM_CAR(x);
-Obj _3512471_37 = PRIM_CAR(_3512470_37);
-coraReturn(co, _3512471_37);
+Obj _3512480_37 = PRIM_CAR(x);
+Obj _3512481_37 = PRIM_CAR(_3512480_37);
+coraReturn(co, _3512481_37);
 return;
 }
 }
@@ -4227,9 +4227,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512467_37 = PRIM_CDR(x);
-Obj _3512468_37 = PRIM_CAR(_3512467_37);
-coraReturn(co, _3512468_37);
+Obj _3512477_37 = PRIM_CDR(x);
+Obj _3512478_37 = PRIM_CAR(_3512477_37);
+coraReturn(co, _3512478_37);
 return;
 }
 }
@@ -4240,8 +4240,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512465_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512465_37);
+Obj _3512475_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3512475_37);
 return;
 }
 }
diff --git a/init.cora b/init.cora
index 735ab7d..6ee53c0 100644
--- a/init.cora
+++ b/init.cora
@@ -198,7 +198,7 @@
 	 ((pair? pat) (cond
 			((= (car pat) 'quote) (list 'if (list '= pat expr) body (list cc)))
 			((= (car pat) 'cons) (cora/init#match-cons-expander pat expr body cc))))
-	 (true (error (str "match fail " pat))))))
+	 (true (error (list "match fail" pat))))))
 
 (defun cora/init#extract-rule-action (rules cc)
   (let action (car (cdr rules))
@@ -412,7 +412,7 @@
 				   read-file-as-sexp
 				   value value-or
 				   apply load-so import load
-				   try throw
+				   try throw error symbol-cooked?
 				   reverse map macroexpand elem?  length filter append))
 
 (set 'cora/init#cadr cadr)
@@ -446,6 +446,8 @@
 (set 'cora/init#import import)
 (set 'cora/init#try try)
 (set 'cora/init#throw throw)
+(set 'cora/init#error error)
+(set 'cora/init#symbol-cooked? symbol-cooked?)
 (set 'cora/init#reverse reverse)
 (set 'cora/init#map map)
 (set 'cora/init#macroexpand macroexpand)
diff --git a/lib/eval.cora b/lib/eval.cora
index c2244f6..30d6c80 100644
--- a/lib/eval.cora
+++ b/lib/eval.cora
@@ -17,6 +17,7 @@
   (set 'gensym (lambda () (gensym)))
   (set 'symbol? (symbol?))
   (set 'not (not))
+  (set 'integer? (integer?))
   (set 'string? (string?))
 
   (defun var-with-ns (var ns)
diff --git a/lib/toc.c b/lib/toc.c
index ac5b776..7eda12e 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -279,7 +279,7 @@ __symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
 __symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#index"));
 __symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
 __symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[127] = bindSymbol(co, intern("cora/init#error"));
 __symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
@@ -298,152 +298,152 @@ return;
 }
 case 1:
 {
-Obj _3518160_37= co->res;
-Obj _3518166_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj _3518172_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518194_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj _3518213_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
-Obj _3518223_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
-Obj _3518264_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj _3518303_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj _3518355_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj _3518356_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518370_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj _3518371_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518384_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj _3518394_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, _3518394_37);
+Obj _3518189_37= co->res;
+Obj _3518195_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj _3518201_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj _3518223_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
+Obj _3518242_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
+Obj _3518252_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
+Obj _3518293_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
+Obj _3518332_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
+Obj _3518384_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
+Obj _3518385_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj _3518399_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
+Obj _3518400_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj _3518413_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
+Obj _3518423_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
+coraReturn(co, _3518423_37);
 return;
 }
 case 2:
 {
-Obj _3516778_37= co->res;
-Obj _3516779_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516794_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516800_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516810_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516811_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516818_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516819_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516820_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516819_37);
-Obj _3516821_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516820_37);
-Obj _3516822_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516823_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516822_37);
-Obj _3516824_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516823_37);
-Obj _3516825_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516826_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516825_37);
-Obj _3516827_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516826_37);
-Obj _3516828_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516829_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516828_37);
-Obj _3516830_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516829_37);
-Obj _3516831_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516832_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516831_37);
-Obj _3516833_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516832_37);
-Obj _3516834_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516835_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516834_37);
-Obj _3516836_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516835_37);
-Obj _3516837_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516838_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516837_37);
-Obj _3516839_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516838_37);
-Obj _3516840_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516841_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516840_37);
-Obj _3516842_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516841_37);
-Obj _3516843_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516844_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516843_37);
-Obj _3516845_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516844_37);
-Obj _3516846_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516847_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516846_37);
-Obj _3516848_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516847_37);
-Obj _3516849_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516850_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516849_37);
-Obj _3516851_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516850_37);
-Obj _3516852_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516853_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516852_37);
-Obj _3516854_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516853_37);
-Obj _3516855_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516856_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516855_37);
-Obj _3516857_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516856_37);
-Obj _3516858_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516859_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516858_37);
-Obj _3516860_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516859_37);
-Obj _3516861_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516862_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516861_37);
-Obj _3516863_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516862_37);
-Obj _3516864_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516865_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516864_37);
-Obj _3516866_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516865_37);
-Obj _3516867_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516868_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516867_37);
-Obj _3516869_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516868_37);
-Obj _3516870_37 = makeCons(co->gc, _3516869_37, Nil);
-Obj _3516871_37 = makeCons(co->gc, _3516866_37, _3516870_37);
-Obj _3516872_37 = makeCons(co->gc, _3516863_37, _3516871_37);
-Obj _3516873_37 = makeCons(co->gc, _3516860_37, _3516872_37);
-Obj _3516874_37 = makeCons(co->gc, _3516857_37, _3516873_37);
-Obj _3516875_37 = makeCons(co->gc, _3516854_37, _3516874_37);
-Obj _3516876_37 = makeCons(co->gc, _3516851_37, _3516875_37);
-Obj _3516877_37 = makeCons(co->gc, _3516848_37, _3516876_37);
-Obj _3516878_37 = makeCons(co->gc, _3516845_37, _3516877_37);
-Obj _3516879_37 = makeCons(co->gc, _3516842_37, _3516878_37);
-Obj _3516880_37 = makeCons(co->gc, _3516839_37, _3516879_37);
-Obj _3516881_37 = makeCons(co->gc, _3516836_37, _3516880_37);
-Obj _3516882_37 = makeCons(co->gc, _3516833_37, _3516881_37);
-Obj _3516883_37 = makeCons(co->gc, _3516830_37, _3516882_37);
-Obj _3516884_37 = makeCons(co->gc, _3516827_37, _3516883_37);
-Obj _3516885_37 = makeCons(co->gc, _3516824_37, _3516884_37);
-Obj _3516886_37 = makeCons(co->gc, _3516821_37, _3516885_37);
-Obj _3516887_37 = primSet(co, getBinding(co, packageID, 122).name, _3516886_37);
-Obj _3516891_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516894_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516897_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516902_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517096_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517107_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517118_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517179_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517354_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517427_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj _3517430_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3517567_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3517590_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj _3517667_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj _3517698_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj _3517704_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj _3517709_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj _3517718_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj _3517769_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj _3517777_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj _3517784_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj _3517789_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj _3517795_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj _3517796_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj _3517803_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj _3517810_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj _3518097_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj _3518111_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj _3518133_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj _3518135_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj _3518139_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518140_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518141_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj _3518142_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518143_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518150_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj _3518157_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj _3516807_37= co->res;
+Obj _3516808_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj _3516823_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3516829_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3516839_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3516840_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3516847_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3516848_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3516849_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516848_37);
+Obj _3516850_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516849_37);
+Obj _3516851_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3516852_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516851_37);
+Obj _3516853_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516852_37);
+Obj _3516854_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3516855_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516854_37);
+Obj _3516856_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516855_37);
+Obj _3516857_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3516858_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516857_37);
+Obj _3516859_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516858_37);
+Obj _3516860_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3516861_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516860_37);
+Obj _3516862_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516861_37);
+Obj _3516863_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3516864_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516863_37);
+Obj _3516865_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516864_37);
+Obj _3516866_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3516867_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516866_37);
+Obj _3516868_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516867_37);
+Obj _3516869_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3516870_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516869_37);
+Obj _3516871_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516870_37);
+Obj _3516872_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3516873_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516872_37);
+Obj _3516874_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516873_37);
+Obj _3516875_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3516876_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516875_37);
+Obj _3516877_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516876_37);
+Obj _3516878_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3516879_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516878_37);
+Obj _3516880_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516879_37);
+Obj _3516881_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3516882_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516881_37);
+Obj _3516883_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516882_37);
+Obj _3516884_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3516885_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516884_37);
+Obj _3516886_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516885_37);
+Obj _3516887_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3516888_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516887_37);
+Obj _3516889_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516888_37);
+Obj _3516890_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3516891_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516890_37);
+Obj _3516892_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516891_37);
+Obj _3516893_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3516894_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516893_37);
+Obj _3516895_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516894_37);
+Obj _3516896_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3516897_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516896_37);
+Obj _3516898_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516897_37);
+Obj _3516899_37 = makeCons(co->gc, _3516898_37, Nil);
+Obj _3516900_37 = makeCons(co->gc, _3516895_37, _3516899_37);
+Obj _3516901_37 = makeCons(co->gc, _3516892_37, _3516900_37);
+Obj _3516902_37 = makeCons(co->gc, _3516889_37, _3516901_37);
+Obj _3516903_37 = makeCons(co->gc, _3516886_37, _3516902_37);
+Obj _3516904_37 = makeCons(co->gc, _3516883_37, _3516903_37);
+Obj _3516905_37 = makeCons(co->gc, _3516880_37, _3516904_37);
+Obj _3516906_37 = makeCons(co->gc, _3516877_37, _3516905_37);
+Obj _3516907_37 = makeCons(co->gc, _3516874_37, _3516906_37);
+Obj _3516908_37 = makeCons(co->gc, _3516871_37, _3516907_37);
+Obj _3516909_37 = makeCons(co->gc, _3516868_37, _3516908_37);
+Obj _3516910_37 = makeCons(co->gc, _3516865_37, _3516909_37);
+Obj _3516911_37 = makeCons(co->gc, _3516862_37, _3516910_37);
+Obj _3516912_37 = makeCons(co->gc, _3516859_37, _3516911_37);
+Obj _3516913_37 = makeCons(co->gc, _3516856_37, _3516912_37);
+Obj _3516914_37 = makeCons(co->gc, _3516853_37, _3516913_37);
+Obj _3516915_37 = makeCons(co->gc, _3516850_37, _3516914_37);
+Obj _3516916_37 = primSet(co, getBinding(co, packageID, 122).name, _3516915_37);
+Obj _3516920_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3516923_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3516926_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3516931_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3517125_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj _3517136_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj _3517147_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj _3517208_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj _3517383_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj _3517456_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
+Obj _3517459_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj _3517596_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3517619_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
+Obj _3517696_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
+Obj _3517727_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
+Obj _3517733_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
+Obj _3517738_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
+Obj _3517747_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj _3517798_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
+Obj _3517806_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
+Obj _3517813_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3517818_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj _3517824_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
+Obj _3517825_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
+Obj _3517832_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
+Obj _3517839_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj _3518126_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
+Obj _3518140_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj _3518162_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
+Obj _3518164_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
+Obj _3518168_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj _3518169_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj _3518170_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
+Obj _3518171_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj _3518172_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj _3518179_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
+Obj _3518186_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
 saveCont(co, clofun144, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516777_37= co->res;
+Obj _3516806_37= co->res;
 saveCont(co, clofun144, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516776_37= co->res;
+Obj _3516805_37= co->res;
 saveCont(co, clofun144, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -457,9 +457,9 @@ case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518385_37 = primGenSym(co);
-Obj globals = _3518385_37;
-Obj _3518386_37 = primSet(co, globals, Nil);
+Obj _3518414_37 = primGenSym(co);
+Obj globals = _3518414_37;
+Obj _3518415_37 = primSet(co, globals, Nil);
 R[1] = from;
 R[2] = to;
 R[3] = globals;
@@ -469,7 +469,7 @@ return;
 }
 case 1:
 {
-Obj _3518393_37= co->res;
+Obj _3518422_37= co->res;
 Obj stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
@@ -477,20 +477,20 @@ return;
 }
 case 2:
 {
-Obj _3518392_37= co->res;
+Obj _3518421_37= co->res;
 Obj bc = R[1];
 Obj stream = R[2];
 R[1] = stream;
 saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518392_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518421_37);
 return;
 }
 case 3:
 {
-Obj _3518391_37= co->res;
+Obj _3518420_37= co->res;
 Obj globals = R[1];
 Obj bc = R[2];
-Obj stream = _3518391_37;
+Obj stream = _3518420_37;
 R[1] = bc;
 R[2] = stream;
 saveCont(co, clofun143, 2, R);
@@ -499,10 +499,10 @@ return;
 }
 case 4:
 {
-Obj _3518390_37= co->res;
+Obj _3518419_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
-Obj bc = _3518390_37;
+Obj bc = _3518419_37;
 R[1] = globals;
 R[2] = bc;
 saveCont(co, clofun143, 3, R);
@@ -511,36 +511,36 @@ return;
 }
 case 5:
 {
-Obj _3518389_37= co->res;
-Obj _3518387_37 = R[1];
+Obj _3518418_37= co->res;
+Obj _3518416_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 saveCont(co, clofun143, 4, R);
-coraCall1(co, _3518387_37, _3518389_37);
+coraCall1(co, _3518416_37, _3518418_37);
 return;
 }
 case 6:
 {
-Obj _3518388_37= co->res;
-Obj _3518387_37 = R[1];
+Obj _3518417_37= co->res;
+Obj _3518416_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518387_37;
+R[1] = _3518416_37;
 R[2] = to;
 R[3] = globals;
 saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518388_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518417_37);
 return;
 }
 case 7:
 {
-Obj _3518387_37= co->res;
+Obj _3518416_37= co->res;
 Obj from = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518387_37;
+R[1] = _3518416_37;
 R[2] = to;
 R[3] = globals;
 saveCont(co, clofun143, 6, R);
@@ -561,7 +561,7 @@ return;
 }
 case 1:
 {
-Obj _3518379_37= co->res;
+Obj _3518408_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -569,7 +569,7 @@ return;
 }
 case 2:
 {
-Obj _3518378_37= co->res;
+Obj _3518407_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun142, 1, R);
@@ -578,7 +578,7 @@ return;
 }
 case 3:
 {
-Obj _3518381_37= co->res;
+Obj _3518410_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -586,7 +586,7 @@ return;
 }
 case 4:
 {
-Obj _3518380_37= co->res;
+Obj _3518409_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun142, 3, R);
@@ -595,7 +595,7 @@ return;
 }
 case 5:
 {
-Obj _3518383_37= co->res;
+Obj _3518412_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -603,7 +603,7 @@ return;
 }
 case 6:
 {
-Obj _3518382_37= co->res;
+Obj _3518411_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun142, 5, R);
@@ -612,36 +612,36 @@ return;
 }
 case 7:
 {
-Obj _3518375_37= co->res;
-Obj _3516774_37 = R[1];
+Obj _3518404_37= co->res;
+Obj _3516803_37 = R[1];
 Obj sexp = R[2];
-if (True == _3518375_37) {
-Obj _3518376_37 = PRIM_CAR(sexp);
-Obj _3518377_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518376_37);
-if (True == _3518377_37) {
+if (True == _3518404_37) {
+Obj _3518405_37 = PRIM_CAR(sexp);
+Obj _3518406_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518405_37);
+if (True == _3518406_37) {
 R[1] = sexp;
 saveCont(co, clofun142, 2, R);
-coraCall1(co, _3516774_37, True);
+coraCall1(co, _3516803_37, True);
 return;
 } else {
 R[1] = sexp;
 saveCont(co, clofun142, 4, R);
-coraCall1(co, _3516774_37, False);
+coraCall1(co, _3516803_37, False);
 return;
 }
 } else {
 R[1] = sexp;
 saveCont(co, clofun142, 6, R);
-coraCall1(co, _3516774_37, False);
+coraCall1(co, _3516803_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518372_37= co->res;
-Obj sexp = _3518372_37;
-Obj _3516774_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
-R[1] = _3516774_37;
+Obj _3518401_37= co->res;
+Obj sexp = _3518401_37;
+Obj _3516803_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
+R[1] = _3516803_37;
 R[2] = sexp;
 saveCont(co, clofun142, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
@@ -654,14 +654,14 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516775_37 = R[1];
-if (True == _3516775_37) {
-Obj _3518373_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518373_37);
+Obj _3516804_37 = R[1];
+if (True == _3516804_37) {
+Obj _3518402_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, _3518402_37);
 return;
 } else {
-Obj _3518374_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518374_37);
+Obj _3518403_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, _3518403_37);
 return;
 }
 }
@@ -672,27 +672,27 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = R[1];
-Obj _3516763_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516762_37);
-Obj _3518365_37 = PRIM_ISCONS(_3516762_37);
-if (True == _3518365_37) {
-Obj _3518366_37 = PRIM_CAR(_3516762_37);
-Obj _3518367_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518366_37);
-if (True == _3518367_37) {
-Obj _3518368_37 = PRIM_CDR(_3516762_37);
-Obj more = _3518368_37;
-Obj _3518369_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3516791_37 = R[1];
+Obj _3516792_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516791_37);
+Obj _3518394_37 = PRIM_ISCONS(_3516791_37);
+if (True == _3518394_37) {
+Obj _3518395_37 = PRIM_CAR(_3516791_37);
+Obj _3518396_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518395_37);
+if (True == _3518396_37) {
+Obj _3518397_37 = PRIM_CDR(_3516791_37);
+Obj more = _3518397_37;
+Obj _3518398_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518369_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518398_37, makeNative(co->gc, 2, clofun139, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516792_37);
 return;
 }
 }
@@ -728,26 +728,26 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516764_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj _3518360_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518360_37) {
-Obj _3518361_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518362_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518361_37);
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518363_37;
-Obj _3518364_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3516793_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
+Obj _3518389_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518389_37) {
+Obj _3518390_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518391_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518390_37);
+if (True == _3518391_37) {
+Obj _3518392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518392_37;
+Obj _3518393_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518364_37, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518393_37, makeNative(co->gc, 2, clofun136, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516793_37);
 return;
 }
 }
@@ -783,9 +783,9 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518357_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518386_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518357_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518386_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
 return;
 }
 }
@@ -803,9 +803,9 @@ return;
 }
 case 1:
 {
-Obj _3518358_37= co->res;
-Obj _3518359_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518358_37);
-coraReturn(co, _3518359_37);
+Obj _3518387_37= co->res;
+Obj _3518388_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518387_37);
+coraReturn(co, _3518388_37);
 return;
 }
 }
@@ -833,50 +833,50 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516755_37 = R[1];
-Obj _3516756_37 = R[2];
-Obj _3516757_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516755_37, _3516756_37);
-Obj _3518343_37 = PRIM_ISCONS(_3516755_37);
-if (True == _3518343_37) {
-Obj _3518344_37 = PRIM_CAR(_3516755_37);
-Obj _3518345_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518344_37);
-if (True == _3518345_37) {
-Obj _3518346_37 = PRIM_CDR(_3516755_37);
-Obj _3518347_37 = PRIM_ISCONS(_3518346_37);
-if (True == _3518347_37) {
-Obj _3518348_37 = PRIM_CDR(_3516755_37);
-Obj _3518349_37 = PRIM_CAR(_3518348_37);
-Obj name = _3518349_37;
-Obj _3518350_37 = PRIM_CDR(_3516755_37);
-Obj _3518351_37 = PRIM_CDR(_3518350_37);
-Obj more = _3518351_37;
+Obj _3516784_37 = R[1];
+Obj _3516785_37 = R[2];
+Obj _3516786_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516784_37, _3516785_37);
+Obj _3518372_37 = PRIM_ISCONS(_3516784_37);
+if (True == _3518372_37) {
+Obj _3518373_37 = PRIM_CAR(_3516784_37);
+Obj _3518374_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518373_37);
+if (True == _3518374_37) {
+Obj _3518375_37 = PRIM_CDR(_3516784_37);
+Obj _3518376_37 = PRIM_ISCONS(_3518375_37);
+if (True == _3518376_37) {
+Obj _3518377_37 = PRIM_CDR(_3516784_37);
+Obj _3518378_37 = PRIM_CAR(_3518377_37);
+Obj name = _3518378_37;
+Obj _3518379_37 = PRIM_CDR(_3516784_37);
+Obj _3518380_37 = PRIM_CDR(_3518379_37);
+Obj more = _3518380_37;
 R[1] = name;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516756_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516785_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516786_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518352_37= co->res;
+Obj _3518381_37= co->res;
 Obj name = R[1];
-Obj _3518353_37 = makeCons(co->gc, name, _3518352_37);
-Obj _3518354_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518353_37);
-coraReturn(co, _3518354_37);
+Obj _3518382_37 = makeCons(co->gc, name, _3518381_37);
+Obj _3518383_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518382_37);
+coraReturn(co, _3518383_37);
 return;
 }
 }
@@ -886,69 +886,69 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516758_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518322_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518322_37) {
-Obj _3518323_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518324_37 = PRIM_ISCONS(_3518323_37);
-if (True == _3518324_37) {
-Obj _3518325_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518326_37 = PRIM_CAR(_3518325_37);
-Obj _3518327_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518326_37);
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518329_37 = PRIM_CDR(_3518328_37);
-Obj _3518330_37 = PRIM_ISCONS(_3518329_37);
-if (True == _3518330_37) {
-Obj _3518331_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_CDR(_3518331_37);
-Obj _3518333_37 = PRIM_CAR(_3518332_37);
-Obj pkg = _3518333_37;
-Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518335_37 = PRIM_CDR(_3518334_37);
-Obj _3518336_37 = PRIM_CDR(_3518335_37);
-Obj _3518337_37 = PRIM_EQ(Nil, _3518336_37);
-if (True == _3518337_37) {
-Obj _3518338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518338_37;
-Obj _3518339_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518340_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518339_37);
-R[1] = _3518340_37;
+Obj _3516787_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518351_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518351_37) {
+Obj _3518352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518353_37 = PRIM_ISCONS(_3518352_37);
+if (True == _3518353_37) {
+Obj _3518354_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518355_37 = PRIM_CAR(_3518354_37);
+Obj _3518356_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518355_37);
+if (True == _3518356_37) {
+Obj _3518357_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518358_37 = PRIM_CDR(_3518357_37);
+Obj _3518359_37 = PRIM_ISCONS(_3518358_37);
+if (True == _3518359_37) {
+Obj _3518360_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518361_37 = PRIM_CDR(_3518360_37);
+Obj _3518362_37 = PRIM_CAR(_3518361_37);
+Obj pkg = _3518362_37;
+Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518364_37 = PRIM_CDR(_3518363_37);
+Obj _3518365_37 = PRIM_CDR(_3518364_37);
+Obj _3518366_37 = PRIM_EQ(Nil, _3518365_37);
+if (True == _3518366_37) {
+Obj _3518367_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518367_37;
+Obj _3518368_37 = makeCons(co->gc, pkg, Nil);
+Obj _3518369_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518368_37);
+R[1] = _3518369_37;
 saveCont(co, clofun130, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516787_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518341_37= co->res;
-Obj _3518340_37 = R[1];
-Obj _3518342_37 = makeCons(co->gc, _3518340_37, _3518341_37);
-coraReturn(co, _3518342_37);
+Obj _3518370_37= co->res;
+Obj _3518369_37 = R[1];
+Obj _3518371_37 = makeCons(co->gc, _3518369_37, _3518370_37);
+coraReturn(co, _3518371_37);
 return;
 }
 }
@@ -958,48 +958,48 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516759_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518310_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518310_37) {
-Obj _3518311_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
-if (True == _3518312_37) {
-Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_CAR(_3518313_37);
-Obj _3518315_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj symbols = _3518317_37;
-Obj _3518318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518318_37;
-Obj _3518319_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518319_37;
+Obj _3516788_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518339_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518339_37) {
+Obj _3518340_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518341_37 = PRIM_ISCONS(_3518340_37);
+if (True == _3518341_37) {
+Obj _3518342_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518343_37 = PRIM_CAR(_3518342_37);
+Obj _3518344_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518343_37);
+if (True == _3518344_37) {
+Obj _3518345_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518346_37 = PRIM_CDR(_3518345_37);
+Obj symbols = _3518346_37;
+Obj _3518347_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518347_37;
+Obj _3518348_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
+R[1] = _3518348_37;
 saveCont(co, clofun129, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516788_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518320_37= co->res;
-Obj _3518319_37 = R[1];
-Obj _3518321_37 = makeCons(co->gc, _3518319_37, _3518320_37);
-coraReturn(co, _3518321_37);
+Obj _3518349_37= co->res;
+Obj _3518348_37 = R[1];
+Obj _3518350_37 = makeCons(co->gc, _3518348_37, _3518349_37);
+coraReturn(co, _3518350_37);
 return;
 }
 }
@@ -1009,33 +1009,33 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516760_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518305_37);
-if (True == _3518306_37) {
-Obj _3518307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518307_37;
+Obj _3516789_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3518333_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518333_37) {
+Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518335_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518334_37);
+if (True == _3518335_37) {
+Obj _3518336_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518336_37;
 saveCont(co, clofun128, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, _3516789_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518308_37= co->res;
-Obj _3518309_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518308_37);
-coraReturn(co, _3518309_37);
+Obj _3518337_37= co->res;
+Obj _3518338_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518337_37);
+coraReturn(co, _3518338_37);
 return;
 }
 }
@@ -1056,73 +1056,73 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516747_37 = R[1];
-Obj _3516748_37 = R[2];
-Obj _3516749_37 = R[3];
-Obj _3516750_37 = R[4];
-Obj _3518265_37 = PRIM_EQ(Nil, _3516747_37);
-if (True == _3518265_37) {
-R[1] = _3516749_37;
-R[2] = _3516750_37;
+Obj _3516776_37 = R[1];
+Obj _3516777_37 = R[2];
+Obj _3516778_37 = R[3];
+Obj _3516779_37 = R[4];
+Obj _3518294_37 = PRIM_EQ(Nil, _3516776_37);
+if (True == _3518294_37) {
+R[1] = _3516778_37;
+R[2] = _3516779_37;
 saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516748_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516777_37);
 return;
 } else {
-Obj _3516752_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516747_37, _3516748_37, _3516749_37, _3516750_37);
-Obj _3518292_37 = PRIM_ISCONS(_3516747_37);
-if (True == _3518292_37) {
-Obj _3518293_37 = PRIM_CAR(_3516747_37);
-Obj _3518294_37 = PRIM_ISCONS(_3518293_37);
-if (True == _3518294_37) {
-Obj _3518295_37 = PRIM_CAR(_3516747_37);
-Obj _3518296_37 = PRIM_CAR(_3518295_37);
-Obj _3518297_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518296_37);
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CAR(_3516747_37);
-Obj _3518299_37 = PRIM_CDR(_3518298_37);
-Obj exp = _3518299_37;
-Obj _3518300_37 = PRIM_CDR(_3516747_37);
-Obj more = _3518300_37;
-Obj _3518301_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518302_37 = makeCons(co->gc, _3518301_37, _3516748_37);
+Obj _3516781_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516776_37, _3516777_37, _3516778_37, _3516779_37);
+Obj _3518321_37 = PRIM_ISCONS(_3516776_37);
+if (True == _3518321_37) {
+Obj _3518322_37 = PRIM_CAR(_3516776_37);
+Obj _3518323_37 = PRIM_ISCONS(_3518322_37);
+if (True == _3518323_37) {
+Obj _3518324_37 = PRIM_CAR(_3516776_37);
+Obj _3518325_37 = PRIM_CAR(_3518324_37);
+Obj _3518326_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518325_37);
+if (True == _3518326_37) {
+Obj _3518327_37 = PRIM_CAR(_3516776_37);
+Obj _3518328_37 = PRIM_CDR(_3518327_37);
+Obj exp = _3518328_37;
+Obj _3518329_37 = PRIM_CDR(_3516776_37);
+Obj more = _3518329_37;
+Obj _3518330_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
+Obj _3518331_37 = makeCons(co->gc, _3518330_37, _3516777_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518302_37, _3516749_37, _3516750_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518331_37, _3516778_37, _3516779_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516781_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518267_37= co->res;
-Obj _3516750_37 = R[1];
-Obj _3518266_37 = R[2];
+Obj _3518296_37= co->res;
+Obj _3516779_37 = R[1];
+Obj _3518295_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516750_37, _3518266_37, _3518267_37);
+coraCall2(co, _3516779_37, _3518295_37, _3518296_37);
 return;
 }
 case 2:
 {
-Obj _3518266_37= co->res;
-Obj _3516749_37 = R[1];
-Obj _3516750_37 = R[2];
-R[1] = _3516750_37;
-R[2] = _3518266_37;
+Obj _3518295_37= co->res;
+Obj _3516778_37 = R[1];
+Obj _3516779_37 = R[2];
+R[1] = _3516779_37;
+R[2] = _3518295_37;
 saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516749_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516778_37);
 return;
 }
 }
@@ -1132,39 +1132,39 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516753_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518281_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518281_37) {
-Obj _3518282_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518283_37 = PRIM_ISCONS(_3518282_37);
-if (True == _3518283_37) {
-Obj _3518284_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518285_37 = PRIM_CAR(_3518284_37);
-Obj _3518286_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518285_37);
-if (True == _3518286_37) {
-Obj _3518287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518288_37 = PRIM_CDR(_3518287_37);
-Obj exp = _3518288_37;
-Obj _3518289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518289_37;
-Obj _3518290_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518291_37 = makeCons(co->gc, _3518290_37, closureRef(R[0], 1));
+Obj _3516782_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3518310_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518310_37) {
+Obj _3518311_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
+if (True == _3518312_37) {
+Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518314_37 = PRIM_CAR(_3518313_37);
+Obj _3518315_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518314_37);
+if (True == _3518315_37) {
+Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518317_37 = PRIM_CDR(_3518316_37);
+Obj exp = _3518317_37;
+Obj _3518318_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518318_37;
+Obj _3518319_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
+Obj _3518320_37 = makeCons(co->gc, _3518319_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518291_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518320_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516782_37);
 return;
 }
 }
@@ -1175,24 +1175,24 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518268_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518268_37) {
-Obj _3518269_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518269_37;
-Obj _3518270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518270_37;
-Obj _3518271_37 = makeCons(co->gc, exp, Nil);
-Obj _3518272_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518271_37);
-Obj _3518273_37 = makeCons(co->gc, _3518272_37, Nil);
-Obj _3518274_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518273_37);
-Obj _3518275_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518276_37 = makeCons(co->gc, _3518275_37, Nil);
-Obj _3518277_37 = makeCons(co->gc, _3518274_37, _3518276_37);
-Obj _3518278_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518277_37);
-Obj _3518279_37 = makeCons(co->gc, _3518278_37, closureRef(R[0], 1));
-Obj _3518280_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3518297_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518297_37) {
+Obj _3518298_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj exp = _3518298_37;
+Obj _3518299_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518299_37;
+Obj _3518300_37 = makeCons(co->gc, exp, Nil);
+Obj _3518301_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518300_37);
+Obj _3518302_37 = makeCons(co->gc, _3518301_37, Nil);
+Obj _3518303_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518302_37);
+Obj _3518304_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj _3518305_37 = makeCons(co->gc, _3518304_37, Nil);
+Obj _3518306_37 = makeCons(co->gc, _3518303_37, _3518305_37);
+Obj _3518307_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518306_37);
+Obj _3518308_37 = makeCons(co->gc, _3518307_37, closureRef(R[0], 1));
+Obj _3518309_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518279_37, _3518280_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518308_37, _3518309_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1207,37 +1207,37 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = R[1];
-Obj _3516742_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516741_37);
-Obj _3518255_37 = PRIM_ISCONS(_3516741_37);
-if (True == _3518255_37) {
-Obj _3518256_37 = PRIM_CAR(_3516741_37);
-Obj _3518257_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518256_37);
-if (True == _3518257_37) {
-Obj _3518258_37 = PRIM_CDR(_3516741_37);
-Obj _3518259_37 = PRIM_ISCONS(_3518258_37);
-if (True == _3518259_37) {
-Obj _3518260_37 = PRIM_CDR(_3516741_37);
-Obj _3518261_37 = PRIM_CAR(_3518260_37);
-Obj _3518262_37 = PRIM_CDR(_3516741_37);
-Obj _3518263_37 = PRIM_CDR(_3518262_37);
-Obj remain = _3518263_37;
+Obj _3516770_37 = R[1];
+Obj _3516771_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516770_37);
+Obj _3518284_37 = PRIM_ISCONS(_3516770_37);
+if (True == _3518284_37) {
+Obj _3518285_37 = PRIM_CAR(_3516770_37);
+Obj _3518286_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518285_37);
+if (True == _3518286_37) {
+Obj _3518287_37 = PRIM_CDR(_3516770_37);
+Obj _3518288_37 = PRIM_ISCONS(_3518287_37);
+if (True == _3518288_37) {
+Obj _3518289_37 = PRIM_CDR(_3516770_37);
+Obj _3518290_37 = PRIM_CAR(_3518289_37);
+Obj _3518291_37 = PRIM_CDR(_3516770_37);
+Obj _3518292_37 = PRIM_CDR(_3518291_37);
+Obj remain = _3518292_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516771_37);
 return;
 }
 }
@@ -1248,25 +1248,25 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516743_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518251_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518251_37) {
-Obj _3518252_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518253_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518252_37);
-if (True == _3518253_37) {
-Obj _3518254_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518254_37;
+Obj _3516772_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
+Obj _3518280_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518280_37) {
+Obj _3518281_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518282_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518281_37);
+if (True == _3518282_37) {
+Obj _3518283_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518283_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3516772_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3516772_37);
 return;
 }
 }
@@ -1277,36 +1277,36 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj _3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518242_37) {
-Obj _3518243_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518244_37 = PRIM_ISCONS(_3518243_37);
-if (True == _3518244_37) {
-Obj _3518245_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518246_37 = PRIM_CAR(_3518245_37);
-Obj _3518247_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518246_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518249_37 = PRIM_CDR(_3518248_37);
-Obj _3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518250_37;
+Obj _3516773_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
+Obj _3518271_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518271_37) {
+Obj _3518272_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518273_37 = PRIM_ISCONS(_3518272_37);
+if (True == _3518273_37) {
+Obj _3518274_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518275_37 = PRIM_CAR(_3518274_37);
+Obj _3518276_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518275_37);
+if (True == _3518276_37) {
+Obj _3518277_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518278_37 = PRIM_CDR(_3518277_37);
+Obj _3518279_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518279_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516773_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516773_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516773_37);
 return;
 }
 }
@@ -1317,64 +1317,64 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516745_37 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj _3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518224_37) {
-Obj _3518225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518226_37 = PRIM_ISCONS(_3518225_37);
-if (True == _3518226_37) {
-Obj _3518227_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518228_37 = PRIM_CAR(_3518227_37);
-Obj _3518229_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518228_37);
-if (True == _3518229_37) {
-Obj _3518230_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518231_37 = PRIM_CDR(_3518230_37);
-Obj _3518232_37 = PRIM_ISCONS(_3518231_37);
-if (True == _3518232_37) {
-Obj _3518233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518234_37 = PRIM_CDR(_3518233_37);
-Obj _3518235_37 = PRIM_CAR(_3518234_37);
-Obj pkg = _3518235_37;
-Obj _3518236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518237_37 = PRIM_CDR(_3518236_37);
-Obj _3518238_37 = PRIM_CDR(_3518237_37);
-Obj _3518239_37 = PRIM_EQ(Nil, _3518238_37);
-if (True == _3518239_37) {
-Obj _3518240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518240_37;
+Obj _3516774_37 = makeNative(co->gc, 1, clofun119, 0, 0);
+Obj _3518253_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518253_37) {
+Obj _3518254_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518255_37 = PRIM_ISCONS(_3518254_37);
+if (True == _3518255_37) {
+Obj _3518256_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518257_37 = PRIM_CAR(_3518256_37);
+Obj _3518258_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518257_37);
+if (True == _3518258_37) {
+Obj _3518259_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518260_37 = PRIM_CDR(_3518259_37);
+Obj _3518261_37 = PRIM_ISCONS(_3518260_37);
+if (True == _3518261_37) {
+Obj _3518262_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518263_37 = PRIM_CDR(_3518262_37);
+Obj _3518264_37 = PRIM_CAR(_3518263_37);
+Obj pkg = _3518264_37;
+Obj _3518265_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518266_37 = PRIM_CDR(_3518265_37);
+Obj _3518267_37 = PRIM_CDR(_3518266_37);
+Obj _3518268_37 = PRIM_EQ(Nil, _3518267_37);
+if (True == _3518268_37) {
+Obj _3518269_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518269_37;
 R[1] = remain;
 saveCont(co, clofun120, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516774_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516774_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518241_37= co->res;
+Obj _3518270_37= co->res;
 Obj remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
@@ -1409,7 +1409,7 @@ return;
 }
 case 1:
 {
-Obj _3518222_37= co->res;
+Obj _3518251_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1419,7 +1419,7 @@ return;
 }
 case 2:
 {
-Obj _3518221_37= co->res;
+Obj _3518250_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1427,12 +1427,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun118, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518221_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518250_37);
 return;
 }
 case 3:
 {
-Obj _3518220_37= co->res;
+Obj _3518249_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1445,7 +1445,7 @@ return;
 }
 case 4:
 {
-Obj _3518219_37= co->res;
+Obj _3518248_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1458,7 +1458,7 @@ return;
 }
 case 5:
 {
-Obj _3518216_37= co->res;
+Obj _3518245_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1471,7 +1471,7 @@ return;
 }
 case 6:
 {
-Obj _3518215_37= co->res;
+Obj _3518244_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1484,7 +1484,7 @@ return;
 }
 case 7:
 {
-Obj _3518214_37= co->res;
+Obj _3518243_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1515,14 +1515,14 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518217_37 = PRIM_CAR(group);
+Obj _3518246_37 = PRIM_CAR(group);
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518217_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518246_37);
 return;
 }
 case 1:
 {
-Obj _3518218_37= co->res;
+Obj _3518247_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1546,7 +1546,7 @@ return;
 }
 case 1:
 {
-Obj _3518212_37= co->res;
+Obj _3518241_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1554,7 +1554,7 @@ return;
 }
 case 2:
 {
-Obj _3518211_37= co->res;
+Obj _3518240_37= co->res;
 Obj to = R[1];
 R[1] = to;
 saveCont(co, clofun115, 1, R);
@@ -1563,7 +1563,7 @@ return;
 }
 case 3:
 {
-Obj _3518210_37= co->res;
+Obj _3518239_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = to;
@@ -1573,7 +1573,7 @@ return;
 }
 case 4:
 {
-Obj _3518209_37= co->res;
+Obj _3518238_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
@@ -1584,7 +1584,7 @@ return;
 }
 case 5:
 {
-Obj _3518208_37= co->res;
+Obj _3518237_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
@@ -1595,7 +1595,7 @@ return;
 }
 case 6:
 {
-Obj _3518200_37= co->res;
+Obj _3518229_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1607,7 +1607,7 @@ return;
 }
 case 7:
 {
-Obj _3518199_37= co->res;
+Obj _3518228_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1620,7 +1620,7 @@ return;
 }
 case 8:
 {
-Obj _3518198_37= co->res;
+Obj _3518227_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1628,12 +1628,12 @@ R[1] = globals;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518198_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518227_37);
 return;
 }
 case 9:
 {
-Obj _3518197_37= co->res;
+Obj _3518226_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1646,7 +1646,7 @@ return;
 }
 case 10:
 {
-Obj _3518196_37= co->res;
+Obj _3518225_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1659,7 +1659,7 @@ return;
 }
 case 11:
 {
-Obj _3518195_37= co->res;
+Obj _3518224_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
@@ -1687,15 +1687,15 @@ return;
 }
 case 1:
 {
-Obj _3518206_37= co->res;
+Obj _3518235_37= co->res;
 Obj acc = R[1];
-Obj _3518207_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518207_37);
+Obj _3518236_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518236_37);
 return;
 }
 case 2:
 {
-Obj _3518205_37= co->res;
+Obj _3518234_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun114, 1, R);
@@ -1704,16 +1704,16 @@ return;
 }
 case 3:
 {
-Obj _3518204_37= co->res;
+Obj _3518233_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518204_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518233_37);
 return;
 }
 case 4:
 {
-Obj _3518203_37= co->res;
+Obj _3518232_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -1723,7 +1723,7 @@ return;
 }
 case 5:
 {
-Obj _3518202_37= co->res;
+Obj _3518231_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
@@ -1734,7 +1734,7 @@ return;
 }
 case 6:
 {
-Obj _3518201_37= co->res;
+Obj _3518230_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
@@ -1753,8 +1753,8 @@ case 0:
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518173_37 = PRIM_CAR(group);
-Obj label = _3518173_37;
+Obj _3518202_37 = PRIM_CAR(group);
+Obj label = _3518202_37;
 R[1] = globals;
 R[2] = label;
 R[3] = to;
@@ -1764,7 +1764,7 @@ return;
 }
 case 1:
 {
-Obj _3518193_37= co->res;
+Obj _3518222_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
@@ -1772,7 +1772,7 @@ return;
 }
 case 2:
 {
-Obj _3518192_37= co->res;
+Obj _3518221_37= co->res;
 Obj to = R[1];
 R[1] = to;
 saveCont(co, clofun113, 1, R);
@@ -1781,19 +1781,19 @@ return;
 }
 case 3:
 {
-Obj _3518191_37= co->res;
+Obj _3518220_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
 R[1] = to;
 saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518191_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518220_37);
 return;
 }
 case 4:
 {
-Obj _3518183_37= co->res;
+Obj _3518212_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1808,7 +1808,7 @@ return;
 }
 case 5:
 {
-Obj _3518182_37= co->res;
+Obj _3518211_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1823,7 +1823,7 @@ return;
 }
 case 6:
 {
-Obj _3518181_37= co->res;
+Obj _3518210_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1841,7 +1841,7 @@ return;
 }
 case 7:
 {
-Obj _3518180_37= co->res;
+Obj _3518209_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1861,7 +1861,7 @@ return;
 }
 case 8:
 {
-Obj _3518179_37= co->res;
+Obj _3518208_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1880,7 +1880,7 @@ return;
 }
 case 9:
 {
-Obj _3518178_37= co->res;
+Obj _3518207_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1899,7 +1899,7 @@ return;
 }
 case 10:
 {
-Obj _3518177_37= co->res;
+Obj _3518206_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1918,13 +1918,13 @@ return;
 }
 case 11:
 {
-Obj _3518176_37= co->res;
+Obj _3518205_37= co->res;
 Obj params = R[1];
 Obj globals = R[2];
 Obj label = R[3];
 Obj lam = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518176_37;
+Obj first_45stmt = _3518205_37;
 R[1] = params;
 R[2] = first_45stmt;
 R[3] = globals;
@@ -1937,12 +1937,12 @@ return;
 }
 case 12:
 {
-Obj _3518175_37= co->res;
+Obj _3518204_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
-Obj params = _3518175_37;
+Obj params = _3518204_37;
 R[1] = params;
 R[2] = globals;
 R[3] = label;
@@ -1954,11 +1954,11 @@ return;
 }
 case 13:
 {
-Obj _3518174_37= co->res;
+Obj _3518203_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
-Obj lam = _3518174_37;
+Obj lam = _3518203_37;
 R[1] = globals;
 R[2] = label;
 R[3] = lam;
@@ -1984,15 +1984,15 @@ return;
 }
 case 1:
 {
-Obj _3518189_37= co->res;
+Obj _3518218_37= co->res;
 Obj acc = R[1];
-Obj _3518190_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518190_37);
+Obj _3518219_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518219_37);
 return;
 }
 case 2:
 {
-Obj _3518188_37= co->res;
+Obj _3518217_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun112, 1, R);
@@ -2001,18 +2001,18 @@ return;
 }
 case 3:
 {
-Obj _3518187_37= co->res;
+Obj _3518216_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518187_37, closureRef(R[0], 3), cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518216_37, closureRef(R[0], 3), cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518186_37= co->res;
+Obj _3518215_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2023,7 +2023,7 @@ return;
 }
 case 5:
 {
-Obj _3518185_37= co->res;
+Obj _3518214_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2034,7 +2034,7 @@ return;
 }
 case 6:
 {
-Obj _3518184_37= co->res;
+Obj _3518213_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2050,23 +2050,23 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = R[1];
-Obj _3516738_37 = R[2];
-Obj _3518167_37 = PRIM_EQ(Nil, _3516738_37);
-if (True == _3518167_37) {
+Obj _3516766_37 = R[1];
+Obj _3516767_37 = R[2];
+Obj _3518196_37 = PRIM_EQ(Nil, _3516767_37);
+if (True == _3518196_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518168_37 = PRIM_ISCONS(_3516738_37);
-if (True == _3518168_37) {
-Obj _3518169_37 = PRIM_CAR(_3516738_37);
-Obj x = _3518169_37;
-Obj _3518170_37 = PRIM_CDR(_3516738_37);
-Obj y = _3518170_37;
-R[1] = _3516737_37;
+Obj _3518197_37 = PRIM_ISCONS(_3516767_37);
+if (True == _3518197_37) {
+Obj _3518198_37 = PRIM_CAR(_3516767_37);
+Obj x = _3518198_37;
+Obj _3518199_37 = PRIM_CDR(_3516767_37);
+Obj y = _3518199_37;
+R[1] = _3516766_37;
 R[2] = y;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, _3516737_37, x);
+coraCall1(co, _3516766_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2077,11 +2077,11 @@ return;
 }
 case 1:
 {
-Obj _3518171_37= co->res;
-Obj _3516737_37 = R[1];
+Obj _3518200_37= co->res;
+Obj _3516766_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516737_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516766_37, y);
 return;
 }
 }
@@ -2100,38 +2100,38 @@ return;
 }
 case 1:
 {
-Obj _3518165_37= co->res;
+Obj _3518194_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518165_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518194_37);
 return;
 }
 case 2:
 {
-Obj _3518164_37= co->res;
+Obj _3518193_37= co->res;
 saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518164_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518193_37);
 return;
 }
 case 3:
 {
-Obj _3518163_37= co->res;
+Obj _3518192_37= co->res;
 saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518163_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518192_37);
 return;
 }
 case 4:
 {
-Obj _3518162_37= co->res;
+Obj _3518191_37= co->res;
 saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518162_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518191_37);
 return;
 }
 case 5:
 {
-Obj _3518161_37= co->res;
+Obj _3518190_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun110, 4, R);
-coraCall1(co, _3518161_37, exp);
+coraCall1(co, _3518190_37, exp);
 return;
 }
 }
@@ -2149,18 +2149,18 @@ return;
 }
 case 1:
 {
-Obj _3518159_37= co->res;
+Obj _3518188_37= co->res;
 Obj obj = R[1];
-Obj fns = _3518159_37;
+Obj fns = _3518188_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
 return;
 }
 case 2:
 {
-Obj _3518158_37= co->res;
+Obj _3518187_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518158_37;
+Obj obj = _3518187_37;
 R[1] = obj;
 saveCont(co, clofun109, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
@@ -2173,23 +2173,23 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = R[1];
-Obj _3516734_37 = R[2];
-Obj _3518151_37 = PRIM_EQ(Nil, _3516734_37);
-if (True == _3518151_37) {
-coraReturn(co, _3516733_37);
+Obj _3516762_37 = R[1];
+Obj _3516763_37 = R[2];
+Obj _3518180_37 = PRIM_EQ(Nil, _3516763_37);
+if (True == _3518180_37) {
+coraReturn(co, _3516762_37);
 return;
 } else {
-Obj _3518152_37 = PRIM_ISCONS(_3516734_37);
-if (True == _3518152_37) {
-Obj _3518153_37 = PRIM_CAR(_3516734_37);
-Obj hd = _3518153_37;
-Obj _3518154_37 = PRIM_CDR(_3516734_37);
-Obj more = _3518154_37;
-Obj _3518155_37 = makeCons(co->gc, _3516733_37, Nil);
-Obj _3518156_37 = makeCons(co->gc, hd, _3518155_37);
+Obj _3518181_37 = PRIM_ISCONS(_3516763_37);
+if (True == _3518181_37) {
+Obj _3518182_37 = PRIM_CAR(_3516763_37);
+Obj hd = _3518182_37;
+Obj _3518183_37 = PRIM_CDR(_3516763_37);
+Obj more = _3518183_37;
+Obj _3518184_37 = makeCons(co->gc, _3516762_37, Nil);
+Obj _3518185_37 = makeCons(co->gc, hd, _3518184_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518156_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518185_37, more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2213,7 +2213,7 @@ return;
 }
 case 1:
 {
-Obj _3518149_37= co->res;
+Obj _3518178_37= co->res;
 Obj v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
@@ -2221,9 +2221,9 @@ return;
 }
 case 2:
 {
-Obj _3518148_37= co->res;
+Obj _3518177_37= co->res;
 Obj v = R[1];
-Obj e2 = _3518148_37;
+Obj e2 = _3518177_37;
 R[1] = v;
 saveCont(co, clofun107, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
@@ -2231,9 +2231,9 @@ return;
 }
 case 3:
 {
-Obj _3518147_37= co->res;
+Obj _3518176_37= co->res;
 Obj v = R[1];
-Obj e1 = _3518147_37;
+Obj e1 = _3518176_37;
 R[1] = v;
 saveCont(co, clofun107, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
@@ -2241,7 +2241,7 @@ return;
 }
 case 4:
 {
-Obj _3518146_37= co->res;
+Obj _3518175_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = v;
@@ -2251,7 +2251,7 @@ return;
 }
 case 5:
 {
-Obj _3518145_37= co->res;
+Obj _3518174_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = exp;
@@ -2262,9 +2262,9 @@ return;
 }
 case 6:
 {
-Obj _3518144_37= co->res;
+Obj _3518173_37= co->res;
 Obj exp = R[1];
-Obj v = _3518144_37;
+Obj v = _3518173_37;
 R[1] = exp;
 R[2] = v;
 saveCont(co, clofun107, 5, R);
@@ -2337,7 +2337,7 @@ return;
 }
 case 1:
 {
-Obj _3518138_37= co->res;
+Obj _3518167_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
@@ -2345,7 +2345,7 @@ return;
 }
 case 2:
 {
-Obj _3518137_37= co->res;
+Obj _3518166_37= co->res;
 Obj w = R[1];
 R[1] = w;
 saveCont(co, clofun102, 1, R);
@@ -2354,7 +2354,7 @@ return;
 }
 case 3:
 {
-Obj _3518136_37= co->res;
+Obj _3518165_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
@@ -2379,7 +2379,7 @@ return;
 }
 case 1:
 {
-Obj _3518134_37= co->res;
+Obj _3518163_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
@@ -2393,136 +2393,136 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
-Obj _3516731_37 = R[5];
-Obj _3516732_37 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj _3518112_37 = PRIM_ISCONS(_3516731_37);
-if (True == _3518112_37) {
-Obj _3518113_37 = PRIM_CAR(_3516731_37);
-Obj _3518114_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518113_37);
-if (True == _3518114_37) {
-Obj _3518115_37 = PRIM_CDR(_3516731_37);
-Obj _3518116_37 = PRIM_ISCONS(_3518115_37);
-if (True == _3518116_37) {
-Obj _3518117_37 = PRIM_CDR(_3516731_37);
-Obj _3518118_37 = PRIM_CAR(_3518117_37);
-Obj var = _3518118_37;
-Obj _3518119_37 = PRIM_CDR(_3516731_37);
-Obj _3518120_37 = PRIM_CDR(_3518119_37);
-Obj _3518121_37 = PRIM_ISCONS(_3518120_37);
-if (True == _3518121_37) {
-Obj _3518122_37 = PRIM_CDR(_3516731_37);
-Obj _3518123_37 = PRIM_CDR(_3518122_37);
-Obj _3518124_37 = PRIM_CAR(_3518123_37);
-Obj body = _3518124_37;
-Obj _3518125_37 = PRIM_CDR(_3516731_37);
-Obj _3518126_37 = PRIM_CDR(_3518125_37);
-Obj _3518127_37 = PRIM_CDR(_3518126_37);
-Obj fvs = _3518127_37;
+Obj _3516756_37 = R[1];
+Obj _3516757_37 = R[2];
+Obj _3516758_37 = R[3];
+Obj _3516759_37 = R[4];
+Obj _3516760_37 = R[5];
+Obj _3516761_37 = makeNative(co->gc, 1, clofun99, 0, 0);
+Obj _3518141_37 = PRIM_ISCONS(_3516760_37);
+if (True == _3518141_37) {
+Obj _3518142_37 = PRIM_CAR(_3516760_37);
+Obj _3518143_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518142_37);
+if (True == _3518143_37) {
+Obj _3518144_37 = PRIM_CDR(_3516760_37);
+Obj _3518145_37 = PRIM_ISCONS(_3518144_37);
+if (True == _3518145_37) {
+Obj _3518146_37 = PRIM_CDR(_3516760_37);
+Obj _3518147_37 = PRIM_CAR(_3518146_37);
+Obj var = _3518147_37;
+Obj _3518148_37 = PRIM_CDR(_3516760_37);
+Obj _3518149_37 = PRIM_CDR(_3518148_37);
+Obj _3518150_37 = PRIM_ISCONS(_3518149_37);
+if (True == _3518150_37) {
+Obj _3518151_37 = PRIM_CDR(_3516760_37);
+Obj _3518152_37 = PRIM_CDR(_3518151_37);
+Obj _3518153_37 = PRIM_CAR(_3518152_37);
+Obj body = _3518153_37;
+Obj _3518154_37 = PRIM_CDR(_3516760_37);
+Obj _3518155_37 = PRIM_CDR(_3518154_37);
+Obj _3518156_37 = PRIM_CDR(_3518155_37);
+Obj fvs = _3518156_37;
 R[1] = var;
 R[2] = fvs;
-R[3] = _3516727_37;
-R[4] = _3516728_37;
-R[5] = _3516729_37;
-R[6] = _3516730_37;
+R[3] = _3516756_37;
+R[4] = _3516757_37;
+R[5] = _3516758_37;
+R[6] = _3516759_37;
 R[7] = body;
 saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516759_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516761_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518132_37= co->res;
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
+Obj _3518161_37= co->res;
+Obj _3516756_37 = R[1];
+Obj _3516757_37 = R[2];
+Obj _3516758_37 = R[3];
+Obj _3516759_37 = R[4];
 Obj body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, body};
+Obj __args[5] = {_3516756_37, _3516757_37, _3516758_37, _3516759_37, body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518131_37= co->res;
+Obj _3518160_37= co->res;
 Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
+Obj _3516756_37 = R[2];
+Obj _3516757_37 = R[3];
+Obj _3516758_37 = R[4];
+Obj _3516759_37 = R[5];
 Obj body = R[6];
-R[1] = _3516727_37;
-R[2] = _3516728_37;
-R[3] = _3516729_37;
-R[4] = _3516730_37;
+R[1] = _3516756_37;
+R[2] = _3516757_37;
+R[3] = _3516758_37;
+R[4] = _3516759_37;
 R[5] = body;
 saveCont(co, clofun100, 1, R);
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, fvs};
+Obj __args[5] = {_3516756_37, _3516757_37, _3516758_37, _3516759_37, fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518130_37= co->res;
+Obj _3518159_37= co->res;
 Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
+Obj _3516756_37 = R[2];
+Obj _3516757_37 = R[3];
+Obj _3516758_37 = R[4];
+Obj _3516759_37 = R[5];
 Obj body = R[6];
 R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
+R[2] = _3516756_37;
+R[3] = _3516757_37;
+R[4] = _3516758_37;
+R[5] = _3516759_37;
 R[6] = body;
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516759_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518128_37= co->res;
+Obj _3518157_37= co->res;
 Obj var = R[1];
 Obj fvs = R[2];
-Obj _3516727_37 = R[3];
-Obj _3516728_37 = R[4];
-Obj _3516729_37 = R[5];
-Obj _3516730_37 = R[6];
+Obj _3516756_37 = R[3];
+Obj _3516757_37 = R[4];
+Obj _3516758_37 = R[5];
+Obj _3516759_37 = R[6];
 Obj body = R[7];
-Obj _3518129_37 = PRIM_CAR(var);
+Obj _3518158_37 = PRIM_CAR(var);
 R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
+R[2] = _3516756_37;
+R[3] = _3516757_37;
+R[4] = _3516758_37;
+R[5] = _3516759_37;
 R[6] = body;
 saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516730_37, _3518129_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516759_37, _3518158_37);
 return;
 }
 }
@@ -2548,9 +2548,9 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518098_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518098_37;
-Obj _3518109_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3518127_37 = primGenSym(co);
+Obj generate_45inst_45list_45h = _3518127_37;
+Obj _3518138_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
 R[1] = l;
 saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
@@ -2558,10 +2558,10 @@ return;
 }
 case 1:
 {
-Obj _3518110_37= co->res;
+Obj _3518139_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518110_37, l);
+coraCall1(co, _3518139_37, l);
 return;
 }
 }
@@ -2572,17 +2572,17 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518099_37 = PRIM_EQ(Nil, x);
-if (True == _3518099_37) {
+Obj _3518128_37 = PRIM_EQ(Nil, x);
+if (True == _3518128_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518100_37 = PRIM_ISCONS(x);
-if (True == _3518100_37) {
-Obj _3518101_37 = PRIM_CAR(x);
-Obj a = _3518101_37;
-Obj _3518102_37 = PRIM_CDR(x);
-Obj b = _3518102_37;
+Obj _3518129_37 = PRIM_ISCONS(x);
+if (True == _3518129_37) {
+Obj _3518130_37 = PRIM_CAR(x);
+Obj a = _3518130_37;
+Obj _3518131_37 = PRIM_CDR(x);
+Obj b = _3518131_37;
 R[1] = b;
 saveCont(co, clofun97, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
@@ -2597,15 +2597,15 @@ return;
 }
 case 1:
 {
-Obj _3518107_37= co->res;
+Obj _3518136_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518107_37, b);
+coraCall1(co, _3518136_37, b);
 return;
 }
 case 2:
 {
-Obj _3518106_37= co->res;
+Obj _3518135_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun97, 1, R);
@@ -2614,18 +2614,18 @@ return;
 }
 case 3:
 {
-Obj _3518108_37= co->res;
+Obj _3518137_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518108_37, b);
+coraCall1(co, _3518137_37, b);
 return;
 }
 case 4:
 {
-Obj _3518104_37= co->res;
+Obj _3518133_37= co->res;
 Obj b = R[1];
-Obj _3518105_37 = primNot(_3518104_37);
-if (True == _3518105_37) {
+Obj _3518134_37 = primNot(_3518133_37);
+if (True == _3518134_37) {
 R[1] = b;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
@@ -2640,7 +2640,7 @@ return;
 }
 case 5:
 {
-Obj _3518103_37= co->res;
+Obj _3518132_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun97, 4, R);
@@ -2659,9 +2659,9 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517811_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517811_37;
-Obj _3518095_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3517840_37 = primGenSym(co);
+Obj generate_45inst_45h = _3517840_37;
+Obj _3518124_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
 R[1] = x1;
 R[2] = env1;
 saveCont(co, clofun96, 1, R);
@@ -2670,11 +2670,11 @@ return;
 }
 case 1:
 {
-Obj _3518096_37= co->res;
+Obj _3518125_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518096_37, x1, env1);
+coraCall2(co, _3518125_37, x1, env1);
 return;
 }
 }
@@ -2686,71 +2686,71 @@ case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517812_37 = primIsSymbol(x2);
-if (True == _3517812_37) {
+Obj _3517841_37 = primIsSymbol(x2);
+if (True == _3517841_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
 return;
 } else {
-Obj _3516713_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518082_37 = PRIM_ISCONS(x2);
-if (True == _3518082_37) {
-Obj _3518083_37 = PRIM_CAR(x2);
-Obj _3518084_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518083_37);
-if (True == _3518084_37) {
-Obj _3518085_37 = PRIM_CDR(x2);
-Obj _3518086_37 = PRIM_ISCONS(_3518085_37);
-if (True == _3518086_37) {
-Obj _3518087_37 = PRIM_CDR(x2);
-Obj _3518088_37 = PRIM_CAR(_3518087_37);
-Obj x = _3518088_37;
-Obj _3518089_37 = PRIM_CDR(x2);
-Obj _3518090_37 = PRIM_CDR(_3518089_37);
-Obj _3518091_37 = PRIM_EQ(Nil, _3518090_37);
-if (True == _3518091_37) {
+Obj _3516742_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3518111_37 = PRIM_ISCONS(x2);
+if (True == _3518111_37) {
+Obj _3518112_37 = PRIM_CAR(x2);
+Obj _3518113_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518112_37);
+if (True == _3518113_37) {
+Obj _3518114_37 = PRIM_CDR(x2);
+Obj _3518115_37 = PRIM_ISCONS(_3518114_37);
+if (True == _3518115_37) {
+Obj _3518116_37 = PRIM_CDR(x2);
+Obj _3518117_37 = PRIM_CAR(_3518116_37);
+Obj x = _3518117_37;
+Obj _3518118_37 = PRIM_CDR(x2);
+Obj _3518119_37 = PRIM_CDR(_3518118_37);
+Obj _3518120_37 = PRIM_EQ(Nil, _3518119_37);
+if (True == _3518120_37) {
 R[1] = x;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516742_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518094_37= co->res;
+Obj _3518123_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518093_37= co->res;
+Obj _3518122_37= co->res;
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518093_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518122_37);
 return;
 }
 case 3:
 {
-Obj _3518092_37= co->res;
+Obj _3518121_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
@@ -2763,57 +2763,57 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516714_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518070_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518070_37) {
-Obj _3518071_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518072_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518071_37);
-if (True == _3518072_37) {
-Obj _3518073_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518074_37 = PRIM_ISCONS(_3518073_37);
-if (True == _3518074_37) {
-Obj _3518075_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518076_37 = PRIM_CAR(_3518075_37);
-Obj idx = _3518076_37;
-Obj _3518077_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518078_37 = PRIM_CDR(_3518077_37);
-Obj _3518079_37 = PRIM_EQ(Nil, _3518078_37);
-if (True == _3518079_37) {
+Obj _3516743_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3518099_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3518099_37) {
+Obj _3518100_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3518101_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518100_37);
+if (True == _3518101_37) {
+Obj _3518102_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518103_37 = PRIM_ISCONS(_3518102_37);
+if (True == _3518103_37) {
+Obj _3518104_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518105_37 = PRIM_CAR(_3518104_37);
+Obj idx = _3518105_37;
+Obj _3518106_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518107_37 = PRIM_CDR(_3518106_37);
+Obj _3518108_37 = PRIM_EQ(Nil, _3518107_37);
+if (True == _3518108_37) {
 R[1] = idx;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516743_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516743_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516743_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516743_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518081_37= co->res;
+Obj _3518110_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518080_37= co->res;
+Obj _3518109_37= co->res;
 Obj idx = R[1];
 saveCont(co, clofun94, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
@@ -2826,24 +2826,24 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516715_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518046_37) {
-Obj _3518047_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518048_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518047_37);
-if (True == _3518048_37) {
-Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518050_37 = PRIM_ISCONS(_3518049_37);
-if (True == _3518050_37) {
-Obj _3518051_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj x = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_EQ(Nil, _3518054_37);
-if (True == _3518055_37) {
-Obj _3518056_37 = primIsSymbol(x);
-if (True == _3518056_37) {
+Obj _3516744_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518075_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3518075_37) {
+Obj _3518076_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3518077_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518076_37);
+if (True == _3518077_37) {
+Obj _3518078_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518079_37 = PRIM_ISCONS(_3518078_37);
+if (True == _3518079_37) {
+Obj _3518080_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518081_37 = PRIM_CAR(_3518080_37);
+Obj x = _3518081_37;
+Obj _3518082_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518083_37 = PRIM_CDR(_3518082_37);
+Obj _3518084_37 = PRIM_EQ(Nil, _3518083_37);
+if (True == _3518084_37) {
+Obj _3518085_37 = primIsSymbol(x);
+if (True == _3518085_37) {
 R[1] = x;
 saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
@@ -2856,42 +2856,42 @@ return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516744_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518059_37= co->res;
+Obj _3518088_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518058_37= co->res;
+Obj _3518087_37= co->res;
 saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518058_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518087_37);
 return;
 }
 case 3:
 {
-Obj _3518057_37= co->res;
+Obj _3518086_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
@@ -2899,14 +2899,14 @@ return;
 }
 case 4:
 {
-Obj _3518062_37= co->res;
+Obj _3518091_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518061_37= co->res;
+Obj _3518090_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
@@ -2914,21 +2914,21 @@ return;
 }
 case 6:
 {
-Obj _3518066_37= co->res;
+Obj _3518095_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518065_37= co->res;
+Obj _3518094_37= co->res;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518065_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518094_37);
 return;
 }
 case 8:
 {
-Obj _3518064_37= co->res;
+Obj _3518093_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun93, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
@@ -2936,35 +2936,35 @@ return;
 }
 case 9:
 {
-Obj _3518060_37= co->res;
+Obj _3518089_37= co->res;
 Obj x = R[1];
-if (True == _3518060_37) {
+if (True == _3518089_37) {
 R[1] = x;
 saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518063_37 = primIsString(x);
-if (True == _3518063_37) {
+Obj _3518092_37 = primIsString(x);
+if (True == _3518092_37) {
 R[1] = x;
 saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518067_37 = PRIM_EQ(x, Nil);
-if (True == _3518067_37) {
+Obj _3518096_37 = PRIM_EQ(x, Nil);
+if (True == _3518096_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518068_37 = PRIM_EQ(x, True);
-if (True == _3518068_37) {
+Obj _3518097_37 = PRIM_EQ(x, True);
+if (True == _3518097_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518069_37 = PRIM_EQ(x, False);
-if (True == _3518069_37) {
+Obj _3518098_37 = PRIM_EQ(x, False);
+if (True == _3518098_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -2985,42 +2985,42 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516716_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518011_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518011_37) {
-Obj _3518012_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518013_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518012_37);
-if (True == _3518013_37) {
-Obj _3518014_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518015_37 = PRIM_ISCONS(_3518014_37);
-if (True == _3518015_37) {
-Obj _3518016_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518017_37 = PRIM_CAR(_3518016_37);
-Obj a = _3518017_37;
-Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518019_37 = PRIM_CDR(_3518018_37);
-Obj _3518020_37 = PRIM_ISCONS(_3518019_37);
-if (True == _3518020_37) {
-Obj _3518021_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518022_37 = PRIM_CDR(_3518021_37);
-Obj _3518023_37 = PRIM_CAR(_3518022_37);
-Obj b = _3518023_37;
-Obj _3518024_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518025_37 = PRIM_CDR(_3518024_37);
-Obj _3518026_37 = PRIM_CDR(_3518025_37);
-Obj _3518027_37 = PRIM_ISCONS(_3518026_37);
-if (True == _3518027_37) {
-Obj _3518028_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518029_37 = PRIM_CDR(_3518028_37);
-Obj _3518030_37 = PRIM_CDR(_3518029_37);
-Obj _3518031_37 = PRIM_CAR(_3518030_37);
-Obj c = _3518031_37;
-Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3518034_37 = PRIM_CDR(_3518033_37);
-Obj _3518035_37 = PRIM_CDR(_3518034_37);
-Obj _3518036_37 = PRIM_EQ(Nil, _3518035_37);
-if (True == _3518036_37) {
+Obj _3516745_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518040_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518040_37) {
+Obj _3518041_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518042_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518041_37);
+if (True == _3518042_37) {
+Obj _3518043_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518044_37 = PRIM_ISCONS(_3518043_37);
+if (True == _3518044_37) {
+Obj _3518045_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518046_37 = PRIM_CAR(_3518045_37);
+Obj a = _3518046_37;
+Obj _3518047_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518048_37 = PRIM_CDR(_3518047_37);
+Obj _3518049_37 = PRIM_ISCONS(_3518048_37);
+if (True == _3518049_37) {
+Obj _3518050_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518051_37 = PRIM_CDR(_3518050_37);
+Obj _3518052_37 = PRIM_CAR(_3518051_37);
+Obj b = _3518052_37;
+Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518054_37 = PRIM_CDR(_3518053_37);
+Obj _3518055_37 = PRIM_CDR(_3518054_37);
+Obj _3518056_37 = PRIM_ISCONS(_3518055_37);
+if (True == _3518056_37) {
+Obj _3518057_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518058_37 = PRIM_CDR(_3518057_37);
+Obj _3518059_37 = PRIM_CDR(_3518058_37);
+Obj _3518060_37 = PRIM_CAR(_3518059_37);
+Obj c = _3518060_37;
+Obj _3518061_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518062_37 = PRIM_CDR(_3518061_37);
+Obj _3518063_37 = PRIM_CDR(_3518062_37);
+Obj _3518064_37 = PRIM_CDR(_3518063_37);
+Obj _3518065_37 = PRIM_EQ(Nil, _3518064_37);
+if (True == _3518065_37) {
 R[1] = b;
 R[2] = a;
 R[3] = c;
@@ -3029,48 +3029,48 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0],
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516745_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518044_37= co->res;
+Obj _3518073_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
-Obj _3518045_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3518074_37 = makeCons(co->gc, a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518044_37, c, _3518045_37);
+coraCall2(co, _3518073_37, c, _3518074_37);
 return;
 }
 case 2:
 {
-Obj _3518043_37= co->res;
+Obj _3518072_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
@@ -3081,7 +3081,7 @@ return;
 }
 case 3:
 {
-Obj _3518042_37= co->res;
+Obj _3518071_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
@@ -3092,19 +3092,19 @@ return;
 }
 case 4:
 {
-Obj _3518041_37= co->res;
+Obj _3518070_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = a;
 R[2] = c;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, _3518041_37, b, closureRef(R[0], 5));
+coraCall2(co, _3518070_37, b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518040_37= co->res;
+Obj _3518069_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3117,7 +3117,7 @@ return;
 }
 case 6:
 {
-Obj _3518039_37= co->res;
+Obj _3518068_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3130,7 +3130,7 @@ return;
 }
 case 7:
 {
-Obj _3518038_37= co->res;
+Obj _3518067_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3143,7 +3143,7 @@ return;
 }
 case 8:
 {
-Obj _3518037_37= co->res;
+Obj _3518066_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3161,31 +3161,31 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516717_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517981_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517981_37) {
-Obj _3517982_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517983_37 = PRIM_ISCONS(_3517982_37);
-if (True == _3517983_37) {
-Obj _3517984_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517985_37 = PRIM_CAR(_3517984_37);
-Obj _3517986_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517985_37);
-if (True == _3517986_37) {
-Obj _3517987_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517988_37 = PRIM_CDR(_3517987_37);
-Obj _3517989_37 = PRIM_ISCONS(_3517988_37);
-if (True == _3517989_37) {
-Obj _3517990_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517991_37 = PRIM_CDR(_3517990_37);
-Obj _3517992_37 = PRIM_CAR(_3517991_37);
-Obj f = _3517992_37;
-Obj _3517993_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517994_37 = PRIM_CDR(_3517993_37);
-Obj _3517995_37 = PRIM_CDR(_3517994_37);
-Obj _3517996_37 = PRIM_EQ(Nil, _3517995_37);
-if (True == _3517996_37) {
-Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3517997_37;
+Obj _3516746_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518010_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518010_37) {
+Obj _3518011_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518012_37 = PRIM_ISCONS(_3518011_37);
+if (True == _3518012_37) {
+Obj _3518013_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518014_37 = PRIM_CAR(_3518013_37);
+Obj _3518015_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518014_37);
+if (True == _3518015_37) {
+Obj _3518016_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518017_37 = PRIM_CDR(_3518016_37);
+Obj _3518018_37 = PRIM_ISCONS(_3518017_37);
+if (True == _3518018_37) {
+Obj _3518019_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518020_37 = PRIM_CDR(_3518019_37);
+Obj _3518021_37 = PRIM_CAR(_3518020_37);
+Obj f = _3518021_37;
+Obj _3518022_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518023_37 = PRIM_CDR(_3518022_37);
+Obj _3518024_37 = PRIM_CDR(_3518023_37);
+Obj _3518025_37 = PRIM_EQ(Nil, _3518024_37);
+if (True == _3518025_37) {
+Obj _3518026_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj args = _3518026_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun91, 10, R);
@@ -3193,40 +3193,40 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516746_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518002_37= co->res;
+Obj _3518031_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518001_37= co->res;
+Obj _3518030_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3235,14 +3235,14 @@ return;
 }
 case 3:
 {
-Obj _3518005_37= co->res;
+Obj _3518034_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518004_37= co->res;
+Obj _3518033_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3251,14 +3251,14 @@ return;
 }
 case 5:
 {
-Obj _3518008_37= co->res;
+Obj _3518037_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518007_37= co->res;
+Obj _3518036_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3267,14 +3267,14 @@ return;
 }
 case 7:
 {
-Obj _3518010_37= co->res;
+Obj _3518039_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518009_37= co->res;
+Obj _3518038_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3283,25 +3283,25 @@ return;
 }
 case 9:
 {
-Obj _3517999_37= co->res;
+Obj _3518028_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3518000_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518000_37) {
+Obj _3518029_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
+if (True == _3518029_37) {
 R[1] = args;
 saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518003_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518003_37) {
+Obj _3518032_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
+if (True == _3518032_37) {
 R[1] = args;
 saveCont(co, clofun91, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518006_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518006_37) {
+Obj _3518035_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
+if (True == _3518035_37) {
 R[1] = args;
 saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
@@ -3317,13 +3317,13 @@ return;
 }
 case 10:
 {
-Obj _3517998_37= co->res;
+Obj _3518027_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3517998_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518027_37);
 return;
 }
 }
@@ -3333,42 +3333,42 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516718_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517946_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517946_37) {
-Obj _3517947_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517948_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517947_37);
-if (True == _3517948_37) {
-Obj _3517949_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517950_37 = PRIM_ISCONS(_3517949_37);
-if (True == _3517950_37) {
-Obj _3517951_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517952_37 = PRIM_CAR(_3517951_37);
-Obj a = _3517952_37;
-Obj _3517953_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517954_37 = PRIM_CDR(_3517953_37);
-Obj _3517955_37 = PRIM_ISCONS(_3517954_37);
-if (True == _3517955_37) {
-Obj _3517956_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517957_37 = PRIM_CDR(_3517956_37);
-Obj _3517958_37 = PRIM_CAR(_3517957_37);
-Obj b = _3517958_37;
-Obj _3517959_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517960_37 = PRIM_CDR(_3517959_37);
-Obj _3517961_37 = PRIM_CDR(_3517960_37);
-Obj _3517962_37 = PRIM_ISCONS(_3517961_37);
-if (True == _3517962_37) {
-Obj _3517963_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517964_37 = PRIM_CDR(_3517963_37);
-Obj _3517965_37 = PRIM_CDR(_3517964_37);
-Obj _3517966_37 = PRIM_CAR(_3517965_37);
-Obj c = _3517966_37;
-Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517968_37 = PRIM_CDR(_3517967_37);
-Obj _3517969_37 = PRIM_CDR(_3517968_37);
-Obj _3517970_37 = PRIM_CDR(_3517969_37);
-Obj _3517971_37 = PRIM_EQ(Nil, _3517970_37);
-if (True == _3517971_37) {
+Obj _3516747_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517975_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517975_37) {
+Obj _3517976_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517977_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517976_37);
+if (True == _3517977_37) {
+Obj _3517978_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517979_37 = PRIM_ISCONS(_3517978_37);
+if (True == _3517979_37) {
+Obj _3517980_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517981_37 = PRIM_CAR(_3517980_37);
+Obj a = _3517981_37;
+Obj _3517982_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517983_37 = PRIM_CDR(_3517982_37);
+Obj _3517984_37 = PRIM_ISCONS(_3517983_37);
+if (True == _3517984_37) {
+Obj _3517985_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517986_37 = PRIM_CDR(_3517985_37);
+Obj _3517987_37 = PRIM_CAR(_3517986_37);
+Obj b = _3517987_37;
+Obj _3517988_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517989_37 = PRIM_CDR(_3517988_37);
+Obj _3517990_37 = PRIM_CDR(_3517989_37);
+Obj _3517991_37 = PRIM_ISCONS(_3517990_37);
+if (True == _3517991_37) {
+Obj _3517992_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517993_37 = PRIM_CDR(_3517992_37);
+Obj _3517994_37 = PRIM_CDR(_3517993_37);
+Obj _3517995_37 = PRIM_CAR(_3517994_37);
+Obj c = _3517995_37;
+Obj _3517996_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517997_37 = PRIM_CDR(_3517996_37);
+Obj _3517998_37 = PRIM_CDR(_3517997_37);
+Obj _3517999_37 = PRIM_CDR(_3517998_37);
+Obj _3518000_37 = PRIM_EQ(Nil, _3517999_37);
+if (True == _3518000_37) {
 R[1] = a;
 R[2] = b;
 R[3] = c;
@@ -3377,53 +3377,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516747_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516747_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517980_37= co->res;
+Obj _3518009_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3517979_37= co->res;
+Obj _3518008_37= co->res;
 Obj c = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, _3517979_37, c, closureRef(R[0], 4));
+coraCall2(co, _3518008_37, c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517978_37= co->res;
+Obj _3518007_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun90, 2, R);
@@ -3432,7 +3432,7 @@ return;
 }
 case 4:
 {
-Obj _3517977_37= co->res;
+Obj _3518006_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun90, 3, R);
@@ -3441,17 +3441,17 @@ return;
 }
 case 5:
 {
-Obj _3517976_37= co->res;
+Obj _3518005_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = c;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, _3517976_37, b, closureRef(R[0], 4));
+coraCall2(co, _3518005_37, b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3517975_37= co->res;
+Obj _3518004_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
@@ -3462,7 +3462,7 @@ return;
 }
 case 7:
 {
-Obj _3517974_37= co->res;
+Obj _3518003_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
@@ -3473,19 +3473,19 @@ return;
 }
 case 8:
 {
-Obj _3517973_37= co->res;
+Obj _3518002_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = c;
 saveCont(co, clofun90, 7, R);
-coraCall2(co, _3517973_37, a, closureRef(R[0], 4));
+coraCall2(co, _3518002_37, a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3517972_37= co->res;
+Obj _3518001_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
@@ -3503,41 +3503,41 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516719_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517908_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517908_37) {
-Obj _3517909_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517910_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517909_37);
-if (True == _3517910_37) {
-Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517912_37 = PRIM_ISCONS(_3517911_37);
-if (True == _3517912_37) {
-Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517914_37 = PRIM_CAR(_3517913_37);
-Obj label = _3517914_37;
-Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517916_37 = PRIM_CDR(_3517915_37);
-Obj _3517917_37 = PRIM_ISCONS(_3517916_37);
-if (True == _3517917_37) {
-Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517919_37 = PRIM_CDR(_3517918_37);
-Obj _3517920_37 = PRIM_CAR(_3517919_37);
-Obj nargs = _3517920_37;
-Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517922_37 = PRIM_CDR(_3517921_37);
-Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_ISCONS(_3517923_37);
-if (True == _3517924_37) {
-Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517926_37 = PRIM_CDR(_3517925_37);
-Obj _3517927_37 = PRIM_CDR(_3517926_37);
-Obj _3517928_37 = PRIM_CAR(_3517927_37);
-Obj nframe = _3517928_37;
-Obj _3517929_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517930_37 = PRIM_CDR(_3517929_37);
-Obj _3517931_37 = PRIM_CDR(_3517930_37);
-Obj _3517932_37 = PRIM_CDR(_3517931_37);
-Obj frees = _3517932_37;
+Obj _3516748_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3517937_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517937_37) {
+Obj _3517938_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517939_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517938_37);
+if (True == _3517939_37) {
+Obj _3517940_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517941_37 = PRIM_ISCONS(_3517940_37);
+if (True == _3517941_37) {
+Obj _3517942_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517943_37 = PRIM_CAR(_3517942_37);
+Obj label = _3517943_37;
+Obj _3517944_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517945_37 = PRIM_CDR(_3517944_37);
+Obj _3517946_37 = PRIM_ISCONS(_3517945_37);
+if (True == _3517946_37) {
+Obj _3517947_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517948_37 = PRIM_CDR(_3517947_37);
+Obj _3517949_37 = PRIM_CAR(_3517948_37);
+Obj nargs = _3517949_37;
+Obj _3517950_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517951_37 = PRIM_CDR(_3517950_37);
+Obj _3517952_37 = PRIM_CDR(_3517951_37);
+Obj _3517953_37 = PRIM_ISCONS(_3517952_37);
+if (True == _3517953_37) {
+Obj _3517954_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517955_37 = PRIM_CDR(_3517954_37);
+Obj _3517956_37 = PRIM_CDR(_3517955_37);
+Obj _3517957_37 = PRIM_CAR(_3517956_37);
+Obj nframe = _3517957_37;
+Obj _3517958_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517959_37 = PRIM_CDR(_3517958_37);
+Obj _3517960_37 = PRIM_CDR(_3517959_37);
+Obj _3517961_37 = PRIM_CDR(_3517960_37);
+Obj frees = _3517961_37;
 R[1] = nframe;
 R[2] = label;
 R[3] = nargs;
@@ -3547,40 +3547,40 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516748_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517945_37= co->res;
+Obj _3517974_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3517944_37= co->res;
+Obj _3517973_37= co->res;
 Obj frees = R[1];
 saveCont(co, clofun89, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
@@ -3589,10 +3589,10 @@ return;
 }
 case 3:
 {
-Obj _3517942_37= co->res;
+Obj _3517971_37= co->res;
 Obj frees = R[1];
-Obj _3517943_37 = primNot(_3517942_37);
-if (True == _3517943_37) {
+Obj _3517972_37 = primNot(_3517971_37);
+if (True == _3517972_37) {
 R[1] = frees;
 saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -3606,7 +3606,7 @@ return;
 }
 case 4:
 {
-Obj _3517941_37= co->res;
+Obj _3517970_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 3, R);
@@ -3615,16 +3615,16 @@ return;
 }
 case 5:
 {
-Obj _3517940_37= co->res;
+Obj _3517969_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517940_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517969_37);
 return;
 }
 case 6:
 {
-Obj _3517939_37= co->res;
+Obj _3517968_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 5, R);
@@ -3633,7 +3633,7 @@ return;
 }
 case 7:
 {
-Obj _3517938_37= co->res;
+Obj _3517967_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 6, R);
@@ -3642,7 +3642,7 @@ return;
 }
 case 8:
 {
-Obj _3517937_37= co->res;
+Obj _3517966_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = frees;
@@ -3652,7 +3652,7 @@ return;
 }
 case 9:
 {
-Obj _3517936_37= co->res;
+Obj _3517965_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = nargs;
@@ -3663,7 +3663,7 @@ return;
 }
 case 10:
 {
-Obj _3517935_37= co->res;
+Obj _3517964_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3675,7 +3675,7 @@ return;
 }
 case 11:
 {
-Obj _3517934_37= co->res;
+Obj _3517963_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3688,7 +3688,7 @@ return;
 }
 case 12:
 {
-Obj _3517933_37= co->res;
+Obj _3517962_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj nargs = R[3];
@@ -3707,31 +3707,31 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516720_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517887_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517887_37) {
-Obj _3517888_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517889_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517888_37);
-if (True == _3517889_37) {
-Obj _3517890_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517891_37 = PRIM_ISCONS(_3517890_37);
-if (True == _3517891_37) {
-Obj _3517892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517893_37 = PRIM_CAR(_3517892_37);
-Obj a = _3517893_37;
-Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517895_37 = PRIM_CDR(_3517894_37);
-Obj _3517896_37 = PRIM_ISCONS(_3517895_37);
-if (True == _3517896_37) {
-Obj _3517897_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517898_37 = PRIM_CDR(_3517897_37);
-Obj _3517899_37 = PRIM_CAR(_3517898_37);
-Obj b = _3517899_37;
-Obj _3517900_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517901_37 = PRIM_CDR(_3517900_37);
-Obj _3517902_37 = PRIM_CDR(_3517901_37);
-Obj _3517903_37 = PRIM_EQ(Nil, _3517902_37);
-if (True == _3517903_37) {
+Obj _3516749_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3517916_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517916_37) {
+Obj _3517917_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517918_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517917_37);
+if (True == _3517918_37) {
+Obj _3517919_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517920_37 = PRIM_ISCONS(_3517919_37);
+if (True == _3517920_37) {
+Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517922_37 = PRIM_CAR(_3517921_37);
+Obj a = _3517922_37;
+Obj _3517923_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517924_37 = PRIM_CDR(_3517923_37);
+Obj _3517925_37 = PRIM_ISCONS(_3517924_37);
+if (True == _3517925_37) {
+Obj _3517926_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517927_37 = PRIM_CDR(_3517926_37);
+Obj _3517928_37 = PRIM_CAR(_3517927_37);
+Obj b = _3517928_37;
+Obj _3517929_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517930_37 = PRIM_CDR(_3517929_37);
+Obj _3517931_37 = PRIM_CDR(_3517930_37);
+Obj _3517932_37 = PRIM_EQ(Nil, _3517931_37);
+if (True == _3517932_37) {
 R[1] = a;
 R[2] = b;
 saveCont(co, clofun88, 4, R);
@@ -3739,41 +3739,41 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516749_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517907_37= co->res;
+Obj _3517936_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517907_37, b, closureRef(R[0], 5));
+coraCall2(co, _3517936_37, b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517906_37= co->res;
+Obj _3517935_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun88, 1, R);
@@ -3782,7 +3782,7 @@ return;
 }
 case 3:
 {
-Obj _3517905_37= co->res;
+Obj _3517934_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun88, 2, R);
@@ -3791,12 +3791,12 @@ return;
 }
 case 4:
 {
-Obj _3517904_37= co->res;
+Obj _3517933_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 R[1] = b;
 saveCont(co, clofun88, 3, R);
-coraCall2(co, _3517904_37, a, closureRef(R[0], 5));
+coraCall2(co, _3517933_37, a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3806,72 +3806,72 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516721_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517873_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517873_37) {
-Obj _3517874_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517875_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517874_37);
-if (True == _3517875_37) {
-Obj _3517876_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517877_37 = PRIM_ISCONS(_3517876_37);
-if (True == _3517877_37) {
-Obj _3517878_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517879_37 = PRIM_CAR(_3517878_37);
-Obj x = _3517879_37;
-Obj _3517880_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517881_37 = PRIM_CDR(_3517880_37);
-Obj _3517882_37 = PRIM_EQ(Nil, _3517881_37);
-if (True == _3517882_37) {
+Obj _3516750_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517902_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517902_37) {
+Obj _3517903_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517904_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517903_37);
+if (True == _3517904_37) {
+Obj _3517905_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517906_37 = PRIM_ISCONS(_3517905_37);
+if (True == _3517906_37) {
+Obj _3517907_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517908_37 = PRIM_CAR(_3517907_37);
+Obj x = _3517908_37;
+Obj _3517909_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517910_37 = PRIM_CDR(_3517909_37);
+Obj _3517911_37 = PRIM_EQ(Nil, _3517910_37);
+if (True == _3517911_37) {
 R[1] = x;
 saveCont(co, clofun87, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516750_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517886_37= co->res;
+Obj _3517915_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517885_37= co->res;
+Obj _3517914_37= co->res;
 saveCont(co, clofun87, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517884_37= co->res;
+Obj _3517913_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun87, 2, R);
-coraCall2(co, _3517884_37, x, closureRef(R[0], 4));
+coraCall2(co, _3517913_37, x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517883_37= co->res;
+Obj _3517912_37= co->res;
 Obj x = R[1];
 R[1] = x;
 saveCont(co, clofun87, 3, R);
@@ -3885,65 +3885,65 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517860_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517860_37) {
-Obj _3517861_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517862_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517861_37);
-if (True == _3517862_37) {
-Obj _3517863_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517864_37 = PRIM_ISCONS(_3517863_37);
-if (True == _3517864_37) {
-Obj _3517865_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517866_37 = PRIM_CAR(_3517865_37);
-Obj exp = _3517866_37;
-Obj _3517867_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517868_37 = PRIM_CDR(_3517867_37);
-Obj _3517869_37 = PRIM_EQ(Nil, _3517868_37);
-if (True == _3517869_37) {
+Obj _3516751_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517889_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517889_37) {
+Obj _3517890_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517891_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517890_37);
+if (True == _3517891_37) {
+Obj _3517892_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517893_37 = PRIM_ISCONS(_3517892_37);
+if (True == _3517893_37) {
+Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517895_37 = PRIM_CAR(_3517894_37);
+Obj exp = _3517895_37;
+Obj _3517896_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517897_37 = PRIM_CDR(_3517896_37);
+Obj _3517898_37 = PRIM_EQ(Nil, _3517897_37);
+if (True == _3517898_37) {
 R[1] = exp;
 saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516751_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517872_37= co->res;
+Obj _3517901_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517871_37= co->res;
+Obj _3517900_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517871_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517900_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517870_37= co->res;
+Obj _3517899_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun86, 2, R);
@@ -3957,30 +3957,30 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517836_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517836_37) {
-Obj _3517837_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517838_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517837_37);
-if (True == _3517838_37) {
-Obj _3517839_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517840_37 = PRIM_ISCONS(_3517839_37);
-if (True == _3517840_37) {
-Obj _3517841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517842_37 = PRIM_CAR(_3517841_37);
-Obj exp = _3517842_37;
-Obj _3517843_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517844_37 = PRIM_CDR(_3517843_37);
-Obj _3517845_37 = PRIM_ISCONS(_3517844_37);
-if (True == _3517845_37) {
-Obj _3517846_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517847_37 = PRIM_CDR(_3517846_37);
-Obj _3517848_37 = PRIM_CAR(_3517847_37);
-Obj label = _3517848_37;
-Obj _3517849_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517850_37 = PRIM_CDR(_3517849_37);
-Obj _3517851_37 = PRIM_CDR(_3517850_37);
-Obj fvs = _3517851_37;
+Obj _3516752_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517865_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517865_37) {
+Obj _3517866_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517867_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517866_37);
+if (True == _3517867_37) {
+Obj _3517868_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517869_37 = PRIM_ISCONS(_3517868_37);
+if (True == _3517869_37) {
+Obj _3517870_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517871_37 = PRIM_CAR(_3517870_37);
+Obj exp = _3517871_37;
+Obj _3517872_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517873_37 = PRIM_CDR(_3517872_37);
+Obj _3517874_37 = PRIM_ISCONS(_3517873_37);
+if (True == _3517874_37) {
+Obj _3517875_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517876_37 = PRIM_CDR(_3517875_37);
+Obj _3517877_37 = PRIM_CAR(_3517876_37);
+Obj label = _3517877_37;
+Obj _3517878_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517879_37 = PRIM_CDR(_3517878_37);
+Obj _3517880_37 = PRIM_CDR(_3517879_37);
+Obj fvs = _3517880_37;
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun85, 8, R);
@@ -3989,43 +3989,43 @@ coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516752_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517859_37= co->res;
+Obj _3517888_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517858_37= co->res;
+Obj _3517887_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, _3517858_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517887_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517857_37= co->res;
+Obj _3517886_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun85, 2, R);
@@ -4034,7 +4034,7 @@ return;
 }
 case 4:
 {
-Obj _3517856_37= co->res;
+Obj _3517885_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun85, 3, R);
@@ -4043,7 +4043,7 @@ return;
 }
 case 5:
 {
-Obj _3517855_37= co->res;
+Obj _3517884_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = exp;
@@ -4053,7 +4053,7 @@ return;
 }
 case 6:
 {
-Obj _3517854_37= co->res;
+Obj _3517883_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4064,7 +4064,7 @@ return;
 }
 case 7:
 {
-Obj _3517853_37= co->res;
+Obj _3517882_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4075,7 +4075,7 @@ return;
 }
 case 8:
 {
-Obj _3517852_37= co->res;
+Obj _3517881_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4091,12 +4091,12 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517813_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517813_37) {
-Obj _3517814_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517814_37;
-Obj _3517815_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517815_37;
+Obj _3517842_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517842_37) {
+Obj _3517843_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517843_37;
+Obj _3517844_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517844_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun84, 18, R);
@@ -4110,14 +4110,14 @@ return;
 }
 case 1:
 {
-Obj _3517827_37= co->res;
+Obj _3517856_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517826_37= co->res;
+Obj _3517855_37= co->res;
 Obj nargs = R[1];
 saveCont(co, clofun84, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
@@ -4125,7 +4125,7 @@ return;
 }
 case 3:
 {
-Obj _3517825_37= co->res;
+Obj _3517854_37= co->res;
 Obj nargs = R[1];
 R[1] = nargs;
 saveCont(co, clofun84, 2, R);
@@ -4134,17 +4134,17 @@ return;
 }
 case 4:
 {
-Obj _3517824_37= co->res;
+Obj _3517853_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = nargs;
 saveCont(co, clofun84, 3, R);
-coraCall2(co, _3517824_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517853_37, f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517823_37= co->res;
+Obj _3517852_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4155,7 +4155,7 @@ return;
 }
 case 6:
 {
-Obj _3517822_37= co->res;
+Obj _3517851_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4166,7 +4166,7 @@ return;
 }
 case 7:
 {
-Obj _3517821_37= co->res;
+Obj _3517850_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4177,7 +4177,7 @@ return;
 }
 case 8:
 {
-Obj _3517820_37= co->res;
+Obj _3517849_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4190,7 +4190,7 @@ return;
 }
 case 9:
 {
-Obj _3517819_37= co->res;
+Obj _3517848_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4203,7 +4203,7 @@ return;
 }
 case 10:
 {
-Obj _3517818_37= co->res;
+Obj _3517847_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4216,14 +4216,14 @@ return;
 }
 case 11:
 {
-Obj _3517835_37= co->res;
+Obj _3517864_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517834_37= co->res;
+Obj _3517863_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun84, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -4232,11 +4232,11 @@ return;
 }
 case 13:
 {
-Obj _3517832_37= co->res;
+Obj _3517861_37= co->res;
 Obj nargs = R[1];
 Obj args = R[2];
-Obj _3517833_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517833_37) {
+Obj _3517862_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
+if (True == _3517862_37) {
 R[1] = args;
 saveCont(co, clofun84, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -4250,19 +4250,19 @@ return;
 }
 case 14:
 {
-Obj _3517831_37= co->res;
+Obj _3517860_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = nargs;
 R[2] = args;
 saveCont(co, clofun84, 13, R);
-coraCall2(co, _3517831_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517860_37, f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517830_37= co->res;
+Obj _3517859_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4275,7 +4275,7 @@ return;
 }
 case 16:
 {
-Obj _3517829_37= co->res;
+Obj _3517858_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4288,7 +4288,7 @@ return;
 }
 case 17:
 {
-Obj _3517828_37= co->res;
+Obj _3517857_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4301,12 +4301,12 @@ return;
 }
 case 18:
 {
-Obj _3517816_37= co->res;
+Obj _3517845_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj nargs = _3517816_37;
-Obj _3517817_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517817_37) {
+Obj nargs = _3517845_37;
+Obj _3517846_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
+if (True == _3517846_37) {
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
@@ -4355,15 +4355,15 @@ return;
 }
 case 1:
 {
-Obj _3517808_37= co->res;
+Obj _3517837_37= co->res;
 Obj acc = R[1];
-Obj _3517809_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517809_37);
+Obj _3517838_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517838_37);
 return;
 }
 case 2:
 {
-Obj _3517807_37= co->res;
+Obj _3517836_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun82, 1, R);
@@ -4372,7 +4372,7 @@ return;
 }
 case 3:
 {
-Obj _3517806_37= co->res;
+Obj _3517835_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun82, 2, R);
@@ -4381,7 +4381,7 @@ return;
 }
 case 4:
 {
-Obj _3517805_37= co->res;
+Obj _3517834_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun82, 3, R);
@@ -4390,7 +4390,7 @@ return;
 }
 case 5:
 {
-Obj _3517804_37= co->res;
+Obj _3517833_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -4432,15 +4432,15 @@ return;
 }
 case 1:
 {
-Obj _3517801_37= co->res;
+Obj _3517830_37= co->res;
 Obj acc = R[1];
-Obj _3517802_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517802_37);
+Obj _3517831_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517831_37);
 return;
 }
 case 2:
 {
-Obj _3517800_37= co->res;
+Obj _3517829_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun80, 1, R);
@@ -4449,7 +4449,7 @@ return;
 }
 case 3:
 {
-Obj _3517799_37= co->res;
+Obj _3517828_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -4460,7 +4460,7 @@ return;
 }
 case 4:
 {
-Obj _3517798_37= co->res;
+Obj _3517827_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
@@ -4471,7 +4471,7 @@ return;
 }
 case 5:
 {
-Obj _3517797_37= co->res;
+Obj _3517826_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
@@ -4512,24 +4512,24 @@ return;
 }
 case 1:
 {
-Obj _3517790_37= co->res;
+Obj _3517819_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517790_37) {
+if (True == _3517819_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517791_37 = PRIM_CAR(globals);
-Obj _3517792_37 = PRIM_EQ(sym, _3517791_37);
-if (True == _3517792_37) {
+Obj _3517820_37 = PRIM_CAR(globals);
+Obj _3517821_37 = PRIM_EQ(sym, _3517820_37);
+if (True == _3517821_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517793_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517794_37 = PRIM_CDR(globals);
+Obj _3517822_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517823_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517793_37, sym, _3517794_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517822_37, sym, _3517823_37);
 return;
 }
 }
@@ -4551,26 +4551,26 @@ return;
 }
 case 1:
 {
-Obj _3517786_37= co->res;
+Obj _3517815_37= co->res;
 Obj sym = R[1];
 Obj val = R[2];
 Obj globals = R[3];
-if (True == _3517786_37) {
+if (True == _3517815_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517787_37 = makeCons(co->gc, sym, val);
-Obj _3517788_37 = primSet(co, globals, _3517787_37);
-coraReturn(co, _3517788_37);
+Obj _3517816_37 = makeCons(co->gc, sym, val);
+Obj _3517817_37 = primSet(co, globals, _3517816_37);
+coraReturn(co, _3517817_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517785_37= co->res;
+Obj _3517814_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517785_37;
+Obj val = _3517814_37;
 R[1] = sym;
 R[2] = val;
 R[3] = globals;
@@ -4587,8 +4587,8 @@ case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517778_37 = primGenSym(co);
-Obj tmp = _3517778_37;
+Obj _3517807_37 = primGenSym(co);
+Obj tmp = _3517807_37;
 R[1] = x;
 R[2] = tmp;
 saveCont(co, clofun76, 1, R);
@@ -4597,14 +4597,14 @@ return;
 }
 case 1:
 {
-Obj _3517779_37= co->res;
+Obj _3517808_37= co->res;
 Obj x = R[1];
 Obj tmp = R[2];
-Obj _3517780_37 = makeCons(co->gc, _3517779_37, Nil);
-Obj _3517781_37 = makeCons(co->gc, x, _3517780_37);
-Obj _3517782_37 = makeCons(co->gc, tmp, _3517781_37);
-Obj _3517783_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517782_37);
-coraReturn(co, _3517783_37);
+Obj _3517809_37 = makeCons(co->gc, _3517808_37, Nil);
+Obj _3517810_37 = makeCons(co->gc, x, _3517809_37);
+Obj _3517811_37 = makeCons(co->gc, tmp, _3517810_37);
+Obj _3517812_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517811_37);
+coraReturn(co, _3517812_37);
 return;
 }
 }
@@ -4624,7 +4624,7 @@ return;
 }
 case 1:
 {
-Obj _3517776_37= co->res;
+Obj _3517805_37= co->res;
 Obj v = R[1];
 Obj cur1 = R[2];
 co->ctx.sp = R;
@@ -4633,28 +4633,28 @@ return;
 }
 case 2:
 {
-Obj _3517771_37= co->res;
+Obj _3517800_37= co->res;
 Obj val = R[1];
 Obj idx = R[2];
 Obj v = R[3];
-Obj cur = _3517771_37;
-Obj _3517772_37 = makeCons(co->gc, val, Nil);
-Obj _3517773_37 = makeCons(co->gc, idx, _3517772_37);
-Obj _3517774_37 = makeCons(co->gc, _3517773_37, cur);
-Obj cur1 = _3517774_37;
-Obj _3517775_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj cur = _3517800_37;
+Obj _3517801_37 = makeCons(co->gc, val, Nil);
+Obj _3517802_37 = makeCons(co->gc, idx, _3517801_37);
+Obj _3517803_37 = makeCons(co->gc, _3517802_37, cur);
+Obj cur1 = _3517803_37;
+Obj _3517804_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
 R[1] = v;
 R[2] = cur1;
 saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517775_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517804_37);
 return;
 }
 case 3:
 {
-Obj _3517770_37= co->res;
+Obj _3517799_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517770_37;
+Obj idx = _3517799_37;
 R[1] = val;
 R[2] = idx;
 R[3] = v;
@@ -4669,121 +4669,121 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = R[1];
-Obj _3516709_37 = R[2];
-Obj _3516710_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516708_37, _3516709_37);
-Obj _3517721_37 = PRIM_ISCONS(_3516709_37);
-if (True == _3517721_37) {
-Obj _3517722_37 = PRIM_CAR(_3516709_37);
-Obj _3517723_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517722_37);
-if (True == _3517723_37) {
-Obj _3517724_37 = PRIM_CDR(_3516709_37);
-Obj _3517725_37 = PRIM_ISCONS(_3517724_37);
-if (True == _3517725_37) {
-Obj _3517726_37 = PRIM_CDR(_3516709_37);
-Obj _3517727_37 = PRIM_CAR(_3517726_37);
-Obj _3517728_37 = PRIM_ISCONS(_3517727_37);
-if (True == _3517728_37) {
-Obj _3517729_37 = PRIM_CDR(_3516709_37);
-Obj _3517730_37 = PRIM_CAR(_3517729_37);
-Obj _3517731_37 = PRIM_CAR(_3517730_37);
-Obj _3517732_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517731_37);
-if (True == _3517732_37) {
-Obj _3517733_37 = PRIM_CDR(_3516709_37);
-Obj _3517734_37 = PRIM_CAR(_3517733_37);
-Obj _3517735_37 = PRIM_CDR(_3517734_37);
-Obj _3517736_37 = PRIM_ISCONS(_3517735_37);
-if (True == _3517736_37) {
-Obj _3517737_37 = PRIM_CDR(_3516709_37);
-Obj _3517738_37 = PRIM_CAR(_3517737_37);
-Obj _3517739_37 = PRIM_CDR(_3517738_37);
-Obj _3517740_37 = PRIM_CAR(_3517739_37);
-Obj params = _3517740_37;
-Obj _3517741_37 = PRIM_CDR(_3516709_37);
-Obj _3517742_37 = PRIM_CAR(_3517741_37);
-Obj _3517743_37 = PRIM_CDR(_3517742_37);
-Obj _3517744_37 = PRIM_CDR(_3517743_37);
-Obj _3517745_37 = PRIM_ISCONS(_3517744_37);
-if (True == _3517745_37) {
-Obj _3517746_37 = PRIM_CDR(_3516709_37);
-Obj _3517747_37 = PRIM_CAR(_3517746_37);
-Obj _3517748_37 = PRIM_CDR(_3517747_37);
-Obj _3517749_37 = PRIM_CDR(_3517748_37);
-Obj _3517750_37 = PRIM_CAR(_3517749_37);
-Obj body = _3517750_37;
-Obj _3517751_37 = PRIM_CDR(_3516709_37);
-Obj _3517752_37 = PRIM_CAR(_3517751_37);
-Obj _3517753_37 = PRIM_CDR(_3517752_37);
-Obj _3517754_37 = PRIM_CDR(_3517753_37);
-Obj _3517755_37 = PRIM_CDR(_3517754_37);
-Obj _3517756_37 = PRIM_EQ(Nil, _3517755_37);
-if (True == _3517756_37) {
-Obj _3517757_37 = PRIM_CDR(_3516709_37);
-Obj _3517758_37 = PRIM_CDR(_3517757_37);
-Obj fvs = _3517758_37;
-R[1] = _3516708_37;
+Obj _3516737_37 = R[1];
+Obj _3516738_37 = R[2];
+Obj _3516739_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516737_37, _3516738_37);
+Obj _3517750_37 = PRIM_ISCONS(_3516738_37);
+if (True == _3517750_37) {
+Obj _3517751_37 = PRIM_CAR(_3516738_37);
+Obj _3517752_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517751_37);
+if (True == _3517752_37) {
+Obj _3517753_37 = PRIM_CDR(_3516738_37);
+Obj _3517754_37 = PRIM_ISCONS(_3517753_37);
+if (True == _3517754_37) {
+Obj _3517755_37 = PRIM_CDR(_3516738_37);
+Obj _3517756_37 = PRIM_CAR(_3517755_37);
+Obj _3517757_37 = PRIM_ISCONS(_3517756_37);
+if (True == _3517757_37) {
+Obj _3517758_37 = PRIM_CDR(_3516738_37);
+Obj _3517759_37 = PRIM_CAR(_3517758_37);
+Obj _3517760_37 = PRIM_CAR(_3517759_37);
+Obj _3517761_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517760_37);
+if (True == _3517761_37) {
+Obj _3517762_37 = PRIM_CDR(_3516738_37);
+Obj _3517763_37 = PRIM_CAR(_3517762_37);
+Obj _3517764_37 = PRIM_CDR(_3517763_37);
+Obj _3517765_37 = PRIM_ISCONS(_3517764_37);
+if (True == _3517765_37) {
+Obj _3517766_37 = PRIM_CDR(_3516738_37);
+Obj _3517767_37 = PRIM_CAR(_3517766_37);
+Obj _3517768_37 = PRIM_CDR(_3517767_37);
+Obj _3517769_37 = PRIM_CAR(_3517768_37);
+Obj params = _3517769_37;
+Obj _3517770_37 = PRIM_CDR(_3516738_37);
+Obj _3517771_37 = PRIM_CAR(_3517770_37);
+Obj _3517772_37 = PRIM_CDR(_3517771_37);
+Obj _3517773_37 = PRIM_CDR(_3517772_37);
+Obj _3517774_37 = PRIM_ISCONS(_3517773_37);
+if (True == _3517774_37) {
+Obj _3517775_37 = PRIM_CDR(_3516738_37);
+Obj _3517776_37 = PRIM_CAR(_3517775_37);
+Obj _3517777_37 = PRIM_CDR(_3517776_37);
+Obj _3517778_37 = PRIM_CDR(_3517777_37);
+Obj _3517779_37 = PRIM_CAR(_3517778_37);
+Obj body = _3517779_37;
+Obj _3517780_37 = PRIM_CDR(_3516738_37);
+Obj _3517781_37 = PRIM_CAR(_3517780_37);
+Obj _3517782_37 = PRIM_CDR(_3517781_37);
+Obj _3517783_37 = PRIM_CDR(_3517782_37);
+Obj _3517784_37 = PRIM_CDR(_3517783_37);
+Obj _3517785_37 = PRIM_EQ(Nil, _3517784_37);
+if (True == _3517785_37) {
+Obj _3517786_37 = PRIM_CDR(_3516738_37);
+Obj _3517787_37 = PRIM_CDR(_3517786_37);
+Obj fvs = _3517787_37;
+R[1] = _3516737_37;
 R[2] = params;
 R[3] = fvs;
 saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516708_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516737_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516739_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517764_37= co->res;
+Obj _3517793_37= co->res;
 Obj nframe = R[1];
 Obj fvs = R[2];
 Obj cur = R[3];
-Obj _3517765_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517766_37 = makeCons(co->gc, _3517764_37, _3517765_37);
-Obj _3517767_37 = makeCons(co->gc, cur, _3517766_37);
-Obj _3517768_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517767_37);
-coraReturn(co, _3517768_37);
+Obj _3517794_37 = makeCons(co->gc, nframe, fvs);
+Obj _3517795_37 = makeCons(co->gc, _3517793_37, _3517794_37);
+Obj _3517796_37 = makeCons(co->gc, cur, _3517795_37);
+Obj _3517797_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517796_37);
+coraReturn(co, _3517797_37);
 return;
 }
 case 2:
 {
-Obj _3517763_37= co->res;
+Obj _3517792_37= co->res;
 Obj params = R[1];
 Obj nframe = R[2];
 Obj fvs = R[3];
@@ -4797,30 +4797,30 @@ return;
 }
 case 3:
 {
-Obj _3517762_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517791_37= co->res;
+Obj _3516737_37 = R[1];
 Obj body2 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
 Obj cur = R[5];
-Obj nframe = _3517762_37;
+Obj nframe = _3517791_37;
 R[1] = params;
 R[2] = nframe;
 R[3] = fvs;
 R[4] = cur;
 saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516708_37, body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516737_37, body2);
 return;
 }
 case 4:
 {
-Obj _3517761_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517790_37= co->res;
+Obj _3516737_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
 Obj cur = R[4];
-Obj body2 = _3517761_37;
-R[1] = _3516708_37;
+Obj body2 = _3517790_37;
+R[1] = _3516737_37;
 R[2] = body2;
 R[3] = params;
 R[4] = fvs;
@@ -4831,13 +4831,13 @@ return;
 }
 case 5:
 {
-Obj _3517760_37= co->res;
+Obj _3517789_37= co->res;
 Obj body1 = R[1];
-Obj _3516708_37 = R[2];
+Obj _3516737_37 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
-Obj cur = _3517760_37;
-R[1] = _3516708_37;
+Obj cur = _3517789_37;
+R[1] = _3516737_37;
 R[2] = params;
 R[3] = fvs;
 R[4] = cur;
@@ -4847,17 +4847,17 @@ return;
 }
 case 6:
 {
-Obj _3517759_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517788_37= co->res;
+Obj _3516737_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
-Obj body1 = _3517759_37;
+Obj body1 = _3517788_37;
 R[1] = body1;
-R[2] = _3516708_37;
+R[2] = _3516737_37;
 R[3] = params;
 R[4] = fvs;
 saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516708_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516737_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4867,8 +4867,8 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517719_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517719_37) {
+Obj _3517748_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517748_37) {
 saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4879,9 +4879,9 @@ return;
 }
 case 1:
 {
-Obj _3517720_37= co->res;
+Obj _3517749_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517720_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517749_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4899,30 +4899,30 @@ return;
 }
 case 1:
 {
-Obj _3517717_37= co->res;
-Obj _3517716_37 = R[1];
+Obj _3517746_37= co->res;
+Obj _3517745_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517716_37, _3517717_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517745_37, _3517746_37);
 return;
 }
 case 2:
 {
-Obj _3517711_37= co->res;
+Obj _3517740_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517711_37;
-Obj _3517716_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517716_37;
+Obj nargs = _3517740_37;
+Obj _3517745_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
+R[1] = _3517745_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 3:
 {
-Obj _3517710_37= co->res;
+Obj _3517739_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517710_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517739_37);
 return;
 }
 }
@@ -4941,12 +4941,12 @@ return;
 }
 case 1:
 {
-Obj _3517713_37= co->res;
+Obj _3517742_37= co->res;
 Obj acc = R[1];
-Obj _3517714_37 = PRIM_ADD(_3517713_37, MAKE_NUMBER(1));
-Obj len = _3517714_37;
-Obj _3517715_37 = PRIM_GT(len, acc);
-if (True == _3517715_37) {
+Obj _3517743_37 = PRIM_ADD(_3517742_37, MAKE_NUMBER(1));
+Obj len = _3517743_37;
+Obj _3517744_37 = PRIM_GT(len, acc);
+if (True == _3517744_37) {
 coraReturn(co, len);
 return;
 } else {
@@ -4956,11 +4956,11 @@ return;
 }
 case 2:
 {
-Obj _3517712_37= co->res;
+Obj _3517741_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517712_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517741_37);
 return;
 }
 }
@@ -4992,12 +4992,12 @@ return;
 }
 case 1:
 {
-Obj _3517705_37= co->res;
+Obj _3517734_37= co->res;
 Obj body1 = R[1];
-Obj _3517706_37 = makeCons(co->gc, body1, _3517705_37);
-Obj _3517707_37 = makeCons(co->gc, closureRef(R[0], 0), _3517706_37);
-Obj _3517708_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517707_37);
-coraReturn(co, _3517708_37);
+Obj _3517735_37 = makeCons(co->gc, body1, _3517734_37);
+Obj _3517736_37 = makeCons(co->gc, closureRef(R[0], 0), _3517735_37);
+Obj _3517737_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517736_37);
+coraReturn(co, _3517737_37);
 return;
 }
 }
@@ -5007,24 +5007,24 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516702_37 = R[1];
-Obj _3516703_37 = R[2];
-Obj _3516704_37 = R[3];
-Obj _3516705_37 = R[4];
-Obj _3517699_37 = PRIM_EQ(Nil, _3516702_37);
-if (True == _3517699_37) {
+Obj _3516731_37 = R[1];
+Obj _3516732_37 = R[2];
+Obj _3516733_37 = R[3];
+Obj _3516734_37 = R[4];
+Obj _3517728_37 = PRIM_EQ(Nil, _3516731_37);
+if (True == _3517728_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516705_37, _3516704_37, _3516703_37);
+coraCall2(co, _3516734_37, _3516733_37, _3516732_37);
 return;
 } else {
-Obj _3517700_37 = PRIM_ISCONS(_3516702_37);
-if (True == _3517700_37) {
-Obj _3517701_37 = PRIM_CAR(_3516702_37);
-Obj f = _3517701_37;
-Obj _3517702_37 = PRIM_CDR(_3516702_37);
-Obj args = _3517702_37;
+Obj _3517729_37 = PRIM_ISCONS(_3516731_37);
+if (True == _3517729_37) {
+Obj _3517730_37 = PRIM_CAR(_3516731_37);
+Obj f = _3517730_37;
+Obj _3517731_37 = PRIM_CDR(_3516731_37);
+Obj args = _3517731_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516703_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516704_37, _3516705_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516732_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516733_37, _3516734_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5055,9 +5055,9 @@ case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517703_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3517732_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517703_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3517732_37, conts2);
 return;
 }
 }
@@ -5067,33 +5067,33 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516696_37 = R[1];
-Obj _3516697_37 = R[2];
-Obj _3516698_37 = R[3];
-Obj _3516772_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516696_37, _3516697_37, _3516698_37);
-Obj _3517696_37 = primIsSymbol(_3516696_37);
-if (True == _3517696_37) {
+Obj _3516725_37 = R[1];
+Obj _3516726_37 = R[2];
+Obj _3516727_37 = R[3];
+Obj _3516801_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516725_37, _3516726_37, _3516727_37);
+Obj _3517725_37 = primIsSymbol(_3516725_37);
+if (True == _3517725_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, _3516801_37, True);
 return;
 } else {
-R[1] = _3516772_37;
+R[1] = _3516801_37;
 saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516696_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516725_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517697_37= co->res;
-Obj _3516772_37 = R[1];
-if (True == _3517697_37) {
+Obj _3517726_37= co->res;
+Obj _3516801_37 = R[1];
+if (True == _3517726_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, _3516801_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, False);
+coraCall1(co, _3516801_37, False);
 return;
 }
 }
@@ -5104,63 +5104,63 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516773_37 = R[1];
-if (True == _3516773_37) {
+Obj _3516802_37 = R[1];
+if (True == _3516802_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516700_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517672_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517672_37) {
-Obj _3517673_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517674_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517673_37);
-if (True == _3517674_37) {
-Obj _3517675_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517676_37 = PRIM_ISCONS(_3517675_37);
-if (True == _3517676_37) {
-Obj _3517677_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517678_37 = PRIM_CAR(_3517677_37);
-Obj exp = _3517678_37;
-Obj _3517679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517680_37 = PRIM_CDR(_3517679_37);
-Obj _3517681_37 = PRIM_ISCONS(_3517680_37);
-if (True == _3517681_37) {
-Obj _3517682_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517683_37 = PRIM_CDR(_3517682_37);
-Obj _3517684_37 = PRIM_CAR(_3517683_37);
-Obj cont = _3517684_37;
-Obj _3517685_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517686_37 = PRIM_CDR(_3517685_37);
-Obj _3517687_37 = PRIM_CDR(_3517686_37);
-Obj _3517688_37 = PRIM_EQ(Nil, _3517687_37);
-if (True == _3517688_37) {
+Obj _3516729_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517701_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517701_37) {
+Obj _3517702_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517703_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517702_37);
+if (True == _3517703_37) {
+Obj _3517704_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517705_37 = PRIM_ISCONS(_3517704_37);
+if (True == _3517705_37) {
+Obj _3517706_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517707_37 = PRIM_CAR(_3517706_37);
+Obj exp = _3517707_37;
+Obj _3517708_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517709_37 = PRIM_CDR(_3517708_37);
+Obj _3517710_37 = PRIM_ISCONS(_3517709_37);
+if (True == _3517710_37) {
+Obj _3517711_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517712_37 = PRIM_CDR(_3517711_37);
+Obj _3517713_37 = PRIM_CAR(_3517712_37);
+Obj cont = _3517713_37;
+Obj _3517714_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517715_37 = PRIM_CDR(_3517714_37);
+Obj _3517716_37 = PRIM_CDR(_3517715_37);
+Obj _3517717_37 = PRIM_EQ(Nil, _3517716_37);
+if (True == _3517717_37) {
 co->ctx.sp = R;
 coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516729_37);
 return;
 }
 }
@@ -5182,25 +5182,25 @@ return;
 }
 case 1:
 {
-Obj _3517690_37= co->res;
+Obj _3517719_37= co->res;
 Obj fvs = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517691_37 = PRIM_ADD(_3517690_37, MAKE_NUMBER(1));
-Obj _3517692_37 = makeCons(co->gc, _3517691_37, fvs);
-Obj _3517693_37 = makeCons(co->gc, closureRef(R[0], 1), _3517692_37);
-Obj _3517694_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517693_37);
-Obj _3517695_37 = makeCons(co->gc, cont1, conts1);
+Obj _3517720_37 = PRIM_ADD(_3517719_37, MAKE_NUMBER(1));
+Obj _3517721_37 = makeCons(co->gc, _3517720_37, fvs);
+Obj _3517722_37 = makeCons(co->gc, closureRef(R[0], 1), _3517721_37);
+Obj _3517723_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517722_37);
+Obj _3517724_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517694_37, _3517695_37);
+coraCall2(co, closureRef(R[0], 0), _3517723_37, _3517724_37);
 return;
 }
 case 2:
 {
-Obj _3517689_37= co->res;
+Obj _3517718_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517689_37;
+Obj fvs = _3517718_37;
 R[1] = fvs;
 R[2] = cont1;
 R[3] = conts1;
@@ -5215,15 +5215,15 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517668_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517668_37) {
-Obj _3517669_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517669_37;
-Obj _3517670_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517670_37;
-Obj _3517671_37 = makeCons(co->gc, f, args);
+Obj _3517697_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517697_37) {
+Obj _3517698_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517698_37;
+Obj _3517699_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517699_37;
+Obj _3517700_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517671_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517700_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5238,90 +5238,90 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = R[1];
-Obj _3516689_37 = R[2];
-R[1] = _3516689_37;
-R[2] = _3516688_37;
+Obj _3516717_37 = R[1];
+Obj _3516718_37 = R[2];
+R[1] = _3516718_37;
+R[2] = _3516717_37;
 saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516689_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516718_37);
 return;
 }
 case 1:
 {
-Obj _3517663_37= co->res;
+Obj _3517692_37= co->res;
 Obj args = R[1];
-Obj _3517664_37 = makeCons(co->gc, _3517663_37, Nil);
-Obj _3517665_37 = makeCons(co->gc, args, _3517664_37);
-Obj _3517666_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517665_37);
-coraReturn(co, _3517666_37);
+Obj _3517693_37 = makeCons(co->gc, _3517692_37, Nil);
+Obj _3517694_37 = makeCons(co->gc, args, _3517693_37);
+Obj _3517695_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517694_37);
+coraReturn(co, _3517695_37);
 return;
 }
 case 2:
 {
-Obj _3517591_37= co->res;
-Obj _3516689_37 = R[1];
-Obj _3516688_37 = R[2];
-if (True == _3517591_37) {
-coraReturn(co, _3516689_37);
-return;
-} else {
-Obj _3517592_37 = primIsSymbol(_3516689_37);
-if (True == _3517592_37) {
-coraReturn(co, _3516689_37);
+Obj _3517620_37= co->res;
+Obj _3516718_37 = R[1];
+Obj _3516717_37 = R[2];
+if (True == _3517620_37) {
+coraReturn(co, _3516718_37);
 return;
 } else {
-Obj _3516692_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516689_37, _3516688_37);
-Obj _3517646_37 = PRIM_ISCONS(_3516689_37);
-if (True == _3517646_37) {
-Obj _3517647_37 = PRIM_CAR(_3516689_37);
-Obj _3517648_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517647_37);
-if (True == _3517648_37) {
-Obj _3517649_37 = PRIM_CDR(_3516689_37);
-Obj _3517650_37 = PRIM_ISCONS(_3517649_37);
-if (True == _3517650_37) {
-Obj _3517651_37 = PRIM_CDR(_3516689_37);
-Obj _3517652_37 = PRIM_CAR(_3517651_37);
-Obj args = _3517652_37;
-Obj _3517653_37 = PRIM_CDR(_3516689_37);
-Obj _3517654_37 = PRIM_CDR(_3517653_37);
-Obj _3517655_37 = PRIM_ISCONS(_3517654_37);
-if (True == _3517655_37) {
-Obj _3517656_37 = PRIM_CDR(_3516689_37);
-Obj _3517657_37 = PRIM_CDR(_3517656_37);
-Obj _3517658_37 = PRIM_CAR(_3517657_37);
-Obj body = _3517658_37;
-Obj _3517659_37 = PRIM_CDR(_3516689_37);
-Obj _3517660_37 = PRIM_CDR(_3517659_37);
-Obj _3517661_37 = PRIM_CDR(_3517660_37);
-Obj _3517662_37 = PRIM_EQ(Nil, _3517661_37);
-if (True == _3517662_37) {
+Obj _3517621_37 = primIsSymbol(_3516718_37);
+if (True == _3517621_37) {
+coraReturn(co, _3516718_37);
+return;
+} else {
+Obj _3516721_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516718_37, _3516717_37);
+Obj _3517675_37 = PRIM_ISCONS(_3516718_37);
+if (True == _3517675_37) {
+Obj _3517676_37 = PRIM_CAR(_3516718_37);
+Obj _3517677_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517676_37);
+if (True == _3517677_37) {
+Obj _3517678_37 = PRIM_CDR(_3516718_37);
+Obj _3517679_37 = PRIM_ISCONS(_3517678_37);
+if (True == _3517679_37) {
+Obj _3517680_37 = PRIM_CDR(_3516718_37);
+Obj _3517681_37 = PRIM_CAR(_3517680_37);
+Obj args = _3517681_37;
+Obj _3517682_37 = PRIM_CDR(_3516718_37);
+Obj _3517683_37 = PRIM_CDR(_3517682_37);
+Obj _3517684_37 = PRIM_ISCONS(_3517683_37);
+if (True == _3517684_37) {
+Obj _3517685_37 = PRIM_CDR(_3516718_37);
+Obj _3517686_37 = PRIM_CDR(_3517685_37);
+Obj _3517687_37 = PRIM_CAR(_3517686_37);
+Obj body = _3517687_37;
+Obj _3517688_37 = PRIM_CDR(_3516718_37);
+Obj _3517689_37 = PRIM_CDR(_3517688_37);
+Obj _3517690_37 = PRIM_CDR(_3517689_37);
+Obj _3517691_37 = PRIM_EQ(Nil, _3517690_37);
+if (True == _3517691_37) {
 R[1] = args;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516688_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516717_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516721_37);
 return;
 }
 }
@@ -5334,31 +5334,31 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516693_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517621_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517621_37) {
-Obj _3517622_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517623_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517622_37);
-if (True == _3517623_37) {
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = PRIM_ISCONS(_3517624_37);
-if (True == _3517625_37) {
-Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517627_37 = PRIM_CAR(_3517626_37);
-Obj val = _3517627_37;
-Obj _3517628_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517629_37 = PRIM_CDR(_3517628_37);
-Obj _3517630_37 = PRIM_ISCONS(_3517629_37);
-if (True == _3517630_37) {
-Obj _3517631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517632_37 = PRIM_CDR(_3517631_37);
-Obj _3517633_37 = PRIM_CAR(_3517632_37);
-Obj body = _3517633_37;
-Obj _3517634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517635_37 = PRIM_CDR(_3517634_37);
-Obj _3517636_37 = PRIM_CDR(_3517635_37);
-Obj _3517637_37 = PRIM_EQ(Nil, _3517636_37);
-if (True == _3517637_37) {
+Obj _3516722_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517650_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517650_37) {
+Obj _3517651_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517652_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517651_37);
+if (True == _3517652_37) {
+Obj _3517653_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517654_37 = PRIM_ISCONS(_3517653_37);
+if (True == _3517654_37) {
+Obj _3517655_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517656_37 = PRIM_CAR(_3517655_37);
+Obj val = _3517656_37;
+Obj _3517657_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517658_37 = PRIM_CDR(_3517657_37);
+Obj _3517659_37 = PRIM_ISCONS(_3517658_37);
+if (True == _3517659_37) {
+Obj _3517660_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517661_37 = PRIM_CDR(_3517660_37);
+Obj _3517662_37 = PRIM_CAR(_3517661_37);
+Obj body = _3517662_37;
+Obj _3517663_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517664_37 = PRIM_CDR(_3517663_37);
+Obj _3517665_37 = PRIM_CDR(_3517664_37);
+Obj _3517666_37 = PRIM_EQ(Nil, _3517665_37);
+if (True == _3517666_37) {
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun60, 5, R);
@@ -5366,48 +5366,48 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516722_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517642_37= co->res;
+Obj _3517671_37= co->res;
 Obj fvs2 = R[1];
 Obj val = R[2];
-Obj _3517643_37 = makeCons(co->gc, _3517642_37, fvs2);
-Obj _3517644_37 = makeCons(co->gc, val, _3517643_37);
-Obj _3517645_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517644_37);
-coraReturn(co, _3517645_37);
+Obj _3517672_37 = makeCons(co->gc, _3517671_37, fvs2);
+Obj _3517673_37 = makeCons(co->gc, val, _3517672_37);
+Obj _3517674_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517673_37);
+coraReturn(co, _3517674_37);
 return;
 }
 case 2:
 {
-Obj _3517641_37= co->res;
+Obj _3517670_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
-Obj fvs2 = _3517641_37;
+Obj fvs2 = _3517670_37;
 R[1] = fvs2;
 R[2] = val;
 saveCont(co, clofun60, 1, R);
@@ -5416,7 +5416,7 @@ return;
 }
 case 3:
 {
-Obj _3517640_37= co->res;
+Obj _3517669_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
@@ -5424,15 +5424,15 @@ R[1] = fvs1;
 R[2] = body;
 R[3] = val;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517640_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517669_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517639_37= co->res;
+Obj _3517668_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
-Obj fvs1 = _3517639_37;
+Obj fvs1 = _3517668_37;
 R[1] = fvs1;
 R[2] = body;
 R[3] = val;
@@ -5442,13 +5442,13 @@ return;
 }
 case 5:
 {
-Obj _3517638_37= co->res;
+Obj _3517667_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517638_37, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517667_37, val);
 return;
 }
 }
@@ -5458,31 +5458,31 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516694_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517598_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517598_37) {
-Obj _3517599_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517600_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517599_37);
-if (True == _3517600_37) {
-Obj _3517601_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517602_37 = PRIM_ISCONS(_3517601_37);
-if (True == _3517602_37) {
-Obj _3517603_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517604_37 = PRIM_CAR(_3517603_37);
-Obj exp = _3517604_37;
-Obj _3517605_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517606_37 = PRIM_CDR(_3517605_37);
-Obj _3517607_37 = PRIM_ISCONS(_3517606_37);
-if (True == _3517607_37) {
-Obj _3517608_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517609_37 = PRIM_CDR(_3517608_37);
-Obj _3517610_37 = PRIM_CAR(_3517609_37);
-Obj cont = _3517610_37;
-Obj _3517611_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517612_37 = PRIM_CDR(_3517611_37);
-Obj _3517613_37 = PRIM_CDR(_3517612_37);
-Obj _3517614_37 = PRIM_EQ(Nil, _3517613_37);
-if (True == _3517614_37) {
+Obj _3516723_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517627_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517627_37) {
+Obj _3517628_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517629_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517628_37);
+if (True == _3517629_37) {
+Obj _3517630_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517631_37 = PRIM_ISCONS(_3517630_37);
+if (True == _3517631_37) {
+Obj _3517632_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517633_37 = PRIM_CAR(_3517632_37);
+Obj exp = _3517633_37;
+Obj _3517634_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517635_37 = PRIM_CDR(_3517634_37);
+Obj _3517636_37 = PRIM_ISCONS(_3517635_37);
+if (True == _3517636_37) {
+Obj _3517637_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517638_37 = PRIM_CDR(_3517637_37);
+Obj _3517639_37 = PRIM_CAR(_3517638_37);
+Obj cont = _3517639_37;
+Obj _3517640_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517641_37 = PRIM_CDR(_3517640_37);
+Obj _3517642_37 = PRIM_CDR(_3517641_37);
+Obj _3517643_37 = PRIM_EQ(Nil, _3517642_37);
+if (True == _3517643_37) {
 R[1] = exp;
 R[2] = cont;
 saveCont(co, clofun59, 3, R);
@@ -5490,57 +5490,57 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516723_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516723_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517617_37= co->res;
-Obj _3517616_37 = R[1];
-Obj _3517618_37 = makeCons(co->gc, _3517617_37, Nil);
-Obj _3517619_37 = makeCons(co->gc, _3517616_37, _3517618_37);
-Obj _3517620_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517619_37);
-coraReturn(co, _3517620_37);
+Obj _3517646_37= co->res;
+Obj _3517645_37 = R[1];
+Obj _3517647_37 = makeCons(co->gc, _3517646_37, Nil);
+Obj _3517648_37 = makeCons(co->gc, _3517645_37, _3517647_37);
+Obj _3517649_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517648_37);
+coraReturn(co, _3517649_37);
 return;
 }
 case 2:
 {
-Obj _3517616_37= co->res;
+Obj _3517645_37= co->res;
 Obj cont = R[1];
-R[1] = _3517616_37;
+R[1] = _3517645_37;
 saveCont(co, clofun59, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
 return;
 }
 case 3:
 {
-Obj _3517615_37= co->res;
+Obj _3517644_37= co->res;
 Obj exp = R[1];
 Obj cont = R[2];
 R[1] = cont;
 saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517615_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517644_37, exp);
 return;
 }
 }
@@ -5550,12 +5550,12 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517593_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517593_37) {
-Obj _3517594_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517594_37;
-Obj _3517595_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517595_37;
+Obj _3517622_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517622_37) {
+Obj _3517623_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517623_37;
+Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517624_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun58, 1, R);
@@ -5569,12 +5569,12 @@ return;
 }
 case 1:
 {
-Obj _3517596_37= co->res;
+Obj _3517625_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517597_37 = makeCons(co->gc, f, args);
+Obj _3517626_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517596_37, _3517597_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517625_37, _3517626_37);
 return;
 }
 }
@@ -5584,24 +5584,24 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516683_37 = R[1];
-Obj _3516684_37 = R[2];
-Obj _3516685_37 = R[3];
-Obj _3517568_37 = PRIM_EQ(Nil, _3516683_37);
-if (True == _3517568_37) {
-R[1] = _3516685_37;
+Obj _3516712_37 = R[1];
+Obj _3516713_37 = R[2];
+Obj _3516714_37 = R[3];
+Obj _3517597_37 = PRIM_EQ(Nil, _3516712_37);
+if (True == _3517597_37) {
+R[1] = _3516714_37;
 saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516684_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516713_37);
 return;
 } else {
-Obj _3517586_37 = PRIM_ISCONS(_3516683_37);
-if (True == _3517586_37) {
-Obj _3517587_37 = PRIM_CAR(_3516683_37);
-Obj hd = _3517587_37;
-Obj _3517588_37 = PRIM_CDR(_3516683_37);
-Obj tl = _3517588_37;
+Obj _3517615_37 = PRIM_ISCONS(_3516712_37);
+if (True == _3517615_37) {
+Obj _3517616_37 = PRIM_CAR(_3516712_37);
+Obj hd = _3517616_37;
+Obj _3517617_37 = PRIM_CDR(_3516712_37);
+Obj tl = _3517617_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516684_37, _3516685_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516713_37, _3516714_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5612,46 +5612,46 @@ return;
 }
 case 1:
 {
-Obj _3517584_37= co->res;
-Obj _3516770_37 = R[1];
-Obj _3517585_37 = PRIM_EQ(_3517584_37, getBinding(co, packageID, 90).name);
-if (True == _3517585_37) {
+Obj _3517613_37= co->res;
+Obj _3516799_37 = R[1];
+Obj _3517614_37 = PRIM_EQ(_3517613_37, getBinding(co, packageID, 90).name);
+if (True == _3517614_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, True);
+coraCall1(co, _3516799_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, _3516799_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517583_37= co->res;
+Obj _3517612_37= co->res;
 Obj exp = R[1];
-Obj _3516770_37 = R[2];
-if (True == _3517583_37) {
-R[1] = _3516770_37;
+Obj _3516799_37 = R[2];
+if (True == _3517612_37) {
+R[1] = _3516799_37;
 saveCont(co, clofun57, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, _3516799_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517569_37= co->res;
-Obj _3516685_37 = R[1];
-Obj exp = _3517569_37;
-Obj _3516770_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516685_37);
-Obj _3517582_37 = PRIM_CAR(exp);
+Obj _3517598_37= co->res;
+Obj _3516714_37 = R[1];
+Obj exp = _3517598_37;
+Obj _3516799_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516714_37);
+Obj _3517611_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3516770_37;
+R[2] = _3516799_37;
 saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517582_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517611_37);
 return;
 }
 }
@@ -5662,9 +5662,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517589_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3517618_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517589_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517618_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5674,23 +5674,23 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516771_37 = R[1];
-if (True == _3516771_37) {
+Obj _3516800_37 = R[1];
+if (True == _3516800_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517570_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517570_37) {
-Obj _3517571_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517572_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517571_37);
-coraReturn(co, _3517572_37);
+Obj _3517599_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == _3517599_37) {
+Obj _3517600_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517601_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517600_37);
+coraReturn(co, _3517601_37);
 return;
 } else {
-Obj _3517573_37 = primGenSym(co);
-Obj val = _3517573_37;
-Obj _3517574_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517574_37;
+Obj _3517602_37 = primGenSym(co);
+Obj val = _3517602_37;
+Obj _3517603_37 = makeCons(co->gc, val, Nil);
+R[1] = _3517603_37;
 saveCont(co, clofun55, 1, R);
 coraCall1(co, closureRef(R[0], 1), val);
 return;
@@ -5699,15 +5699,15 @@ return;
 }
 case 1:
 {
-Obj _3517575_37= co->res;
-Obj _3517574_37 = R[1];
-Obj _3517576_37 = makeCons(co->gc, _3517575_37, Nil);
-Obj _3517577_37 = makeCons(co->gc, _3517574_37, _3517576_37);
-Obj _3517578_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517577_37);
-Obj _3517579_37 = makeCons(co->gc, _3517578_37, Nil);
-Obj _3517580_37 = makeCons(co->gc, closureRef(R[0], 0), _3517579_37);
-Obj _3517581_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517580_37);
-coraReturn(co, _3517581_37);
+Obj _3517604_37= co->res;
+Obj _3517603_37 = R[1];
+Obj _3517605_37 = makeCons(co->gc, _3517604_37, Nil);
+Obj _3517606_37 = makeCons(co->gc, _3517603_37, _3517605_37);
+Obj _3517607_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517606_37);
+Obj _3517608_37 = makeCons(co->gc, _3517607_37, Nil);
+Obj _3517609_37 = makeCons(co->gc, closureRef(R[0], 0), _3517608_37);
+Obj _3517610_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517609_37);
+coraReturn(co, _3517610_37);
 return;
 }
 }
@@ -5717,32 +5717,32 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516674_37 = R[1];
-Obj _3516675_37 = R[2];
-Obj _3516768_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516674_37, _3516675_37);
-Obj _3517565_37 = primIsSymbol(_3516674_37);
-if (True == _3517565_37) {
+Obj _3516703_37 = R[1];
+Obj _3516704_37 = R[2];
+Obj _3516797_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516703_37, _3516704_37);
+Obj _3517594_37 = primIsSymbol(_3516703_37);
+if (True == _3517594_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, _3516797_37, True);
 return;
 } else {
-R[1] = _3516768_37;
+R[1] = _3516797_37;
 saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516674_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516703_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517566_37= co->res;
-Obj _3516768_37 = R[1];
-if (True == _3517566_37) {
+Obj _3517595_37= co->res;
+Obj _3516797_37 = R[1];
+if (True == _3517595_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, _3516797_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, False);
+coraCall1(co, _3516797_37, False);
 return;
 }
 }
@@ -5753,8 +5753,8 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516769_37 = R[1];
-if (True == _3516769_37) {
+Obj _3516798_37 = R[1];
+if (True == _3516798_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5766,78 +5766,78 @@ return;
 }
 case 1:
 {
-Obj _3517431_37= co->res;
-if (True == _3517431_37) {
+Obj _3517460_37= co->res;
+if (True == _3517460_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516678_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517533_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517533_37) {
-Obj _3517534_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517535_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517534_37);
-if (True == _3517535_37) {
-Obj _3517536_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517537_37 = PRIM_ISCONS(_3517536_37);
-if (True == _3517537_37) {
-Obj _3517538_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517539_37 = PRIM_CAR(_3517538_37);
-Obj a = _3517539_37;
-Obj _3517540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517541_37 = PRIM_CDR(_3517540_37);
-Obj _3517542_37 = PRIM_ISCONS(_3517541_37);
-if (True == _3517542_37) {
-Obj _3517543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517544_37 = PRIM_CDR(_3517543_37);
-Obj _3517545_37 = PRIM_CAR(_3517544_37);
-Obj b = _3517545_37;
-Obj _3517546_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517547_37 = PRIM_CDR(_3517546_37);
-Obj _3517548_37 = PRIM_CDR(_3517547_37);
-Obj _3517549_37 = PRIM_ISCONS(_3517548_37);
-if (True == _3517549_37) {
-Obj _3517550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517551_37 = PRIM_CDR(_3517550_37);
-Obj _3517552_37 = PRIM_CDR(_3517551_37);
-Obj _3517553_37 = PRIM_CAR(_3517552_37);
-Obj c = _3517553_37;
-Obj _3517554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517555_37 = PRIM_CDR(_3517554_37);
-Obj _3517556_37 = PRIM_CDR(_3517555_37);
-Obj _3517557_37 = PRIM_CDR(_3517556_37);
-Obj _3517558_37 = PRIM_EQ(Nil, _3517557_37);
-if (True == _3517558_37) {
+Obj _3516707_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517562_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517562_37) {
+Obj _3517563_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517564_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517563_37);
+if (True == _3517564_37) {
+Obj _3517565_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517566_37 = PRIM_ISCONS(_3517565_37);
+if (True == _3517566_37) {
+Obj _3517567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517568_37 = PRIM_CAR(_3517567_37);
+Obj a = _3517568_37;
+Obj _3517569_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517570_37 = PRIM_CDR(_3517569_37);
+Obj _3517571_37 = PRIM_ISCONS(_3517570_37);
+if (True == _3517571_37) {
+Obj _3517572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517573_37 = PRIM_CDR(_3517572_37);
+Obj _3517574_37 = PRIM_CAR(_3517573_37);
+Obj b = _3517574_37;
+Obj _3517575_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517576_37 = PRIM_CDR(_3517575_37);
+Obj _3517577_37 = PRIM_CDR(_3517576_37);
+Obj _3517578_37 = PRIM_ISCONS(_3517577_37);
+if (True == _3517578_37) {
+Obj _3517579_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517580_37 = PRIM_CDR(_3517579_37);
+Obj _3517581_37 = PRIM_CDR(_3517580_37);
+Obj _3517582_37 = PRIM_CAR(_3517581_37);
+Obj c = _3517582_37;
+Obj _3517583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517584_37 = PRIM_CDR(_3517583_37);
+Obj _3517585_37 = PRIM_CDR(_3517584_37);
+Obj _3517586_37 = PRIM_CDR(_3517585_37);
+Obj _3517587_37 = PRIM_EQ(Nil, _3517586_37);
+if (True == _3517587_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun52, 1, 3, b, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516707_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516707_37);
 return;
 }
 }
@@ -5857,21 +5857,21 @@ return;
 }
 case 1:
 {
-Obj _3517560_37= co->res;
-Obj _3517559_37 = R[1];
+Obj _3517589_37= co->res;
+Obj _3517588_37 = R[1];
 Obj ra = R[2];
-Obj _3517561_37 = makeCons(co->gc, _3517560_37, Nil);
-Obj _3517562_37 = makeCons(co->gc, _3517559_37, _3517561_37);
-Obj _3517563_37 = makeCons(co->gc, ra, _3517562_37);
-Obj _3517564_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517563_37);
-coraReturn(co, _3517564_37);
+Obj _3517590_37 = makeCons(co->gc, _3517589_37, Nil);
+Obj _3517591_37 = makeCons(co->gc, _3517588_37, _3517590_37);
+Obj _3517592_37 = makeCons(co->gc, ra, _3517591_37);
+Obj _3517593_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517592_37);
+coraReturn(co, _3517593_37);
 return;
 }
 case 2:
 {
-Obj _3517559_37= co->res;
+Obj _3517588_37= co->res;
 Obj ra = R[1];
-R[1] = _3517559_37;
+R[1] = _3517588_37;
 R[2] = ra;
 saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -5884,57 +5884,57 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516679_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517511_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517511_37) {
-Obj _3517512_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517513_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517512_37);
-if (True == _3517513_37) {
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_ISCONS(_3517514_37);
-if (True == _3517515_37) {
-Obj _3517516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517517_37 = PRIM_CAR(_3517516_37);
-Obj a = _3517517_37;
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517519_37 = PRIM_CDR(_3517518_37);
-Obj _3517520_37 = PRIM_ISCONS(_3517519_37);
-if (True == _3517520_37) {
-Obj _3517521_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517522_37 = PRIM_CDR(_3517521_37);
-Obj _3517523_37 = PRIM_CAR(_3517522_37);
-Obj b = _3517523_37;
-Obj _3517524_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517525_37 = PRIM_CDR(_3517524_37);
-Obj _3517526_37 = PRIM_CDR(_3517525_37);
-Obj _3517527_37 = PRIM_EQ(Nil, _3517526_37);
-if (True == _3517527_37) {
+Obj _3516708_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517540_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517540_37) {
+Obj _3517541_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517542_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517541_37);
+if (True == _3517542_37) {
+Obj _3517543_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517544_37 = PRIM_ISCONS(_3517543_37);
+if (True == _3517544_37) {
+Obj _3517545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517546_37 = PRIM_CAR(_3517545_37);
+Obj a = _3517546_37;
+Obj _3517547_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517548_37 = PRIM_CDR(_3517547_37);
+Obj _3517549_37 = PRIM_ISCONS(_3517548_37);
+if (True == _3517549_37) {
+Obj _3517550_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517551_37 = PRIM_CDR(_3517550_37);
+Obj _3517552_37 = PRIM_CAR(_3517551_37);
+Obj b = _3517552_37;
+Obj _3517553_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517554_37 = PRIM_CDR(_3517553_37);
+Obj _3517555_37 = PRIM_CDR(_3517554_37);
+Obj _3517556_37 = PRIM_EQ(Nil, _3517555_37);
+if (True == _3517556_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun50, 1, 2, b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516708_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516708_37);
 return;
 }
 }
@@ -5946,8 +5946,8 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517528_37 = primIsSymbol(ra);
-if (True == _3517528_37) {
+Obj _3517557_37 = primIsSymbol(ra);
+if (True == _3517557_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -5960,12 +5960,12 @@ return;
 }
 case 1:
 {
-Obj _3517529_37= co->res;
+Obj _3517558_37= co->res;
 Obj ra = R[1];
-Obj _3517530_37 = makeCons(co->gc, _3517529_37, Nil);
-Obj _3517531_37 = makeCons(co->gc, ra, _3517530_37);
-Obj _3517532_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517531_37);
-coraReturn(co, _3517532_37);
+Obj _3517559_37 = makeCons(co->gc, _3517558_37, Nil);
+Obj _3517560_37 = makeCons(co->gc, ra, _3517559_37);
+Obj _3517561_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517560_37);
+coraReturn(co, _3517561_37);
 return;
 }
 }
@@ -5975,73 +5975,73 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517480_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517480_37) {
-Obj _3517481_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517482_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517481_37);
-if (True == _3517482_37) {
-Obj _3517483_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517484_37 = PRIM_ISCONS(_3517483_37);
-if (True == _3517484_37) {
-Obj _3517485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj a = _3517486_37;
-Obj _3517487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_ISCONS(_3517488_37);
-if (True == _3517489_37) {
-Obj _3517490_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517491_37 = PRIM_CDR(_3517490_37);
-Obj _3517492_37 = PRIM_CAR(_3517491_37);
-Obj b = _3517492_37;
-Obj _3517493_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517494_37 = PRIM_CDR(_3517493_37);
-Obj _3517495_37 = PRIM_CDR(_3517494_37);
-Obj _3517496_37 = PRIM_ISCONS(_3517495_37);
-if (True == _3517496_37) {
-Obj _3517497_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517498_37 = PRIM_CDR(_3517497_37);
-Obj _3517499_37 = PRIM_CDR(_3517498_37);
-Obj _3517500_37 = PRIM_CAR(_3517499_37);
-Obj c = _3517500_37;
-Obj _3517501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517502_37 = PRIM_CDR(_3517501_37);
-Obj _3517503_37 = PRIM_CDR(_3517502_37);
-Obj _3517504_37 = PRIM_CDR(_3517503_37);
-Obj _3517505_37 = PRIM_EQ(Nil, _3517504_37);
-if (True == _3517505_37) {
+Obj _3516709_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517509_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517509_37) {
+Obj _3517510_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517511_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517510_37);
+if (True == _3517511_37) {
+Obj _3517512_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517513_37 = PRIM_ISCONS(_3517512_37);
+if (True == _3517513_37) {
+Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517515_37 = PRIM_CAR(_3517514_37);
+Obj a = _3517515_37;
+Obj _3517516_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517517_37 = PRIM_CDR(_3517516_37);
+Obj _3517518_37 = PRIM_ISCONS(_3517517_37);
+if (True == _3517518_37) {
+Obj _3517519_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517520_37 = PRIM_CDR(_3517519_37);
+Obj _3517521_37 = PRIM_CAR(_3517520_37);
+Obj b = _3517521_37;
+Obj _3517522_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517523_37 = PRIM_CDR(_3517522_37);
+Obj _3517524_37 = PRIM_CDR(_3517523_37);
+Obj _3517525_37 = PRIM_ISCONS(_3517524_37);
+if (True == _3517525_37) {
+Obj _3517526_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517527_37 = PRIM_CDR(_3517526_37);
+Obj _3517528_37 = PRIM_CDR(_3517527_37);
+Obj _3517529_37 = PRIM_CAR(_3517528_37);
+Obj c = _3517529_37;
+Obj _3517530_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517531_37 = PRIM_CDR(_3517530_37);
+Obj _3517532_37 = PRIM_CDR(_3517531_37);
+Obj _3517533_37 = PRIM_CDR(_3517532_37);
+Obj _3517534_37 = PRIM_EQ(Nil, _3517533_37);
+if (True == _3517534_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun48, 1, 3, a, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516709_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516709_37);
 return;
 }
 }
@@ -6060,13 +6060,13 @@ return;
 }
 case 1:
 {
-Obj _3517506_37= co->res;
+Obj _3517535_37= co->res;
 Obj rb = R[1];
-Obj _3517507_37 = makeCons(co->gc, _3517506_37, Nil);
-Obj _3517508_37 = makeCons(co->gc, rb, _3517507_37);
-Obj _3517509_37 = makeCons(co->gc, closureRef(R[0], 0), _3517508_37);
-Obj _3517510_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517509_37);
-coraReturn(co, _3517510_37);
+Obj _3517536_37 = makeCons(co->gc, _3517535_37, Nil);
+Obj _3517537_37 = makeCons(co->gc, rb, _3517536_37);
+Obj _3517538_37 = makeCons(co->gc, closureRef(R[0], 0), _3517537_37);
+Obj _3517539_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517538_37);
+coraReturn(co, _3517539_37);
 return;
 }
 }
@@ -6076,56 +6076,56 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516681_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517436_37) {
-Obj _3517437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517438_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517437_37);
-if (True == _3517438_37) {
-Obj _3517439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517440_37 = PRIM_ISCONS(_3517439_37);
-if (True == _3517440_37) {
-Obj _3517441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517442_37 = PRIM_CAR(_3517441_37);
-Obj _3517443_37 = PRIM_ISCONS(_3517442_37);
-if (True == _3517443_37) {
-Obj _3517444_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517445_37 = PRIM_CAR(_3517444_37);
-Obj _3517446_37 = PRIM_CAR(_3517445_37);
-Obj _3517447_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517446_37);
-if (True == _3517447_37) {
-Obj _3517448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517449_37 = PRIM_CAR(_3517448_37);
-Obj _3517450_37 = PRIM_CDR(_3517449_37);
-Obj _3517451_37 = PRIM_ISCONS(_3517450_37);
-if (True == _3517451_37) {
-Obj _3517452_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517453_37 = PRIM_CAR(_3517452_37);
-Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CAR(_3517454_37);
-Obj args = _3517455_37;
-Obj _3517456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517457_37 = PRIM_CAR(_3517456_37);
-Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_CDR(_3517458_37);
-Obj _3517460_37 = PRIM_ISCONS(_3517459_37);
-if (True == _3517460_37) {
-Obj _3517461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517462_37 = PRIM_CAR(_3517461_37);
-Obj _3517463_37 = PRIM_CDR(_3517462_37);
-Obj _3517464_37 = PRIM_CDR(_3517463_37);
-Obj _3517465_37 = PRIM_CAR(_3517464_37);
-Obj body = _3517465_37;
-Obj _3517466_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517467_37 = PRIM_CAR(_3517466_37);
-Obj _3517468_37 = PRIM_CDR(_3517467_37);
-Obj _3517469_37 = PRIM_CDR(_3517468_37);
-Obj _3517470_37 = PRIM_CDR(_3517469_37);
-Obj _3517471_37 = PRIM_EQ(Nil, _3517470_37);
-if (True == _3517471_37) {
-Obj _3517472_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517473_37 = PRIM_CDR(_3517472_37);
-Obj frees = _3517473_37;
+Obj _3516710_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517465_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517465_37) {
+Obj _3517466_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517467_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517466_37);
+if (True == _3517467_37) {
+Obj _3517468_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517469_37 = PRIM_ISCONS(_3517468_37);
+if (True == _3517469_37) {
+Obj _3517470_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517471_37 = PRIM_CAR(_3517470_37);
+Obj _3517472_37 = PRIM_ISCONS(_3517471_37);
+if (True == _3517472_37) {
+Obj _3517473_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517474_37 = PRIM_CAR(_3517473_37);
+Obj _3517475_37 = PRIM_CAR(_3517474_37);
+Obj _3517476_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517475_37);
+if (True == _3517476_37) {
+Obj _3517477_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517478_37 = PRIM_CAR(_3517477_37);
+Obj _3517479_37 = PRIM_CDR(_3517478_37);
+Obj _3517480_37 = PRIM_ISCONS(_3517479_37);
+if (True == _3517480_37) {
+Obj _3517481_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517482_37 = PRIM_CAR(_3517481_37);
+Obj _3517483_37 = PRIM_CDR(_3517482_37);
+Obj _3517484_37 = PRIM_CAR(_3517483_37);
+Obj args = _3517484_37;
+Obj _3517485_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517486_37 = PRIM_CAR(_3517485_37);
+Obj _3517487_37 = PRIM_CDR(_3517486_37);
+Obj _3517488_37 = PRIM_CDR(_3517487_37);
+Obj _3517489_37 = PRIM_ISCONS(_3517488_37);
+if (True == _3517489_37) {
+Obj _3517490_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517491_37 = PRIM_CAR(_3517490_37);
+Obj _3517492_37 = PRIM_CDR(_3517491_37);
+Obj _3517493_37 = PRIM_CDR(_3517492_37);
+Obj _3517494_37 = PRIM_CAR(_3517493_37);
+Obj body = _3517494_37;
+Obj _3517495_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517496_37 = PRIM_CAR(_3517495_37);
+Obj _3517497_37 = PRIM_CDR(_3517496_37);
+Obj _3517498_37 = PRIM_CDR(_3517497_37);
+Obj _3517499_37 = PRIM_CDR(_3517498_37);
+Obj _3517500_37 = PRIM_EQ(Nil, _3517499_37);
+if (True == _3517500_37) {
+Obj _3517501_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517502_37 = PRIM_CDR(_3517501_37);
+Obj frees = _3517502_37;
 R[1] = args;
 R[2] = frees;
 saveCont(co, clofun47, 1, R);
@@ -6133,57 +6133,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co,
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516710_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517474_37= co->res;
+Obj _3517503_37= co->res;
 Obj args = R[1];
 Obj frees = R[2];
-Obj _3517475_37 = makeCons(co->gc, _3517474_37, Nil);
-Obj _3517476_37 = makeCons(co->gc, args, _3517475_37);
-Obj _3517477_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517476_37);
-Obj _3517478_37 = makeCons(co->gc, _3517477_37, frees);
-Obj _3517479_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517478_37);
+Obj _3517504_37 = makeCons(co->gc, _3517503_37, Nil);
+Obj _3517505_37 = makeCons(co->gc, args, _3517504_37);
+Obj _3517506_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517505_37);
+Obj _3517507_37 = makeCons(co->gc, _3517506_37, frees);
+Obj _3517508_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517507_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517479_37);
+coraCall1(co, closureRef(R[0], 1), _3517508_37);
 return;
 }
 }
@@ -6193,15 +6193,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517432_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517432_37) {
-Obj _3517433_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517433_37;
-Obj _3517434_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517434_37;
-Obj _3517435_37 = makeCons(co->gc, f, args);
+Obj _3517461_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517461_37) {
+Obj _3517462_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517462_37;
+Obj _3517463_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517463_37;
+Obj _3517464_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517435_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517464_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6217,9 +6217,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517428_37 = makeCons(co->gc, x, Nil);
-Obj _3517429_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517428_37);
-coraReturn(co, _3517429_37);
+Obj _3517457_37 = makeCons(co->gc, x, Nil);
+Obj _3517458_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517457_37);
+coraReturn(co, _3517458_37);
 return;
 }
 }
@@ -6229,73 +6229,73 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516667_37 = R[1];
-Obj _3516668_37 = R[2];
-R[1] = _3516668_37;
-R[2] = _3516667_37;
+Obj _3516696_37 = R[1];
+Obj _3516697_37 = R[2];
+R[1] = _3516697_37;
+R[2] = _3516696_37;
 saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516668_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516697_37);
 return;
 }
 case 1:
 {
-Obj _3517357_37= co->res;
-Obj _3516668_37 = R[1];
-Obj pos = _3517357_37;
-Obj _3517358_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517358_37) {
-coraReturn(co, _3516668_37);
+Obj _3517386_37= co->res;
+Obj _3516697_37 = R[1];
+Obj pos = _3517386_37;
+Obj _3517387_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
+if (True == _3517387_37) {
+coraReturn(co, _3516697_37);
 return;
 } else {
-Obj _3517359_37 = makeCons(co->gc, pos, Nil);
-Obj _3517360_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517359_37);
-coraReturn(co, _3517360_37);
+Obj _3517388_37 = makeCons(co->gc, pos, Nil);
+Obj _3517389_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517388_37);
+coraReturn(co, _3517389_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517424_37= co->res;
-Obj _3517422_37 = R[1];
-Obj _3517425_37 = makeCons(co->gc, _3517422_37, _3517424_37);
-Obj _3517426_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517425_37);
-coraReturn(co, _3517426_37);
+Obj _3517453_37= co->res;
+Obj _3517451_37 = R[1];
+Obj _3517454_37 = makeCons(co->gc, _3517451_37, _3517453_37);
+Obj _3517455_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517454_37);
+coraReturn(co, _3517455_37);
 return;
 }
 case 3:
 {
-Obj _3517423_37= co->res;
+Obj _3517452_37= co->res;
 Obj fvs1 = R[1];
-Obj _3517422_37 = R[2];
-R[1] = _3517422_37;
+Obj _3517451_37 = R[2];
+R[1] = _3517451_37;
 saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517423_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517452_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517419_37= co->res;
+Obj _3517448_37= co->res;
 Obj args = R[1];
-Obj _3516667_37 = R[2];
+Obj _3516696_37 = R[2];
 Obj fvs1 = R[3];
-Obj _3517420_37 = makeCons(co->gc, _3517419_37, Nil);
-Obj _3517421_37 = makeCons(co->gc, args, _3517420_37);
-Obj _3517422_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517421_37);
+Obj _3517449_37 = makeCons(co->gc, _3517448_37, Nil);
+Obj _3517450_37 = makeCons(co->gc, args, _3517449_37);
+Obj _3517451_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517450_37);
 R[1] = fvs1;
-R[2] = _3517422_37;
+R[2] = _3517451_37;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516696_37);
 return;
 }
 case 5:
 {
-Obj _3517418_37= co->res;
+Obj _3517447_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3516667_37 = R[3];
-Obj fvs1 = _3517418_37;
+Obj _3516696_37 = R[3];
+Obj fvs1 = _3517447_37;
 R[1] = args;
-R[2] = _3516667_37;
+R[2] = _3516696_37;
 R[3] = fvs1;
 saveCont(co, clofun44, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
@@ -6303,77 +6303,77 @@ return;
 }
 case 6:
 {
-Obj _3517355_37= co->res;
-Obj _3516668_37 = R[1];
-Obj _3516667_37 = R[2];
-if (True == _3517355_37) {
-coraReturn(co, _3516668_37);
+Obj _3517384_37= co->res;
+Obj _3516697_37 = R[1];
+Obj _3516696_37 = R[2];
+if (True == _3517384_37) {
+coraReturn(co, _3516697_37);
 return;
 } else {
-Obj _3517356_37 = primIsSymbol(_3516668_37);
-if (True == _3517356_37) {
-R[1] = _3516668_37;
+Obj _3517385_37 = primIsSymbol(_3516697_37);
+if (True == _3517385_37) {
+R[1] = _3516697_37;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516668_37, _3516667_37);
-return;
-} else {
-Obj _3516671_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516668_37, _3516667_37);
-Obj _3517398_37 = PRIM_ISCONS(_3516668_37);
-if (True == _3517398_37) {
-Obj _3517399_37 = PRIM_CAR(_3516668_37);
-Obj _3517400_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517399_37);
-if (True == _3517400_37) {
-Obj _3517401_37 = PRIM_CDR(_3516668_37);
-Obj _3517402_37 = PRIM_ISCONS(_3517401_37);
-if (True == _3517402_37) {
-Obj _3517403_37 = PRIM_CDR(_3516668_37);
-Obj _3517404_37 = PRIM_CAR(_3517403_37);
-Obj args = _3517404_37;
-Obj _3517405_37 = PRIM_CDR(_3516668_37);
-Obj _3517406_37 = PRIM_CDR(_3517405_37);
-Obj _3517407_37 = PRIM_ISCONS(_3517406_37);
-if (True == _3517407_37) {
-Obj _3517408_37 = PRIM_CDR(_3516668_37);
-Obj _3517409_37 = PRIM_CDR(_3517408_37);
-Obj _3517410_37 = PRIM_CAR(_3517409_37);
-Obj body = _3517410_37;
-Obj _3517411_37 = PRIM_CDR(_3516668_37);
-Obj _3517412_37 = PRIM_CDR(_3517411_37);
-Obj _3517413_37 = PRIM_CDR(_3517412_37);
-Obj _3517414_37 = PRIM_EQ(Nil, _3517413_37);
-if (True == _3517414_37) {
-Obj _3517415_37 = makeCons(co->gc, body, Nil);
-Obj _3517416_37 = makeCons(co->gc, args, _3517415_37);
-Obj _3517417_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517416_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516697_37, _3516696_37);
+return;
+} else {
+Obj _3516700_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516697_37, _3516696_37);
+Obj _3517427_37 = PRIM_ISCONS(_3516697_37);
+if (True == _3517427_37) {
+Obj _3517428_37 = PRIM_CAR(_3516697_37);
+Obj _3517429_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517428_37);
+if (True == _3517429_37) {
+Obj _3517430_37 = PRIM_CDR(_3516697_37);
+Obj _3517431_37 = PRIM_ISCONS(_3517430_37);
+if (True == _3517431_37) {
+Obj _3517432_37 = PRIM_CDR(_3516697_37);
+Obj _3517433_37 = PRIM_CAR(_3517432_37);
+Obj args = _3517433_37;
+Obj _3517434_37 = PRIM_CDR(_3516697_37);
+Obj _3517435_37 = PRIM_CDR(_3517434_37);
+Obj _3517436_37 = PRIM_ISCONS(_3517435_37);
+if (True == _3517436_37) {
+Obj _3517437_37 = PRIM_CDR(_3516697_37);
+Obj _3517438_37 = PRIM_CDR(_3517437_37);
+Obj _3517439_37 = PRIM_CAR(_3517438_37);
+Obj body = _3517439_37;
+Obj _3517440_37 = PRIM_CDR(_3516697_37);
+Obj _3517441_37 = PRIM_CDR(_3517440_37);
+Obj _3517442_37 = PRIM_CDR(_3517441_37);
+Obj _3517443_37 = PRIM_EQ(Nil, _3517442_37);
+if (True == _3517443_37) {
+Obj _3517444_37 = makeCons(co->gc, body, Nil);
+Obj _3517445_37 = makeCons(co->gc, args, _3517444_37);
+Obj _3517446_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517445_37);
 R[1] = body;
 R[2] = args;
-R[3] = _3516667_37;
+R[3] = _3516696_37;
 saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517417_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517446_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516700_37);
 return;
 }
 }
@@ -6386,42 +6386,42 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516672_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517366_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517366_37) {
-Obj _3517367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517368_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517367_37);
-if (True == _3517368_37) {
-Obj _3517369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517370_37 = PRIM_ISCONS(_3517369_37);
-if (True == _3517370_37) {
-Obj _3517371_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517372_37 = PRIM_CAR(_3517371_37);
-Obj a = _3517372_37;
-Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517374_37 = PRIM_CDR(_3517373_37);
-Obj _3517375_37 = PRIM_ISCONS(_3517374_37);
-if (True == _3517375_37) {
-Obj _3517376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517377_37 = PRIM_CDR(_3517376_37);
-Obj _3517378_37 = PRIM_CAR(_3517377_37);
-Obj b = _3517378_37;
-Obj _3517379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517380_37 = PRIM_CDR(_3517379_37);
-Obj _3517381_37 = PRIM_CDR(_3517380_37);
-Obj _3517382_37 = PRIM_ISCONS(_3517381_37);
-if (True == _3517382_37) {
-Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517384_37 = PRIM_CDR(_3517383_37);
-Obj _3517385_37 = PRIM_CDR(_3517384_37);
-Obj _3517386_37 = PRIM_CAR(_3517385_37);
-Obj c = _3517386_37;
-Obj _3517387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517388_37 = PRIM_CDR(_3517387_37);
-Obj _3517389_37 = PRIM_CDR(_3517388_37);
-Obj _3517390_37 = PRIM_CDR(_3517389_37);
-Obj _3517391_37 = PRIM_EQ(Nil, _3517390_37);
-if (True == _3517391_37) {
+Obj _3516701_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517395_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517395_37) {
+Obj _3517396_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517397_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517396_37);
+if (True == _3517397_37) {
+Obj _3517398_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517399_37 = PRIM_ISCONS(_3517398_37);
+if (True == _3517399_37) {
+Obj _3517400_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517401_37 = PRIM_CAR(_3517400_37);
+Obj a = _3517401_37;
+Obj _3517402_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517403_37 = PRIM_CDR(_3517402_37);
+Obj _3517404_37 = PRIM_ISCONS(_3517403_37);
+if (True == _3517404_37) {
+Obj _3517405_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517406_37 = PRIM_CDR(_3517405_37);
+Obj _3517407_37 = PRIM_CAR(_3517406_37);
+Obj b = _3517407_37;
+Obj _3517408_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517409_37 = PRIM_CDR(_3517408_37);
+Obj _3517410_37 = PRIM_CDR(_3517409_37);
+Obj _3517411_37 = PRIM_ISCONS(_3517410_37);
+if (True == _3517411_37) {
+Obj _3517412_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517413_37 = PRIM_CDR(_3517412_37);
+Obj _3517414_37 = PRIM_CDR(_3517413_37);
+Obj _3517415_37 = PRIM_CAR(_3517414_37);
+Obj c = _3517415_37;
+Obj _3517416_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517417_37 = PRIM_CDR(_3517416_37);
+Obj _3517418_37 = PRIM_CDR(_3517417_37);
+Obj _3517419_37 = PRIM_CDR(_3517418_37);
+Obj _3517420_37 = PRIM_EQ(Nil, _3517419_37);
+if (True == _3517420_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun43, 2, R);
@@ -6429,53 +6429,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516701_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517393_37= co->res;
-Obj _3517392_37 = R[1];
+Obj _3517422_37= co->res;
+Obj _3517421_37 = R[1];
 Obj a = R[2];
-Obj _3517394_37 = makeCons(co->gc, _3517393_37, Nil);
-Obj _3517395_37 = makeCons(co->gc, _3517392_37, _3517394_37);
-Obj _3517396_37 = makeCons(co->gc, a, _3517395_37);
-Obj _3517397_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517396_37);
-coraReturn(co, _3517397_37);
+Obj _3517423_37 = makeCons(co->gc, _3517422_37, Nil);
+Obj _3517424_37 = makeCons(co->gc, _3517421_37, _3517423_37);
+Obj _3517425_37 = makeCons(co->gc, a, _3517424_37);
+Obj _3517426_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517425_37);
+coraReturn(co, _3517426_37);
 return;
 }
 case 2:
 {
-Obj _3517392_37= co->res;
+Obj _3517421_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-R[1] = _3517392_37;
+R[1] = _3517421_37;
 R[2] = a;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), c);
@@ -6488,12 +6488,12 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517361_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517361_37) {
-Obj _3517362_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517362_37;
-Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517363_37;
+Obj _3517390_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517390_37) {
+Obj _3517391_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517391_37;
+Obj _3517392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517392_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun42, 1, R);
@@ -6507,12 +6507,12 @@ return;
 }
 case 1:
 {
-Obj _3517364_37= co->res;
+Obj _3517393_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517365_37 = makeCons(co->gc, f, args);
+Obj _3517394_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517364_37, _3517365_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517393_37, _3517394_37);
 return;
 }
 }
@@ -6522,86 +6522,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516654_37 = R[1];
-R[1] = _3516654_37;
+Obj _3516683_37 = R[1];
+R[1] = _3516683_37;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516654_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516683_37);
 return;
 }
 case 1:
 {
-Obj _3517353_37= co->res;
+Obj _3517382_37= co->res;
 Obj args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517353_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517382_37, args);
 return;
 }
 case 2:
 {
-Obj _3517180_37= co->res;
-Obj _3516654_37 = R[1];
-if (True == _3517180_37) {
+Obj _3517209_37= co->res;
+Obj _3516683_37 = R[1];
+if (True == _3517209_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517181_37 = primIsSymbol(_3516654_37);
-if (True == _3517181_37) {
-Obj _3517182_37 = makeCons(co->gc, _3516654_37, Nil);
-coraReturn(co, _3517182_37);
-return;
-} else {
-Obj _3516657_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516654_37);
-Obj _3517336_37 = PRIM_ISCONS(_3516654_37);
-if (True == _3517336_37) {
-Obj _3517337_37 = PRIM_CAR(_3516654_37);
-Obj _3517338_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517337_37);
-if (True == _3517338_37) {
-Obj _3517339_37 = PRIM_CDR(_3516654_37);
-Obj _3517340_37 = PRIM_ISCONS(_3517339_37);
-if (True == _3517340_37) {
-Obj _3517341_37 = PRIM_CDR(_3516654_37);
-Obj _3517342_37 = PRIM_CAR(_3517341_37);
-Obj args = _3517342_37;
-Obj _3517343_37 = PRIM_CDR(_3516654_37);
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_ISCONS(_3517344_37);
-if (True == _3517345_37) {
-Obj _3517346_37 = PRIM_CDR(_3516654_37);
-Obj _3517347_37 = PRIM_CDR(_3517346_37);
-Obj _3517348_37 = PRIM_CAR(_3517347_37);
-Obj body = _3517348_37;
-Obj _3517349_37 = PRIM_CDR(_3516654_37);
-Obj _3517350_37 = PRIM_CDR(_3517349_37);
-Obj _3517351_37 = PRIM_CDR(_3517350_37);
-Obj _3517352_37 = PRIM_EQ(Nil, _3517351_37);
-if (True == _3517352_37) {
+Obj _3517210_37 = primIsSymbol(_3516683_37);
+if (True == _3517210_37) {
+Obj _3517211_37 = makeCons(co->gc, _3516683_37, Nil);
+coraReturn(co, _3517211_37);
+return;
+} else {
+Obj _3516686_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516683_37);
+Obj _3517365_37 = PRIM_ISCONS(_3516683_37);
+if (True == _3517365_37) {
+Obj _3517366_37 = PRIM_CAR(_3516683_37);
+Obj _3517367_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517366_37);
+if (True == _3517367_37) {
+Obj _3517368_37 = PRIM_CDR(_3516683_37);
+Obj _3517369_37 = PRIM_ISCONS(_3517368_37);
+if (True == _3517369_37) {
+Obj _3517370_37 = PRIM_CDR(_3516683_37);
+Obj _3517371_37 = PRIM_CAR(_3517370_37);
+Obj args = _3517371_37;
+Obj _3517372_37 = PRIM_CDR(_3516683_37);
+Obj _3517373_37 = PRIM_CDR(_3517372_37);
+Obj _3517374_37 = PRIM_ISCONS(_3517373_37);
+if (True == _3517374_37) {
+Obj _3517375_37 = PRIM_CDR(_3516683_37);
+Obj _3517376_37 = PRIM_CDR(_3517375_37);
+Obj _3517377_37 = PRIM_CAR(_3517376_37);
+Obj body = _3517377_37;
+Obj _3517378_37 = PRIM_CDR(_3516683_37);
+Obj _3517379_37 = PRIM_CDR(_3517378_37);
+Obj _3517380_37 = PRIM_CDR(_3517379_37);
+Obj _3517381_37 = PRIM_EQ(Nil, _3517380_37);
+if (True == _3517381_37) {
 R[1] = args;
 saveCont(co, clofun41, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516686_37);
 return;
 }
 }
@@ -6614,84 +6614,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516658_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517306_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517306_37) {
-Obj _3517307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517308_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517307_37);
-if (True == _3517308_37) {
-Obj _3517309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517310_37 = PRIM_ISCONS(_3517309_37);
-if (True == _3517310_37) {
-Obj _3517311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517312_37 = PRIM_CAR(_3517311_37);
-Obj x = _3517312_37;
-Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517314_37 = PRIM_CDR(_3517313_37);
-Obj _3517315_37 = PRIM_ISCONS(_3517314_37);
-if (True == _3517315_37) {
-Obj _3517316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517317_37 = PRIM_CDR(_3517316_37);
-Obj _3517318_37 = PRIM_CAR(_3517317_37);
-Obj y = _3517318_37;
-Obj _3517319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517320_37 = PRIM_CDR(_3517319_37);
-Obj _3517321_37 = PRIM_CDR(_3517320_37);
-Obj _3517322_37 = PRIM_ISCONS(_3517321_37);
-if (True == _3517322_37) {
-Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517324_37 = PRIM_CDR(_3517323_37);
-Obj _3517325_37 = PRIM_CDR(_3517324_37);
-Obj _3517326_37 = PRIM_CAR(_3517325_37);
-Obj z = _3517326_37;
-Obj _3517327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517328_37 = PRIM_CDR(_3517327_37);
-Obj _3517329_37 = PRIM_CDR(_3517328_37);
-Obj _3517330_37 = PRIM_CDR(_3517329_37);
-Obj _3517331_37 = PRIM_EQ(Nil, _3517330_37);
-if (True == _3517331_37) {
-Obj _3517332_37 = makeCons(co->gc, z, Nil);
-Obj _3517333_37 = makeCons(co->gc, y, _3517332_37);
-Obj _3517334_37 = makeCons(co->gc, x, _3517333_37);
+Obj _3516687_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3517335_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517335_37) {
+Obj _3517336_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517337_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517336_37);
+if (True == _3517337_37) {
+Obj _3517338_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517339_37 = PRIM_ISCONS(_3517338_37);
+if (True == _3517339_37) {
+Obj _3517340_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517341_37 = PRIM_CAR(_3517340_37);
+Obj x = _3517341_37;
+Obj _3517342_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517343_37 = PRIM_CDR(_3517342_37);
+Obj _3517344_37 = PRIM_ISCONS(_3517343_37);
+if (True == _3517344_37) {
+Obj _3517345_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517346_37 = PRIM_CDR(_3517345_37);
+Obj _3517347_37 = PRIM_CAR(_3517346_37);
+Obj y = _3517347_37;
+Obj _3517348_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517349_37 = PRIM_CDR(_3517348_37);
+Obj _3517350_37 = PRIM_CDR(_3517349_37);
+Obj _3517351_37 = PRIM_ISCONS(_3517350_37);
+if (True == _3517351_37) {
+Obj _3517352_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517353_37 = PRIM_CDR(_3517352_37);
+Obj _3517354_37 = PRIM_CDR(_3517353_37);
+Obj _3517355_37 = PRIM_CAR(_3517354_37);
+Obj z = _3517355_37;
+Obj _3517356_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517357_37 = PRIM_CDR(_3517356_37);
+Obj _3517358_37 = PRIM_CDR(_3517357_37);
+Obj _3517359_37 = PRIM_CDR(_3517358_37);
+Obj _3517360_37 = PRIM_EQ(Nil, _3517359_37);
+if (True == _3517360_37) {
+Obj _3517361_37 = makeCons(co->gc, z, Nil);
+Obj _3517362_37 = makeCons(co->gc, y, _3517361_37);
+Obj _3517363_37 = makeCons(co->gc, x, _3517362_37);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517334_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517363_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516687_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517335_37= co->res;
+Obj _3517364_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517335_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517364_37);
 return;
 }
 }
@@ -6701,67 +6701,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516659_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517286_37) {
-Obj _3517287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517288_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517287_37);
-if (True == _3517288_37) {
-Obj _3517289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517290_37 = PRIM_ISCONS(_3517289_37);
-if (True == _3517290_37) {
-Obj _3517291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517292_37 = PRIM_CAR(_3517291_37);
-Obj x = _3517292_37;
-Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517294_37 = PRIM_CDR(_3517293_37);
-Obj _3517295_37 = PRIM_ISCONS(_3517294_37);
-if (True == _3517295_37) {
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_CDR(_3517296_37);
-Obj _3517298_37 = PRIM_CAR(_3517297_37);
-Obj y = _3517298_37;
-Obj _3517299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517300_37 = PRIM_CDR(_3517299_37);
-Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_EQ(Nil, _3517301_37);
-if (True == _3517302_37) {
-Obj _3517303_37 = makeCons(co->gc, y, Nil);
-Obj _3517304_37 = makeCons(co->gc, x, _3517303_37);
+Obj _3516688_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3517315_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517315_37) {
+Obj _3517316_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517317_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517316_37);
+if (True == _3517317_37) {
+Obj _3517318_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517319_37 = PRIM_ISCONS(_3517318_37);
+if (True == _3517319_37) {
+Obj _3517320_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517321_37 = PRIM_CAR(_3517320_37);
+Obj x = _3517321_37;
+Obj _3517322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517323_37 = PRIM_CDR(_3517322_37);
+Obj _3517324_37 = PRIM_ISCONS(_3517323_37);
+if (True == _3517324_37) {
+Obj _3517325_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517326_37 = PRIM_CDR(_3517325_37);
+Obj _3517327_37 = PRIM_CAR(_3517326_37);
+Obj y = _3517327_37;
+Obj _3517328_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517329_37 = PRIM_CDR(_3517328_37);
+Obj _3517330_37 = PRIM_CDR(_3517329_37);
+Obj _3517331_37 = PRIM_EQ(Nil, _3517330_37);
+if (True == _3517331_37) {
+Obj _3517332_37 = makeCons(co->gc, y, Nil);
+Obj _3517333_37 = makeCons(co->gc, x, _3517332_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517304_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517333_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516688_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517305_37= co->res;
+Obj _3517334_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517305_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517334_37);
 return;
 }
 }
@@ -6771,42 +6771,42 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516660_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517256_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517256_37) {
-Obj _3517257_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517258_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517257_37);
-if (True == _3517258_37) {
-Obj _3517259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517260_37 = PRIM_ISCONS(_3517259_37);
-if (True == _3517260_37) {
-Obj _3517261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517262_37 = PRIM_CAR(_3517261_37);
-Obj a = _3517262_37;
-Obj _3517263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517264_37 = PRIM_CDR(_3517263_37);
-Obj _3517265_37 = PRIM_ISCONS(_3517264_37);
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_CDR(_3517266_37);
-Obj _3517268_37 = PRIM_CAR(_3517267_37);
-Obj b = _3517268_37;
-Obj _3517269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517270_37 = PRIM_CDR(_3517269_37);
-Obj _3517271_37 = PRIM_CDR(_3517270_37);
-Obj _3517272_37 = PRIM_ISCONS(_3517271_37);
-if (True == _3517272_37) {
-Obj _3517273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517274_37 = PRIM_CDR(_3517273_37);
-Obj _3517275_37 = PRIM_CDR(_3517274_37);
-Obj _3517276_37 = PRIM_CAR(_3517275_37);
-Obj c = _3517276_37;
-Obj _3517277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517278_37 = PRIM_CDR(_3517277_37);
-Obj _3517279_37 = PRIM_CDR(_3517278_37);
-Obj _3517280_37 = PRIM_CDR(_3517279_37);
-Obj _3517281_37 = PRIM_EQ(Nil, _3517280_37);
-if (True == _3517281_37) {
+Obj _3516689_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3517285_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517285_37) {
+Obj _3517286_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517287_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517286_37);
+if (True == _3517287_37) {
+Obj _3517288_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517289_37 = PRIM_ISCONS(_3517288_37);
+if (True == _3517289_37) {
+Obj _3517290_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517291_37 = PRIM_CAR(_3517290_37);
+Obj a = _3517291_37;
+Obj _3517292_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517293_37 = PRIM_CDR(_3517292_37);
+Obj _3517294_37 = PRIM_ISCONS(_3517293_37);
+if (True == _3517294_37) {
+Obj _3517295_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517296_37 = PRIM_CDR(_3517295_37);
+Obj _3517297_37 = PRIM_CAR(_3517296_37);
+Obj b = _3517297_37;
+Obj _3517298_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517299_37 = PRIM_CDR(_3517298_37);
+Obj _3517300_37 = PRIM_CDR(_3517299_37);
+Obj _3517301_37 = PRIM_ISCONS(_3517300_37);
+if (True == _3517301_37) {
+Obj _3517302_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517303_37 = PRIM_CDR(_3517302_37);
+Obj _3517304_37 = PRIM_CDR(_3517303_37);
+Obj _3517305_37 = PRIM_CAR(_3517304_37);
+Obj c = _3517305_37;
+Obj _3517306_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517307_37 = PRIM_CDR(_3517306_37);
+Obj _3517308_37 = PRIM_CDR(_3517307_37);
+Obj _3517309_37 = PRIM_CDR(_3517308_37);
+Obj _3517310_37 = PRIM_EQ(Nil, _3517309_37);
+if (True == _3517310_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun38, 3, R);
@@ -6814,61 +6814,61 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516689_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517285_37= co->res;
-Obj _3517282_37 = R[1];
+Obj _3517314_37= co->res;
+Obj _3517311_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517282_37, _3517285_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517311_37, _3517314_37);
 return;
 }
 case 2:
 {
-Obj _3517283_37= co->res;
+Obj _3517312_37= co->res;
 Obj a = R[1];
-Obj _3517282_37 = R[2];
-Obj _3517284_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517282_37;
+Obj _3517311_37 = R[2];
+Obj _3517313_37 = makeCons(co->gc, a, Nil);
+R[1] = _3517311_37;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517283_37, _3517284_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517312_37, _3517313_37);
 return;
 }
 case 3:
 {
-Obj _3517282_37= co->res;
+Obj _3517311_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = a;
-R[2] = _3517282_37;
+R[2] = _3517311_37;
 saveCont(co, clofun38, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
 return;
@@ -6880,38 +6880,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516661_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517246_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517246_37) {
-Obj _3517247_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517248_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517247_37);
-if (True == _3517248_37) {
-Obj _3517249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517250_37 = PRIM_ISCONS(_3517249_37);
-if (True == _3517250_37) {
-Obj _3517251_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517252_37 = PRIM_CAR(_3517251_37);
-Obj lam = _3517252_37;
-Obj _3517253_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517254_37 = PRIM_CDR(_3517253_37);
-Obj more = _3517254_37;
-Obj _3517255_37 = makeCons(co->gc, lam, more);
+Obj _3516690_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3517275_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517275_37) {
+Obj _3517276_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517277_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517276_37);
+if (True == _3517277_37) {
+Obj _3517278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517279_37 = PRIM_ISCONS(_3517278_37);
+if (True == _3517279_37) {
+Obj _3517280_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517281_37 = PRIM_CAR(_3517280_37);
+Obj lam = _3517281_37;
+Obj _3517282_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517283_37 = PRIM_CDR(_3517282_37);
+Obj more = _3517283_37;
+Obj _3517284_37 = makeCons(co->gc, lam, more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517255_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517284_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516690_37);
 return;
 }
 }
@@ -6922,43 +6922,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516662_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517236_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517236_37) {
-Obj _3517237_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517238_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517237_37);
-if (True == _3517238_37) {
-Obj _3517239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517240_37 = PRIM_ISCONS(_3517239_37);
-if (True == _3517240_37) {
-Obj _3517241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517242_37 = PRIM_CAR(_3517241_37);
-Obj x = _3517242_37;
-Obj _3517243_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517244_37 = PRIM_CDR(_3517243_37);
-Obj _3517245_37 = PRIM_EQ(Nil, _3517244_37);
-if (True == _3517245_37) {
+Obj _3516691_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj _3517265_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517265_37) {
+Obj _3517266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517267_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517266_37);
+if (True == _3517267_37) {
+Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517269_37 = PRIM_ISCONS(_3517268_37);
+if (True == _3517269_37) {
+Obj _3517270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517271_37 = PRIM_CAR(_3517270_37);
+Obj x = _3517271_37;
+Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517273_37 = PRIM_CDR(_3517272_37);
+Obj _3517274_37 = PRIM_EQ(Nil, _3517273_37);
+if (True == _3517274_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516691_37);
 return;
 }
 }
@@ -6969,67 +6969,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516663_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517216_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517216_37) {
-Obj _3517217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517218_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517217_37);
-if (True == _3517218_37) {
-Obj _3517219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517220_37 = PRIM_ISCONS(_3517219_37);
-if (True == _3517220_37) {
-Obj _3517221_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517222_37 = PRIM_CAR(_3517221_37);
-Obj exp = _3517222_37;
-Obj _3517223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517224_37 = PRIM_CDR(_3517223_37);
-Obj _3517225_37 = PRIM_ISCONS(_3517224_37);
-if (True == _3517225_37) {
-Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_CDR(_3517226_37);
-Obj _3517228_37 = PRIM_CAR(_3517227_37);
-Obj cont = _3517228_37;
-Obj _3517229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517230_37 = PRIM_CDR(_3517229_37);
-Obj _3517231_37 = PRIM_CDR(_3517230_37);
-Obj _3517232_37 = PRIM_EQ(Nil, _3517231_37);
-if (True == _3517232_37) {
-Obj _3517233_37 = makeCons(co->gc, cont, Nil);
-Obj _3517234_37 = makeCons(co->gc, exp, _3517233_37);
+Obj _3516692_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj _3517245_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517245_37) {
+Obj _3517246_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517247_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517246_37);
+if (True == _3517247_37) {
+Obj _3517248_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517249_37 = PRIM_ISCONS(_3517248_37);
+if (True == _3517249_37) {
+Obj _3517250_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517251_37 = PRIM_CAR(_3517250_37);
+Obj exp = _3517251_37;
+Obj _3517252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517253_37 = PRIM_CDR(_3517252_37);
+Obj _3517254_37 = PRIM_ISCONS(_3517253_37);
+if (True == _3517254_37) {
+Obj _3517255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517256_37 = PRIM_CDR(_3517255_37);
+Obj _3517257_37 = PRIM_CAR(_3517256_37);
+Obj cont = _3517257_37;
+Obj _3517258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517259_37 = PRIM_CDR(_3517258_37);
+Obj _3517260_37 = PRIM_CDR(_3517259_37);
+Obj _3517261_37 = PRIM_EQ(Nil, _3517260_37);
+if (True == _3517261_37) {
+Obj _3517262_37 = makeCons(co->gc, cont, Nil);
+Obj _3517263_37 = makeCons(co->gc, exp, _3517262_37);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517234_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517263_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516692_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517235_37= co->res;
+Obj _3517264_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517235_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517264_37);
 return;
 }
 }
@@ -7039,43 +7039,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516664_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517206_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517206_37) {
-Obj _3517207_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517208_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517207_37);
-if (True == _3517208_37) {
-Obj _3517209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517210_37 = PRIM_ISCONS(_3517209_37);
-if (True == _3517210_37) {
-Obj _3517211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517212_37 = PRIM_CAR(_3517211_37);
-Obj exp = _3517212_37;
-Obj _3517213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517214_37 = PRIM_CDR(_3517213_37);
-Obj _3517215_37 = PRIM_EQ(Nil, _3517214_37);
-if (True == _3517215_37) {
+Obj _3516693_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3517235_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517235_37) {
+Obj _3517236_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517237_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517236_37);
+if (True == _3517237_37) {
+Obj _3517238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517239_37 = PRIM_ISCONS(_3517238_37);
+if (True == _3517239_37) {
+Obj _3517240_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517241_37 = PRIM_CAR(_3517240_37);
+Obj exp = _3517241_37;
+Obj _3517242_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517243_37 = PRIM_CDR(_3517242_37);
+Obj _3517244_37 = PRIM_EQ(Nil, _3517243_37);
+if (True == _3517244_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516693_37);
 return;
 }
 }
@@ -7086,67 +7086,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516665_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517189_37);
-if (True == _3517190_37) {
-Obj _3517191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
-if (True == _3517192_37) {
-Obj _3517193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517194_37 = PRIM_CAR(_3517193_37);
-Obj arg = _3517194_37;
-Obj _3517195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517196_37 = PRIM_CDR(_3517195_37);
-Obj _3517197_37 = PRIM_ISCONS(_3517196_37);
-if (True == _3517197_37) {
-Obj _3517198_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517199_37 = PRIM_CDR(_3517198_37);
-Obj _3517200_37 = PRIM_CAR(_3517199_37);
-Obj body = _3517200_37;
-Obj _3517201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517202_37 = PRIM_CDR(_3517201_37);
-Obj _3517203_37 = PRIM_CDR(_3517202_37);
-Obj _3517204_37 = PRIM_EQ(Nil, _3517203_37);
-if (True == _3517204_37) {
+Obj _3516694_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj _3517217_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517217_37) {
+Obj _3517218_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517219_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517218_37);
+if (True == _3517219_37) {
+Obj _3517220_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517221_37 = PRIM_ISCONS(_3517220_37);
+if (True == _3517221_37) {
+Obj _3517222_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517223_37 = PRIM_CAR(_3517222_37);
+Obj arg = _3517223_37;
+Obj _3517224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517225_37 = PRIM_CDR(_3517224_37);
+Obj _3517226_37 = PRIM_ISCONS(_3517225_37);
+if (True == _3517226_37) {
+Obj _3517227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517228_37 = PRIM_CDR(_3517227_37);
+Obj _3517229_37 = PRIM_CAR(_3517228_37);
+Obj body = _3517229_37;
+Obj _3517230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517231_37 = PRIM_CDR(_3517230_37);
+Obj _3517232_37 = PRIM_CDR(_3517231_37);
+Obj _3517233_37 = PRIM_EQ(Nil, _3517232_37);
+if (True == _3517233_37) {
 R[1] = arg;
 saveCont(co, clofun33, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516694_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517205_37= co->res;
+Obj _3517234_37= co->res;
 Obj arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517205_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517234_37, arg);
 return;
 }
 }
@@ -7156,15 +7156,15 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517183_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517183_37) {
-Obj _3517184_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517184_37;
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517185_37;
-Obj _3517186_37 = makeCons(co->gc, f, args);
+Obj _3517212_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517212_37) {
+Obj _3517213_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517213_37;
+Obj _3517214_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517214_37;
+Obj _3517215_37 = makeCons(co->gc, f, args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517186_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517215_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7174,9 +7174,9 @@ return;
 }
 case 1:
 {
-Obj _3517187_37= co->res;
+Obj _3517216_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517187_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517216_37);
 return;
 }
 }
@@ -7186,42 +7186,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516646_37 = R[1];
-Obj _3516647_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516646_37);
-Obj _3517169_37 = PRIM_ISCONS(_3516646_37);
-if (True == _3517169_37) {
-Obj _3517170_37 = PRIM_CAR(_3516646_37);
-Obj _3517171_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517170_37);
-if (True == _3517171_37) {
-Obj _3517172_37 = PRIM_CDR(_3516646_37);
-Obj _3517173_37 = PRIM_ISCONS(_3517172_37);
-if (True == _3517173_37) {
-Obj _3517174_37 = PRIM_CDR(_3516646_37);
-Obj _3517175_37 = PRIM_CAR(_3517174_37);
-Obj _3517176_37 = PRIM_CDR(_3516646_37);
-Obj _3517177_37 = PRIM_CDR(_3517176_37);
-Obj _3517178_37 = PRIM_EQ(Nil, _3517177_37);
-if (True == _3517178_37) {
+Obj _3516675_37 = R[1];
+Obj _3516676_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516675_37);
+Obj _3517198_37 = PRIM_ISCONS(_3516675_37);
+if (True == _3517198_37) {
+Obj _3517199_37 = PRIM_CAR(_3516675_37);
+Obj _3517200_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517199_37);
+if (True == _3517200_37) {
+Obj _3517201_37 = PRIM_CDR(_3516675_37);
+Obj _3517202_37 = PRIM_ISCONS(_3517201_37);
+if (True == _3517202_37) {
+Obj _3517203_37 = PRIM_CDR(_3516675_37);
+Obj _3517204_37 = PRIM_CAR(_3517203_37);
+Obj _3517205_37 = PRIM_CDR(_3516675_37);
+Obj _3517206_37 = PRIM_CDR(_3517205_37);
+Obj _3517207_37 = PRIM_EQ(Nil, _3517206_37);
+if (True == _3517207_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516676_37);
 return;
 }
 }
@@ -7232,41 +7232,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516648_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517159_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517159_37) {
-Obj _3517160_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517161_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517160_37);
-if (True == _3517161_37) {
-Obj _3517162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517163_37 = PRIM_ISCONS(_3517162_37);
-if (True == _3517163_37) {
-Obj _3517164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517165_37 = PRIM_CAR(_3517164_37);
-Obj _3517166_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517167_37 = PRIM_CDR(_3517166_37);
-Obj _3517168_37 = PRIM_EQ(Nil, _3517167_37);
-if (True == _3517168_37) {
+Obj _3516677_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj _3517188_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517188_37) {
+Obj _3517189_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517189_37);
+if (True == _3517190_37) {
+Obj _3517191_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
+if (True == _3517192_37) {
+Obj _3517193_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517194_37 = PRIM_CAR(_3517193_37);
+Obj _3517195_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517196_37 = PRIM_CDR(_3517195_37);
+Obj _3517197_37 = PRIM_EQ(Nil, _3517196_37);
+if (True == _3517197_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516677_37);
 return;
 }
 }
@@ -7277,41 +7277,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516649_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517149_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517149_37) {
-Obj _3517150_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517151_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517150_37);
-if (True == _3517151_37) {
-Obj _3517152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517153_37 = PRIM_ISCONS(_3517152_37);
-if (True == _3517153_37) {
-Obj _3517154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517155_37 = PRIM_CAR(_3517154_37);
-Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517157_37 = PRIM_CDR(_3517156_37);
-Obj _3517158_37 = PRIM_EQ(Nil, _3517157_37);
-if (True == _3517158_37) {
+Obj _3516678_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj _3517178_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517178_37) {
+Obj _3517179_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517180_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517179_37);
+if (True == _3517180_37) {
+Obj _3517181_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517182_37 = PRIM_ISCONS(_3517181_37);
+if (True == _3517182_37) {
+Obj _3517183_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517184_37 = PRIM_CAR(_3517183_37);
+Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517186_37 = PRIM_CDR(_3517185_37);
+Obj _3517187_37 = PRIM_EQ(Nil, _3517186_37);
+if (True == _3517187_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516678_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516678_37);
 return;
 }
 }
@@ -7322,41 +7322,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516650_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517139_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517139_37) {
-Obj _3517140_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517141_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517140_37);
-if (True == _3517141_37) {
-Obj _3517142_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517143_37 = PRIM_ISCONS(_3517142_37);
-if (True == _3517143_37) {
-Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517145_37 = PRIM_CAR(_3517144_37);
-Obj _3517146_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517147_37 = PRIM_CDR(_3517146_37);
-Obj _3517148_37 = PRIM_EQ(Nil, _3517147_37);
-if (True == _3517148_37) {
+Obj _3516679_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj _3517168_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517168_37) {
+Obj _3517169_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517170_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517169_37);
+if (True == _3517170_37) {
+Obj _3517171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517172_37 = PRIM_ISCONS(_3517171_37);
+if (True == _3517172_37) {
+Obj _3517173_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517174_37 = PRIM_CAR(_3517173_37);
+Obj _3517175_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517176_37 = PRIM_CDR(_3517175_37);
+Obj _3517177_37 = PRIM_EQ(Nil, _3517176_37);
+if (True == _3517177_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516679_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516679_37);
 return;
 }
 }
@@ -7367,41 +7367,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516651_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517129_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517129_37) {
-Obj _3517130_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517131_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517130_37);
-if (True == _3517131_37) {
-Obj _3517132_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517133_37 = PRIM_ISCONS(_3517132_37);
-if (True == _3517133_37) {
-Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517135_37 = PRIM_CAR(_3517134_37);
-Obj _3517136_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517137_37 = PRIM_CDR(_3517136_37);
-Obj _3517138_37 = PRIM_EQ(Nil, _3517137_37);
-if (True == _3517138_37) {
+Obj _3516680_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj _3517158_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517158_37) {
+Obj _3517159_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517160_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517159_37);
+if (True == _3517160_37) {
+Obj _3517161_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517162_37 = PRIM_ISCONS(_3517161_37);
+if (True == _3517162_37) {
+Obj _3517163_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517164_37 = PRIM_CAR(_3517163_37);
+Obj _3517165_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517166_37 = PRIM_CDR(_3517165_37);
+Obj _3517167_37 = PRIM_EQ(Nil, _3517166_37);
+if (True == _3517167_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516680_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516680_37);
 return;
 }
 }
@@ -7412,50 +7412,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516652_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517119_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517119_37) {
-Obj _3517120_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517121_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517120_37);
-if (True == _3517121_37) {
-Obj _3517122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517123_37 = PRIM_ISCONS(_3517122_37);
-if (True == _3517123_37) {
-Obj _3517124_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517125_37 = PRIM_CAR(_3517124_37);
-Obj label = _3517125_37;
-Obj _3517126_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517127_37 = PRIM_CDR(_3517126_37);
-R[1] = _3516652_37;
+Obj _3516681_37 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj _3517148_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517148_37) {
+Obj _3517149_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517150_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517149_37);
+if (True == _3517150_37) {
+Obj _3517151_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517152_37 = PRIM_ISCONS(_3517151_37);
+if (True == _3517152_37) {
+Obj _3517153_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517154_37 = PRIM_CAR(_3517153_37);
+Obj label = _3517154_37;
+Obj _3517155_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517156_37 = PRIM_CDR(_3517155_37);
+R[1] = _3516681_37;
 saveCont(co, clofun26, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516681_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516681_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516681_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517128_37= co->res;
-Obj _3516652_37 = R[1];
-if (True == _3517128_37) {
+Obj _3517157_37= co->res;
+Obj _3516681_37 = R[1];
+if (True == _3517157_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516681_37);
 return;
 }
 }
@@ -7476,46 +7476,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516641_37 = R[1];
-Obj _3516642_37 = R[2];
-Obj _3517108_37 = PRIM_EQ(Nil, _3516641_37);
-if (True == _3517108_37) {
+Obj _3516670_37 = R[1];
+Obj _3516671_37 = R[2];
+Obj _3517137_37 = PRIM_EQ(Nil, _3516670_37);
+if (True == _3517137_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516644_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516641_37, _3516642_37);
-Obj _3517114_37 = PRIM_ISCONS(_3516641_37);
-if (True == _3517114_37) {
-Obj _3517115_37 = PRIM_CAR(_3516641_37);
-Obj x = _3517115_37;
-Obj _3517116_37 = PRIM_CDR(_3516641_37);
-Obj y = _3517116_37;
+Obj _3516673_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516670_37, _3516671_37);
+Obj _3517143_37 = PRIM_ISCONS(_3516670_37);
+if (True == _3517143_37) {
+Obj _3517144_37 = PRIM_CAR(_3516670_37);
+Obj x = _3517144_37;
+Obj _3517145_37 = PRIM_CDR(_3516670_37);
+Obj y = _3517145_37;
 R[1] = y;
-R[2] = _3516642_37;
-R[3] = _3516644_37;
+R[2] = _3516671_37;
+R[3] = _3516673_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516671_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, _3516673_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517117_37= co->res;
+Obj _3517146_37= co->res;
 Obj y = R[1];
-Obj _3516642_37 = R[2];
-Obj _3516644_37 = R[3];
-if (True == _3517117_37) {
+Obj _3516671_37 = R[2];
+Obj _3516673_37 = R[3];
+if (True == _3517146_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516671_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, _3516673_37);
 return;
 }
 }
@@ -7526,12 +7526,12 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517109_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517109_37) {
-Obj _3517110_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517110_37;
-Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517111_37;
+Obj _3517138_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517138_37) {
+Obj _3517139_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517139_37;
+Obj _3517140_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517140_37;
 R[1] = x;
 saveCont(co, clofun23, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
@@ -7544,10 +7544,10 @@ return;
 }
 case 1:
 {
-Obj _3517112_37= co->res;
+Obj _3517141_37= co->res;
 Obj x = R[1];
-Obj _3517113_37 = makeCons(co->gc, x, _3517112_37);
-coraReturn(co, _3517113_37);
+Obj _3517142_37 = makeCons(co->gc, x, _3517141_37);
+coraReturn(co, _3517142_37);
 return;
 }
 }
@@ -7557,46 +7557,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516636_37 = R[1];
-Obj _3516637_37 = R[2];
-Obj _3517097_37 = PRIM_EQ(Nil, _3516636_37);
-if (True == _3517097_37) {
-coraReturn(co, _3516637_37);
+Obj _3516665_37 = R[1];
+Obj _3516666_37 = R[2];
+Obj _3517126_37 = PRIM_EQ(Nil, _3516665_37);
+if (True == _3517126_37) {
+coraReturn(co, _3516666_37);
 return;
 } else {
-Obj _3516639_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516636_37, _3516637_37);
-Obj _3517103_37 = PRIM_ISCONS(_3516636_37);
-if (True == _3517103_37) {
-Obj _3517104_37 = PRIM_CAR(_3516636_37);
-Obj x = _3517104_37;
-Obj _3517105_37 = PRIM_CDR(_3516636_37);
-Obj y = _3517105_37;
+Obj _3516668_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516665_37, _3516666_37);
+Obj _3517132_37 = PRIM_ISCONS(_3516665_37);
+if (True == _3517132_37) {
+Obj _3517133_37 = PRIM_CAR(_3516665_37);
+Obj x = _3517133_37;
+Obj _3517134_37 = PRIM_CDR(_3516665_37);
+Obj y = _3517134_37;
 R[1] = y;
-R[2] = _3516637_37;
-R[3] = _3516639_37;
+R[2] = _3516666_37;
+R[3] = _3516668_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516666_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, _3516668_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517106_37= co->res;
+Obj _3517135_37= co->res;
 Obj y = R[1];
-Obj _3516637_37 = R[2];
-Obj _3516639_37 = R[3];
-if (True == _3517106_37) {
+Obj _3516666_37 = R[2];
+Obj _3516668_37 = R[3];
+if (True == _3517135_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516666_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, _3516668_37);
 return;
 }
 }
@@ -7607,12 +7607,12 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517098_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517098_37) {
-Obj _3517099_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517099_37;
-Obj _3517100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517100_37;
+Obj _3517127_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517127_37) {
+Obj _3517128_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517128_37;
+Obj _3517129_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517129_37;
 R[1] = x;
 saveCont(co, clofun21, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
@@ -7625,10 +7625,10 @@ return;
 }
 case 1:
 {
-Obj _3517101_37= co->res;
+Obj _3517130_37= co->res;
 Obj x = R[1];
-Obj _3517102_37 = makeCons(co->gc, x, _3517101_37);
-coraReturn(co, _3517102_37);
+Obj _3517131_37 = makeCons(co->gc, x, _3517130_37);
+coraReturn(co, _3517131_37);
 return;
 }
 }
@@ -7638,66 +7638,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516622_37 = R[1];
-Obj _3516623_37 = R[2];
-Obj _3516624_37 = R[3];
-Obj _3516766_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516622_37, _3516624_37, _3516623_37);
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+Obj _3516651_37 = R[1];
+Obj _3516652_37 = R[2];
+Obj _3516653_37 = R[3];
+Obj _3516795_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516651_37, _3516653_37, _3516652_37);
+R[1] = _3516653_37;
+R[2] = _3516795_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516653_37);
 return;
 }
 case 1:
 {
-Obj _3517095_37= co->res;
-Obj _3516766_37 = R[1];
-if (True == _3517095_37) {
+Obj _3517124_37= co->res;
+Obj _3516795_37 = R[1];
+if (True == _3517124_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516795_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, False);
+coraCall1(co, _3516795_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517094_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517094_37) {
+Obj _3517123_37= co->res;
+Obj _3516653_37 = R[1];
+Obj _3516795_37 = R[2];
+if (True == _3517123_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516795_37, True);
 return;
 } else {
-R[1] = _3516766_37;
+R[1] = _3516795_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516653_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517092_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517092_37) {
+Obj _3517121_37= co->res;
+Obj _3516653_37 = R[1];
+Obj _3516795_37 = R[2];
+if (True == _3517121_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516795_37, True);
 return;
 } else {
-Obj _3517093_37 = primIsString(_3516624_37);
-if (True == _3517093_37) {
+Obj _3517122_37 = primIsString(_3516653_37);
+if (True == _3517122_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516795_37, True);
 return;
 } else {
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+R[1] = _3516653_37;
+R[2] = _3516795_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516653_37);
 return;
 }
 }
@@ -7709,62 +7709,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516767_37 = R[1];
-if (True == _3516767_37) {
-Obj _3516903_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516903_37);
-coraReturn(co, _3516904_37);
-return;
-} else {
-Obj _3516626_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517079_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517079_37) {
-Obj _3517080_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517081_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517080_37);
-if (True == _3517081_37) {
-Obj _3517082_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517083_37 = PRIM_ISCONS(_3517082_37);
-if (True == _3517083_37) {
-Obj _3517084_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517085_37 = PRIM_CAR(_3517084_37);
-Obj x = _3517085_37;
-Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517087_37 = PRIM_CDR(_3517086_37);
-Obj _3517088_37 = PRIM_EQ(Nil, _3517087_37);
-if (True == _3517088_37) {
+Obj _3516796_37 = R[1];
+if (True == _3516796_37) {
+Obj _3516932_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3516933_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516932_37);
+coraReturn(co, _3516933_37);
+return;
+} else {
+Obj _3516655_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3517108_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517108_37) {
+Obj _3517109_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517110_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517109_37);
+if (True == _3517110_37) {
+Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517112_37 = PRIM_ISCONS(_3517111_37);
+if (True == _3517112_37) {
+Obj _3517113_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517114_37 = PRIM_CAR(_3517113_37);
+Obj x = _3517114_37;
+Obj _3517115_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517116_37 = PRIM_CDR(_3517115_37);
+Obj _3517117_37 = PRIM_EQ(Nil, _3517116_37);
+if (True == _3517117_37) {
 R[1] = x;
 saveCont(co, clofun19, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516655_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517089_37= co->res;
+Obj _3517118_37= co->res;
 Obj x = R[1];
-Obj _3517090_37 = makeCons(co->gc, x, Nil);
-Obj _3517091_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517090_37);
-coraReturn(co, _3517091_37);
+Obj _3517119_37 = makeCons(co->gc, x, Nil);
+Obj _3517120_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517119_37);
+coraReturn(co, _3517120_37);
 return;
 }
 }
@@ -7774,37 +7774,37 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516905_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516905_37) {
+Obj _3516934_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3516934_37) {
 saveCont(co, clofun18, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516628_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517057_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517057_37) {
-Obj _3517058_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517059_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517058_37);
-if (True == _3517059_37) {
-Obj _3517060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517061_37 = PRIM_ISCONS(_3517060_37);
-if (True == _3517061_37) {
-Obj _3517062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517063_37 = PRIM_CAR(_3517062_37);
-Obj args = _3517063_37;
-Obj _3517064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517065_37 = PRIM_CDR(_3517064_37);
-Obj _3517066_37 = PRIM_ISCONS(_3517065_37);
-if (True == _3517066_37) {
-Obj _3517067_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517068_37 = PRIM_CDR(_3517067_37);
-Obj _3517069_37 = PRIM_CAR(_3517068_37);
-Obj body = _3517069_37;
-Obj _3517070_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517071_37 = PRIM_CDR(_3517070_37);
-Obj _3517072_37 = PRIM_CDR(_3517071_37);
-Obj _3517073_37 = PRIM_EQ(Nil, _3517072_37);
-if (True == _3517073_37) {
+Obj _3516657_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517086_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517086_37) {
+Obj _3517087_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517088_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517087_37);
+if (True == _3517088_37) {
+Obj _3517089_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517090_37 = PRIM_ISCONS(_3517089_37);
+if (True == _3517090_37) {
+Obj _3517091_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517092_37 = PRIM_CAR(_3517091_37);
+Obj args = _3517092_37;
+Obj _3517093_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517094_37 = PRIM_CDR(_3517093_37);
+Obj _3517095_37 = PRIM_ISCONS(_3517094_37);
+if (True == _3517095_37) {
+Obj _3517096_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517097_37 = PRIM_CDR(_3517096_37);
+Obj _3517098_37 = PRIM_CAR(_3517097_37);
+Obj body = _3517098_37;
+Obj _3517099_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517100_37 = PRIM_CDR(_3517099_37);
+Obj _3517101_37 = PRIM_CDR(_3517100_37);
+Obj _3517102_37 = PRIM_EQ(Nil, _3517101_37);
+if (True == _3517102_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun18, 4, R);
@@ -7812,43 +7812,43 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516657_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516657_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516657_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516657_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516657_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516907_37= co->res;
-Obj _3516908_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516909_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516908_37);
-coraReturn(co, _3516909_37);
+Obj _3516936_37= co->res;
+Obj _3516937_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3516938_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516937_37);
+coraReturn(co, _3516938_37);
 return;
 }
 case 2:
 {
-Obj _3516906_37= co->res;
-if (True == _3516906_37) {
+Obj _3516935_37= co->res;
+if (True == _3516935_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -7859,22 +7859,22 @@ return;
 }
 case 3:
 {
-Obj _3517075_37= co->res;
+Obj _3517104_37= co->res;
 Obj args = R[1];
-Obj _3517076_37 = makeCons(co->gc, _3517075_37, Nil);
-Obj _3517077_37 = makeCons(co->gc, args, _3517076_37);
-Obj _3517078_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517077_37);
-coraReturn(co, _3517078_37);
+Obj _3517105_37 = makeCons(co->gc, _3517104_37, Nil);
+Obj _3517106_37 = makeCons(co->gc, args, _3517105_37);
+Obj _3517107_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517106_37);
+coraReturn(co, _3517107_37);
 return;
 }
 case 4:
 {
-Obj _3517074_37= co->res;
+Obj _3517103_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517074_37, closureRef(R[0], 2), body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517103_37, closureRef(R[0], 2), body);
 return;
 }
 }
@@ -7884,74 +7884,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516629_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517025_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517025_37) {
-Obj _3517026_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517027_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517026_37);
-if (True == _3517027_37) {
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_ISCONS(_3517028_37);
-if (True == _3517029_37) {
-Obj _3517030_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517031_37 = PRIM_CAR(_3517030_37);
-Obj _3517032_37 = PRIM_ISCONS(_3517031_37);
-if (True == _3517032_37) {
-Obj _3517033_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517034_37 = PRIM_CAR(_3517033_37);
-Obj _3517035_37 = PRIM_CAR(_3517034_37);
-Obj _3517036_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517035_37);
-if (True == _3517036_37) {
-Obj _3517037_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517038_37 = PRIM_CAR(_3517037_37);
-Obj _3517039_37 = PRIM_CDR(_3517038_37);
-Obj exp1 = _3517039_37;
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517041_37 = PRIM_CDR(_3517040_37);
-Obj exp2 = _3517041_37;
-Obj _3517042_37 = primGenSym(co);
-Obj f = _3517042_37;
-Obj _3517043_37 = primGenSym(co);
-Obj v = _3517043_37;
-Obj _3517044_37 = makeCons(co->gc, v, Nil);
-Obj _3517045_37 = makeCons(co->gc, v, exp2);
-Obj _3517046_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517045_37);
-Obj _3517047_37 = makeCons(co->gc, _3517046_37, Nil);
-Obj _3517048_37 = makeCons(co->gc, _3517044_37, _3517047_37);
-Obj _3517049_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517048_37);
-Obj _3517050_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517051_37 = makeCons(co->gc, _3517050_37, Nil);
-Obj _3517052_37 = makeCons(co->gc, f, _3517051_37);
-Obj _3517053_37 = makeCons(co->gc, _3517052_37, Nil);
-Obj _3517054_37 = makeCons(co->gc, _3517049_37, _3517053_37);
-Obj _3517055_37 = makeCons(co->gc, f, _3517054_37);
-Obj _3517056_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517055_37);
+Obj _3516658_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517054_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517054_37) {
+Obj _3517055_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517056_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517055_37);
+if (True == _3517056_37) {
+Obj _3517057_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517058_37 = PRIM_ISCONS(_3517057_37);
+if (True == _3517058_37) {
+Obj _3517059_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517060_37 = PRIM_CAR(_3517059_37);
+Obj _3517061_37 = PRIM_ISCONS(_3517060_37);
+if (True == _3517061_37) {
+Obj _3517062_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517063_37 = PRIM_CAR(_3517062_37);
+Obj _3517064_37 = PRIM_CAR(_3517063_37);
+Obj _3517065_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517064_37);
+if (True == _3517065_37) {
+Obj _3517066_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517067_37 = PRIM_CAR(_3517066_37);
+Obj _3517068_37 = PRIM_CDR(_3517067_37);
+Obj exp1 = _3517068_37;
+Obj _3517069_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517070_37 = PRIM_CDR(_3517069_37);
+Obj exp2 = _3517070_37;
+Obj _3517071_37 = primGenSym(co);
+Obj f = _3517071_37;
+Obj _3517072_37 = primGenSym(co);
+Obj v = _3517072_37;
+Obj _3517073_37 = makeCons(co->gc, v, Nil);
+Obj _3517074_37 = makeCons(co->gc, v, exp2);
+Obj _3517075_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517074_37);
+Obj _3517076_37 = makeCons(co->gc, _3517075_37, Nil);
+Obj _3517077_37 = makeCons(co->gc, _3517073_37, _3517076_37);
+Obj _3517078_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517077_37);
+Obj _3517079_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
+Obj _3517080_37 = makeCons(co->gc, _3517079_37, Nil);
+Obj _3517081_37 = makeCons(co->gc, f, _3517080_37);
+Obj _3517082_37 = makeCons(co->gc, _3517081_37, Nil);
+Obj _3517083_37 = makeCons(co->gc, _3517078_37, _3517082_37);
+Obj _3517084_37 = makeCons(co->gc, f, _3517083_37);
+Obj _3517085_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517084_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517056_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517085_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516658_37);
 return;
 }
 }
@@ -7962,42 +7962,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516630_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517018_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517018_37) {
-Obj _3517019_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517020_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517019_37);
-if (True == _3517020_37) {
-Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517021_37;
+Obj _3516659_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517047_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517047_37) {
+Obj _3517048_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517049_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517048_37);
+if (True == _3517049_37) {
+Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517050_37;
 R[1] = args;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3516659_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3516659_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517023_37= co->res;
-Obj _3517024_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517023_37);
-coraReturn(co, _3517024_37);
+Obj _3517052_37= co->res;
+Obj _3517053_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517052_37);
+coraReturn(co, _3517053_37);
 return;
 }
 case 2:
 {
-Obj _3517022_37= co->res;
+Obj _3517051_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517022_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517051_37, args);
 return;
 }
 }
@@ -8007,76 +8007,76 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516631_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516996_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516996_37) {
-Obj _3516997_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516998_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3516997_37);
-if (True == _3516998_37) {
-Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517000_37 = PRIM_ISCONS(_3516999_37);
-if (True == _3517000_37) {
-Obj _3517001_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517002_37 = PRIM_CAR(_3517001_37);
-Obj x = _3517002_37;
-Obj _3517003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517004_37 = PRIM_CDR(_3517003_37);
-Obj _3517005_37 = PRIM_ISCONS(_3517004_37);
-if (True == _3517005_37) {
-Obj _3517006_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517007_37 = PRIM_CDR(_3517006_37);
-Obj _3517008_37 = PRIM_CAR(_3517007_37);
-Obj y = _3517008_37;
-Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_CDR(_3517009_37);
-Obj _3517011_37 = PRIM_CDR(_3517010_37);
-Obj _3517012_37 = PRIM_EQ(Nil, _3517011_37);
-if (True == _3517012_37) {
+Obj _3516660_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517025_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517025_37) {
+Obj _3517026_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517027_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517026_37);
+if (True == _3517027_37) {
+Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517029_37 = PRIM_ISCONS(_3517028_37);
+if (True == _3517029_37) {
+Obj _3517030_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517031_37 = PRIM_CAR(_3517030_37);
+Obj x = _3517031_37;
+Obj _3517032_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517033_37 = PRIM_CDR(_3517032_37);
+Obj _3517034_37 = PRIM_ISCONS(_3517033_37);
+if (True == _3517034_37) {
+Obj _3517035_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517036_37 = PRIM_CDR(_3517035_37);
+Obj _3517037_37 = PRIM_CAR(_3517036_37);
+Obj y = _3517037_37;
+Obj _3517038_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517039_37 = PRIM_CDR(_3517038_37);
+Obj _3517040_37 = PRIM_CDR(_3517039_37);
+Obj _3517041_37 = PRIM_EQ(Nil, _3517040_37);
+if (True == _3517041_37) {
 R[1] = y;
 saveCont(co, clofun15, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516660_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517014_37= co->res;
-Obj _3517013_37 = R[1];
-Obj _3517015_37 = makeCons(co->gc, _3517014_37, Nil);
-Obj _3517016_37 = makeCons(co->gc, _3517013_37, _3517015_37);
-Obj _3517017_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517016_37);
-coraReturn(co, _3517017_37);
+Obj _3517043_37= co->res;
+Obj _3517042_37 = R[1];
+Obj _3517044_37 = makeCons(co->gc, _3517043_37, Nil);
+Obj _3517045_37 = makeCons(co->gc, _3517042_37, _3517044_37);
+Obj _3517046_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517045_37);
+coraReturn(co, _3517046_37);
 return;
 }
 case 2:
 {
-Obj _3517013_37= co->res;
+Obj _3517042_37= co->res;
 Obj y = R[1];
-R[1] = _3517013_37;
+R[1] = _3517042_37;
 saveCont(co, clofun15, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
 return;
@@ -8088,42 +8088,42 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516632_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516963_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516963_37) {
-Obj _3516964_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516965_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516964_37);
-if (True == _3516965_37) {
-Obj _3516966_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516967_37 = PRIM_ISCONS(_3516966_37);
-if (True == _3516967_37) {
-Obj _3516968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516969_37 = PRIM_CAR(_3516968_37);
-Obj a = _3516969_37;
-Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516971_37 = PRIM_CDR(_3516970_37);
-Obj _3516972_37 = PRIM_ISCONS(_3516971_37);
-if (True == _3516972_37) {
-Obj _3516973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516974_37 = PRIM_CDR(_3516973_37);
-Obj _3516975_37 = PRIM_CAR(_3516974_37);
-Obj b = _3516975_37;
-Obj _3516976_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516977_37 = PRIM_CDR(_3516976_37);
-Obj _3516978_37 = PRIM_CDR(_3516977_37);
-Obj _3516979_37 = PRIM_ISCONS(_3516978_37);
-if (True == _3516979_37) {
-Obj _3516980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516981_37 = PRIM_CDR(_3516980_37);
-Obj _3516982_37 = PRIM_CDR(_3516981_37);
-Obj _3516983_37 = PRIM_CAR(_3516982_37);
-Obj c = _3516983_37;
-Obj _3516984_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516985_37 = PRIM_CDR(_3516984_37);
-Obj _3516986_37 = PRIM_CDR(_3516985_37);
-Obj _3516987_37 = PRIM_CDR(_3516986_37);
-Obj _3516988_37 = PRIM_EQ(Nil, _3516987_37);
-if (True == _3516988_37) {
+Obj _3516661_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3516992_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516992_37) {
+Obj _3516993_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516994_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516993_37);
+if (True == _3516994_37) {
+Obj _3516995_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516996_37 = PRIM_ISCONS(_3516995_37);
+if (True == _3516996_37) {
+Obj _3516997_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516998_37 = PRIM_CAR(_3516997_37);
+Obj a = _3516998_37;
+Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517000_37 = PRIM_CDR(_3516999_37);
+Obj _3517001_37 = PRIM_ISCONS(_3517000_37);
+if (True == _3517001_37) {
+Obj _3517002_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517003_37 = PRIM_CDR(_3517002_37);
+Obj _3517004_37 = PRIM_CAR(_3517003_37);
+Obj b = _3517004_37;
+Obj _3517005_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517006_37 = PRIM_CDR(_3517005_37);
+Obj _3517007_37 = PRIM_CDR(_3517006_37);
+Obj _3517008_37 = PRIM_ISCONS(_3517007_37);
+if (True == _3517008_37) {
+Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517010_37 = PRIM_CDR(_3517009_37);
+Obj _3517011_37 = PRIM_CDR(_3517010_37);
+Obj _3517012_37 = PRIM_CAR(_3517011_37);
+Obj c = _3517012_37;
+Obj _3517013_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517014_37 = PRIM_CDR(_3517013_37);
+Obj _3517015_37 = PRIM_CDR(_3517014_37);
+Obj _3517016_37 = PRIM_CDR(_3517015_37);
+Obj _3517017_37 = PRIM_EQ(Nil, _3517016_37);
+if (True == _3517017_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun14, 2, R);
@@ -8131,57 +8131,57 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516661_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516991_37= co->res;
-Obj _3516989_37 = R[1];
+Obj _3517020_37= co->res;
+Obj _3517018_37 = R[1];
 Obj a = R[2];
-Obj _3516992_37 = makeCons(co->gc, _3516991_37, Nil);
-Obj _3516993_37 = makeCons(co->gc, _3516989_37, _3516992_37);
-Obj _3516994_37 = makeCons(co->gc, a, _3516993_37);
-Obj _3516995_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516994_37);
-coraReturn(co, _3516995_37);
+Obj _3517021_37 = makeCons(co->gc, _3517020_37, Nil);
+Obj _3517022_37 = makeCons(co->gc, _3517018_37, _3517021_37);
+Obj _3517023_37 = makeCons(co->gc, a, _3517022_37);
+Obj _3517024_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517023_37);
+coraReturn(co, _3517024_37);
 return;
 }
 case 2:
 {
-Obj _3516989_37= co->res;
+Obj _3517018_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3516990_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3516989_37;
+Obj _3517019_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3517018_37;
 R[2] = a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3516990_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517019_37, closureRef(R[0], 2), c);
 return;
 }
 }
@@ -8191,85 +8191,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516633_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516931_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516931_37) {
-Obj _3516932_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516933_37 = PRIM_ISCONS(_3516932_37);
-if (True == _3516933_37) {
-Obj _3516934_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516935_37 = PRIM_CAR(_3516934_37);
-Obj _3516936_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516935_37);
-if (True == _3516936_37) {
-Obj _3516937_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516938_37 = PRIM_CDR(_3516937_37);
-Obj exp1 = _3516938_37;
-Obj _3516939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516940_37 = PRIM_ISCONS(_3516939_37);
-if (True == _3516940_37) {
-Obj _3516941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516942_37 = PRIM_CAR(_3516941_37);
-Obj _3516943_37 = PRIM_ISCONS(_3516942_37);
-if (True == _3516943_37) {
-Obj _3516944_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516945_37 = PRIM_CAR(_3516944_37);
-Obj _3516946_37 = PRIM_CAR(_3516945_37);
-Obj _3516947_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516946_37);
-if (True == _3516947_37) {
-Obj _3516948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516949_37 = PRIM_CAR(_3516948_37);
-Obj _3516950_37 = PRIM_CDR(_3516949_37);
-Obj exp2 = _3516950_37;
-Obj _3516951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516952_37 = PRIM_CDR(_3516951_37);
-Obj _3516953_37 = PRIM_EQ(Nil, _3516952_37);
-if (True == _3516953_37) {
-Obj _3516954_37 = primGenSym(co);
-Obj f = _3516954_37;
-Obj _3516955_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3516956_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3516957_37 = makeCons(co->gc, _3516956_37, Nil);
-Obj _3516958_37 = makeCons(co->gc, f, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, _3516958_37, Nil);
-Obj _3516960_37 = makeCons(co->gc, _3516955_37, _3516959_37);
-Obj _3516961_37 = makeCons(co->gc, f, _3516960_37);
-Obj _3516962_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516961_37);
+Obj _3516662_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3516960_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516960_37) {
+Obj _3516961_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516962_37 = PRIM_ISCONS(_3516961_37);
+if (True == _3516962_37) {
+Obj _3516963_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516964_37 = PRIM_CAR(_3516963_37);
+Obj _3516965_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516964_37);
+if (True == _3516965_37) {
+Obj _3516966_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516967_37 = PRIM_CDR(_3516966_37);
+Obj exp1 = _3516967_37;
+Obj _3516968_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516969_37 = PRIM_ISCONS(_3516968_37);
+if (True == _3516969_37) {
+Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516971_37 = PRIM_CAR(_3516970_37);
+Obj _3516972_37 = PRIM_ISCONS(_3516971_37);
+if (True == _3516972_37) {
+Obj _3516973_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516974_37 = PRIM_CAR(_3516973_37);
+Obj _3516975_37 = PRIM_CAR(_3516974_37);
+Obj _3516976_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516975_37);
+if (True == _3516976_37) {
+Obj _3516977_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516978_37 = PRIM_CAR(_3516977_37);
+Obj _3516979_37 = PRIM_CDR(_3516978_37);
+Obj exp2 = _3516979_37;
+Obj _3516980_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3516981_37 = PRIM_CDR(_3516980_37);
+Obj _3516982_37 = PRIM_EQ(Nil, _3516981_37);
+if (True == _3516982_37) {
+Obj _3516983_37 = primGenSym(co);
+Obj f = _3516983_37;
+Obj _3516984_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
+Obj _3516985_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
+Obj _3516986_37 = makeCons(co->gc, _3516985_37, Nil);
+Obj _3516987_37 = makeCons(co->gc, f, _3516986_37);
+Obj _3516988_37 = makeCons(co->gc, _3516987_37, Nil);
+Obj _3516989_37 = makeCons(co->gc, _3516984_37, _3516988_37);
+Obj _3516990_37 = makeCons(co->gc, f, _3516989_37);
+Obj _3516991_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516990_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516962_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516991_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516662_37);
 return;
 }
 }
@@ -8280,90 +8280,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516634_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516911_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516911_37) {
-Obj _3516912_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516912_37;
-Obj _3516913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516913_37;
+Obj _3516663_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj _3516940_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516940_37) {
+Obj _3516941_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3516941_37;
+Obj _3516942_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3516942_37;
 R[1] = op;
 R[2] = args;
-R[3] = _3516634_37;
+R[3] = _3516663_37;
 saveCont(co, clofun12, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, _3516663_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516921_37= co->res;
-Obj _3516919_37 = R[1];
-Obj _3516922_37 = makeCons(co->gc, _3516919_37, _3516921_37);
-coraReturn(co, _3516922_37);
+Obj _3516950_37= co->res;
+Obj _3516948_37 = R[1];
+Obj _3516951_37 = makeCons(co->gc, _3516948_37, _3516950_37);
+coraReturn(co, _3516951_37);
 return;
 }
 case 2:
 {
-Obj _3516920_37= co->res;
+Obj _3516949_37= co->res;
 Obj args = R[1];
-Obj _3516919_37 = R[2];
-R[1] = _3516919_37;
+Obj _3516948_37 = R[2];
+R[1] = _3516948_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516920_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516949_37, args);
 return;
 }
 case 3:
 {
-Obj _3516927_37= co->res;
+Obj _3516956_37= co->res;
 Obj tmp = R[1];
-Obj _3516928_37 = makeCons(co->gc, _3516927_37, Nil);
-Obj _3516929_37 = makeCons(co->gc, tmp, _3516928_37);
-Obj _3516930_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516929_37);
+Obj _3516957_37 = makeCons(co->gc, _3516956_37, Nil);
+Obj _3516958_37 = makeCons(co->gc, tmp, _3516957_37);
+Obj _3516959_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516958_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516930_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516959_37);
 return;
 }
 case 4:
 {
-Obj _3516925_37= co->res;
+Obj _3516954_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj tmp = _3516925_37;
-Obj _3516926_37 = makeCons(co->gc, op, args);
+Obj tmp = _3516954_37;
+Obj _3516955_37 = makeCons(co->gc, op, args);
 R[1] = tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516926_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516955_37, tmp);
 return;
 }
 case 5:
 {
-Obj _3516916_37= co->res;
+Obj _3516945_37= co->res;
 Obj required = R[1];
 Obj op = R[2];
 Obj args = R[3];
-Obj provided = _3516916_37;
-Obj _3516917_37 = PRIM_EQ(required, provided);
-if (True == _3516917_37) {
-Obj _3516918_37 = makeCons(co->gc, op, Nil);
-Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516918_37);
+Obj provided = _3516945_37;
+Obj _3516946_37 = PRIM_EQ(required, provided);
+if (True == _3516946_37) {
+Obj _3516947_37 = makeCons(co->gc, op, Nil);
+Obj _3516948_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516947_37);
 R[1] = args;
-R[2] = _3516919_37;
+R[2] = _3516948_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516923_37 = PRIM_GT(required, provided);
-if (True == _3516923_37) {
-Obj _3516924_37 = PRIM_SUB(required, provided);
+Obj _3516952_37 = PRIM_GT(required, provided);
+if (True == _3516952_37) {
+Obj _3516953_37 = PRIM_SUB(required, provided);
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516924_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516953_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8374,10 +8374,10 @@ return;
 }
 case 6:
 {
-Obj _3516915_37= co->res;
+Obj _3516944_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj required = _3516915_37;
+Obj required = _3516944_37;
 R[1] = required;
 R[2] = op;
 R[3] = args;
@@ -8387,11 +8387,11 @@ return;
 }
 case 7:
 {
-Obj _3516914_37= co->res;
+Obj _3516943_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj _3516634_37 = R[3];
-if (True == _3516914_37) {
+Obj _3516663_37 = R[3];
+if (True == _3516943_37) {
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 6, R);
@@ -8399,7 +8399,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, _3516663_37);
 return;
 }
 }
@@ -8416,9 +8416,9 @@ return;
 }
 case 1:
 {
-Obj _3516910_37= co->res;
+Obj _3516939_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516910_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516939_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8428,18 +8428,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516618_37 = R[1];
-Obj _3516619_37 = R[2];
-Obj _3516898_37 = PRIM_EQ(MAKE_NUMBER(0), _3516618_37);
-if (True == _3516898_37) {
-coraReturn(co, _3516619_37);
+Obj _3516647_37 = R[1];
+Obj _3516648_37 = R[2];
+Obj _3516927_37 = PRIM_EQ(MAKE_NUMBER(0), _3516647_37);
+if (True == _3516927_37) {
+coraReturn(co, _3516648_37);
 return;
 } else {
-Obj _3516899_37 = PRIM_SUB(_3516618_37, MAKE_NUMBER(1));
-Obj _3516900_37 = primGenSym(co);
-Obj _3516901_37 = makeCons(co->gc, _3516900_37, _3516619_37);
+Obj _3516928_37 = PRIM_SUB(_3516647_37, MAKE_NUMBER(1));
+Obj _3516929_37 = primGenSym(co);
+Obj _3516930_37 = makeCons(co->gc, _3516929_37, _3516648_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516899_37, _3516901_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516928_37, _3516930_37);
 return;
 }
 }
@@ -8457,9 +8457,9 @@ return;
 }
 case 1:
 {
-Obj _3516896_37= co->res;
+Obj _3516925_37= co->res;
 Obj find = R[1];
-if (True == _3516896_37) {
+if (True == _3516925_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8470,8 +8470,8 @@ return;
 }
 case 2:
 {
-Obj _3516895_37= co->res;
-Obj find = _3516895_37;
+Obj _3516924_37= co->res;
+Obj find = _3516924_37;
 R[1] = find;
 saveCont(co, clofun9, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8491,9 +8491,9 @@ return;
 }
 case 1:
 {
-Obj _3516893_37= co->res;
+Obj _3516922_37= co->res;
 Obj find = R[1];
-if (True == _3516893_37) {
+if (True == _3516922_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8504,8 +8504,8 @@ return;
 }
 case 2:
 {
-Obj _3516892_37= co->res;
-Obj find = _3516892_37;
+Obj _3516921_37= co->res;
+Obj find = _3516921_37;
 R[1] = find;
 saveCont(co, clofun8, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8525,16 +8525,16 @@ return;
 }
 case 1:
 {
-Obj _3516889_37= co->res;
-Obj _3516890_37 = primNot(_3516889_37);
-coraReturn(co, _3516890_37);
+Obj _3516918_37= co->res;
+Obj _3516919_37 = primNot(_3516918_37);
+coraReturn(co, _3516919_37);
 return;
 }
 case 2:
 {
-Obj _3516888_37= co->res;
+Obj _3516917_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516888_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516917_37);
 return;
 }
 }
@@ -8544,23 +8544,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516614_37 = R[1];
-Obj _3516615_37 = R[2];
-Obj _3516812_37 = PRIM_EQ(Nil, _3516615_37);
-if (True == _3516812_37) {
+Obj _3516643_37 = R[1];
+Obj _3516644_37 = R[2];
+Obj _3516841_37 = PRIM_EQ(Nil, _3516644_37);
+if (True == _3516841_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516813_37 = PRIM_ISCONS(_3516615_37);
-if (True == _3516813_37) {
-Obj _3516814_37 = PRIM_CAR(_3516615_37);
-Obj hd = _3516814_37;
-Obj _3516815_37 = PRIM_CDR(_3516615_37);
-Obj tl = _3516815_37;
-R[1] = _3516614_37;
+Obj _3516842_37 = PRIM_ISCONS(_3516644_37);
+if (True == _3516842_37) {
+Obj _3516843_37 = PRIM_CAR(_3516644_37);
+Obj hd = _3516843_37;
+Obj _3516844_37 = PRIM_CDR(_3516644_37);
+Obj tl = _3516844_37;
+R[1] = _3516643_37;
 R[2] = tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516614_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516643_37, hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -8571,13 +8571,13 @@ return;
 }
 case 1:
 {
-Obj _3516816_37= co->res;
-Obj _3516614_37 = R[1];
+Obj _3516845_37= co->res;
+Obj _3516643_37 = R[1];
 Obj tl = R[2];
-Obj _3516817_37 = PRIM_LT(_3516816_37, MAKE_NUMBER(0));
-if (True == _3516817_37) {
+Obj _3516846_37 = PRIM_LT(_3516845_37, MAKE_NUMBER(0));
+if (True == _3516846_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516614_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516643_37, tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8604,32 +8604,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516608_37 = R[1];
-Obj _3516609_37 = R[2];
-Obj _3516610_37 = R[3];
-Obj _3516801_37 = PRIM_EQ(Nil, _3516610_37);
-if (True == _3516801_37) {
+Obj _3516637_37 = R[1];
+Obj _3516638_37 = R[2];
+Obj _3516639_37 = R[3];
+Obj _3516830_37 = PRIM_EQ(Nil, _3516639_37);
+if (True == _3516830_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516612_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516610_37, _3516608_37, _3516609_37);
-Obj _3516806_37 = PRIM_ISCONS(_3516610_37);
-if (True == _3516806_37) {
-Obj _3516807_37 = PRIM_CAR(_3516610_37);
-Obj a = _3516807_37;
-Obj _3516808_37 = PRIM_CDR(_3516610_37);
-Obj _3516809_37 = PRIM_EQ(_3516609_37, a);
-if (True == _3516809_37) {
-coraReturn(co, _3516608_37);
+Obj _3516641_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516639_37, _3516637_37, _3516638_37);
+Obj _3516835_37 = PRIM_ISCONS(_3516639_37);
+if (True == _3516835_37) {
+Obj _3516836_37 = PRIM_CAR(_3516639_37);
+Obj a = _3516836_37;
+Obj _3516837_37 = PRIM_CDR(_3516639_37);
+Obj _3516838_37 = PRIM_EQ(_3516638_37, a);
+if (True == _3516838_37) {
+coraReturn(co, _3516637_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, _3516641_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, _3516641_37);
 return;
 }
 }
@@ -8641,14 +8641,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516802_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516802_37) {
-Obj _3516803_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516804_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516804_37;
-Obj _3516805_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3516831_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516831_37) {
+Obj _3516832_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516833_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj b = _3516833_37;
+Obj _3516834_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516805_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516834_37, closureRef(R[0], 2), b);
 return;
 } else {
 co->ctx.sp = R;
@@ -8663,24 +8663,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516603_37 = R[1];
-Obj _3516604_37 = R[2];
-Obj _3516605_37 = R[3];
-Obj _3516795_37 = PRIM_EQ(Nil, _3516605_37);
-if (True == _3516795_37) {
-coraReturn(co, _3516604_37);
-return;
-} else {
-Obj _3516796_37 = PRIM_ISCONS(_3516605_37);
-if (True == _3516796_37) {
-Obj _3516797_37 = PRIM_CAR(_3516605_37);
-Obj x = _3516797_37;
-Obj _3516798_37 = PRIM_CDR(_3516605_37);
-Obj y = _3516798_37;
-R[1] = _3516603_37;
+Obj _3516632_37 = R[1];
+Obj _3516633_37 = R[2];
+Obj _3516634_37 = R[3];
+Obj _3516824_37 = PRIM_EQ(Nil, _3516634_37);
+if (True == _3516824_37) {
+coraReturn(co, _3516633_37);
+return;
+} else {
+Obj _3516825_37 = PRIM_ISCONS(_3516634_37);
+if (True == _3516825_37) {
+Obj _3516826_37 = PRIM_CAR(_3516634_37);
+Obj x = _3516826_37;
+Obj _3516827_37 = PRIM_CDR(_3516634_37);
+Obj y = _3516827_37;
+R[1] = _3516632_37;
 R[2] = y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516603_37, _3516604_37, x);
+coraCall2(co, _3516632_37, _3516633_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -8691,11 +8691,11 @@ return;
 }
 case 1:
 {
-Obj _3516799_37= co->res;
-Obj _3516603_37 = R[1];
+Obj _3516828_37= co->res;
+Obj _3516632_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516603_37, _3516799_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516632_37, _3516828_37, y);
 return;
 }
 }
@@ -8705,44 +8705,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516598_37 = R[1];
-Obj _3516599_37 = R[2];
-Obj _3516780_37 = PRIM_EQ(Nil, _3516599_37);
-if (True == _3516780_37) {
+Obj _3516627_37 = R[1];
+Obj _3516628_37 = R[2];
+Obj _3516809_37 = PRIM_EQ(Nil, _3516628_37);
+if (True == _3516809_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516601_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516599_37, _3516598_37);
-Obj _3516784_37 = PRIM_ISCONS(_3516599_37);
-if (True == _3516784_37) {
-Obj _3516785_37 = PRIM_CAR(_3516599_37);
-Obj _3516786_37 = PRIM_ISCONS(_3516785_37);
-if (True == _3516786_37) {
-Obj _3516787_37 = PRIM_CAR(_3516599_37);
-Obj _3516788_37 = PRIM_CAR(_3516787_37);
-Obj x = _3516788_37;
-Obj _3516789_37 = PRIM_CAR(_3516599_37);
-Obj _3516790_37 = PRIM_CDR(_3516789_37);
-Obj y = _3516790_37;
-Obj _3516791_37 = PRIM_CDR(_3516599_37);
-Obj _3516792_37 = PRIM_EQ(_3516598_37, x);
-if (True == _3516792_37) {
-Obj _3516793_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516793_37);
+Obj _3516630_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516628_37, _3516627_37);
+Obj _3516813_37 = PRIM_ISCONS(_3516628_37);
+if (True == _3516813_37) {
+Obj _3516814_37 = PRIM_CAR(_3516628_37);
+Obj _3516815_37 = PRIM_ISCONS(_3516814_37);
+if (True == _3516815_37) {
+Obj _3516816_37 = PRIM_CAR(_3516628_37);
+Obj _3516817_37 = PRIM_CAR(_3516816_37);
+Obj x = _3516817_37;
+Obj _3516818_37 = PRIM_CAR(_3516628_37);
+Obj _3516819_37 = PRIM_CDR(_3516818_37);
+Obj y = _3516819_37;
+Obj _3516820_37 = PRIM_CDR(_3516628_37);
+Obj _3516821_37 = PRIM_EQ(_3516627_37, x);
+if (True == _3516821_37) {
+Obj _3516822_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3516822_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516630_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516630_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516630_37);
 return;
 }
 }
@@ -8754,11 +8754,11 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516781_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516781_37) {
-Obj _3516782_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516783_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516783_37;
+Obj _3516810_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516810_37) {
+Obj _3516811_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516812_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3516812_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
 return;
diff --git a/src/reader.c b/src/reader.c
index c22e39c..b76e2eb 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -315,5 +315,5 @@ printObj(FILE *to, Obj o) {
 
 void
 sexpWrite(FILE *out, Obj o) {
-	printObj(stdout, o);
+	printObj(out, o);
 }
diff --git a/src/runtime.c b/src/runtime.c
index a1a1317..97a7c60 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -241,6 +241,15 @@ primIsString(Obj x) {
 	}
 }
 
+Obj
+primIsNumber(Obj x) {
+	if (isNumber(x)) {
+		return True;
+	} else {
+		return False;
+	}
+}
+
 void
 symbolToString(Cora *co, int lable, Obj *R) {
 	Obj sym = R[1];
@@ -817,8 +826,14 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 static void
 builtinThrow(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinThrow");
-	struct tryMark mark = vecPop(&co->trystack);
 	Obj v = R[1];
+	if (vecLen(&co->trystack) == 0) {
+		fprintf(stderr, "uncaught exception: ");
+		printObj(stderr, v);
+		fprintf(stderr, "\n");
+		assert(false);
+	}
+	struct tryMark mark = vecPop(&co->trystack);
 
 	// Capture the call stack as continuation.
 	Obj cont = makeContinuation(co, vecRef(&co->callstack, mark.callstackPos),
@@ -1114,6 +1129,7 @@ coraInit() {
 		makeNative(co->gc, 2, builtinBytesLength, 1, 0));
 	primSet(co, intern("try"), makeNative(co->gc, 3, builtinTryCatch, 2, 0));
 	primSet(co, intern("throw"), makeNative(co->gc, 2, builtinThrow, 1, 0));
+	primSet(co, intern("error"), makeNative(co->gc, 2, builtinThrow, 1, 0));
 	primSet(co, intern("cora/init#*imported*"), Nil);
 	primSet(co, intern("symbol-cooked?"),
 		makeNative(co->gc, 2, builtinSymbolCooked, 1, 0));
-- 
2.43.0


From b00dcf4d651d0a9b76bab8eb2d916e02fb866e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 16/29] fix: compile quoted lists, shadowed variables and
 shadowed primitives

---
 init.c       | 3164 +++++++++----------
 lib/toc.c    | 8255 ++++++++++++++++++++++++++------------------------
 lib/toc.cora |   20 +-
 3 files changed, 5831 insertions(+), 5608 deletions(-)

diff --git a/init.c b/init.c
index 7783d5c..256428a 100644
--- a/init.c
+++ b/init.c
@@ -275,319 +275,319 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512476_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512479_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512482_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512485_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512488_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512492_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512497_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512501_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512509_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512511_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512516_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3513260_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3513263_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3513266_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3513269_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3513272_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3513276_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3513281_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3513285_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3513293_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3513295_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3513300_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj _3512997_37= co->res;
-Obj _3513003_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513015_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513016_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513017_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513016_37);
-Obj _3513018_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513017_37);
-Obj _3513019_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513020_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513019_37);
-Obj _3513021_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513020_37);
-Obj _3513022_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513023_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513022_37);
-Obj _3513024_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513023_37);
-Obj _3513025_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513026_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513025_37);
-Obj _3513027_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513026_37);
-Obj _3513028_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513029_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513028_37);
-Obj _3513030_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3513029_37);
-Obj _3513031_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513032_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513031_37);
-Obj _3513033_37 = makeCons(co->gc, getBinding(co, packageID, 69).name, _3513032_37);
-Obj _3513034_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513035_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513034_37);
-Obj _3513036_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513035_37);
-Obj _3513037_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513038_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513037_37);
-Obj _3513039_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513038_37);
-Obj _3513040_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513041_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513040_37);
-Obj _3513042_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513041_37);
-Obj _3513043_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513044_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513043_37);
-Obj _3513045_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513044_37);
-Obj _3513046_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513047_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513046_37);
-Obj _3513048_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513047_37);
-Obj _3513049_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513050_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513049_37);
-Obj _3513051_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513053_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513052_37);
-Obj _3513054_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513056_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513055_37);
-Obj _3513057_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513056_37);
-Obj _3513058_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513059_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513058_37);
-Obj _3513060_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513059_37);
-Obj _3513061_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513062_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513061_37);
-Obj _3513063_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513062_37);
-Obj _3513064_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513065_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513064_37);
-Obj _3513066_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513065_37);
-Obj _3513067_37 = makeCons(co->gc, _3513066_37, Nil);
-Obj _3513068_37 = makeCons(co->gc, _3513063_37, _3513067_37);
-Obj _3513069_37 = makeCons(co->gc, _3513060_37, _3513068_37);
-Obj _3513070_37 = makeCons(co->gc, _3513057_37, _3513069_37);
-Obj _3513071_37 = makeCons(co->gc, _3513054_37, _3513070_37);
-Obj _3513072_37 = makeCons(co->gc, _3513051_37, _3513071_37);
-Obj _3513073_37 = makeCons(co->gc, _3513048_37, _3513072_37);
-Obj _3513074_37 = makeCons(co->gc, _3513045_37, _3513073_37);
-Obj _3513075_37 = makeCons(co->gc, _3513042_37, _3513074_37);
-Obj _3513076_37 = makeCons(co->gc, _3513039_37, _3513075_37);
-Obj _3513077_37 = makeCons(co->gc, _3513036_37, _3513076_37);
-Obj _3513078_37 = makeCons(co->gc, _3513033_37, _3513077_37);
-Obj _3513079_37 = makeCons(co->gc, _3513030_37, _3513078_37);
-Obj _3513080_37 = makeCons(co->gc, _3513027_37, _3513079_37);
-Obj _3513081_37 = makeCons(co->gc, _3513024_37, _3513080_37);
-Obj _3513082_37 = makeCons(co->gc, _3513021_37, _3513081_37);
-Obj _3513083_37 = makeCons(co->gc, _3513018_37, _3513082_37);
-Obj _3513084_37 = primSet(co, getBinding(co, packageID, 71).name, _3513083_37);
-Obj _3513099_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513103_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513281_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513282_37 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
-Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513282_37);
-Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 103).name, _3513283_37);
-Obj _3513285_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513284_37);
-Obj _3513286_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513285_37);
-Obj _3513287_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, _3513286_37);
-Obj _3513288_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, _3513287_37);
-Obj _3513289_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513288_37);
-Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513289_37);
-Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513291_37);
-Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513294_37);
-Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513295_37);
-Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513296_37);
-Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513297_37);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513298_37);
-Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513300_37);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513301_37);
-Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513302_37);
-Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 53).name, _3513304_37);
-Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513305_37);
-Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, _3513307_37);
-Obj _3513309_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3513308_37);
-Obj _3513310_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, _3513309_37);
-Obj _3513311_37 = makeCons(co->gc, getBinding(co, packageID, 56).name, _3513310_37);
-Obj _3513312_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, _3513311_37);
-Obj _3513313_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513312_37);
-Obj _3513314_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513313_37);
-Obj _3513315_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513314_37);
-Obj _3513316_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513315_37);
-Obj _3513317_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513316_37);
-Obj _3513318_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513317_37);
-Obj _3513319_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513318_37);
-Obj _3513320_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513319_37);
-Obj _3513321_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513320_37);
-Obj _3513322_37 = primSet(co, getBinding(co, packageID, 55).name, _3513321_37);
-Obj _3513323_37 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513324_37 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513326_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513327_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513328_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513329_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513330_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
-Obj _3513331_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513332_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
-Obj _3513333_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
-Obj _3513334_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
-Obj _3513335_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
-Obj _3513336_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
-Obj _3513337_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513338_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513339_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513341_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513342_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513345_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513346_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513348_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513349_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513350_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513351_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
-Obj _3513352_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513353_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513354_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
-Obj _3513355_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
-Obj _3513356_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
-Obj _3513357_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
-Obj _3513358_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
-Obj _3513359_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
-Obj _3513360_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
-Obj _3513361_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513362_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
-Obj _3513363_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
-coraReturn(co, _3513363_37);
+Obj _3513781_37= co->res;
+Obj _3513787_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513799_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513800_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513801_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513800_37);
+Obj _3513802_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513801_37);
+Obj _3513803_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513804_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513803_37);
+Obj _3513805_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513804_37);
+Obj _3513806_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3513807_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513806_37);
+Obj _3513808_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513807_37);
+Obj _3513809_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513810_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513809_37);
+Obj _3513811_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513810_37);
+Obj _3513812_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513813_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513812_37);
+Obj _3513814_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3513813_37);
+Obj _3513815_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513816_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513815_37);
+Obj _3513817_37 = makeCons(co->gc, getBinding(co, packageID, 69).name, _3513816_37);
+Obj _3513818_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513819_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513818_37);
+Obj _3513820_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513819_37);
+Obj _3513821_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513822_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513821_37);
+Obj _3513823_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513822_37);
+Obj _3513824_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513825_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513824_37);
+Obj _3513826_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513825_37);
+Obj _3513827_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513828_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513827_37);
+Obj _3513829_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513828_37);
+Obj _3513830_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513831_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513830_37);
+Obj _3513832_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513831_37);
+Obj _3513833_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3513834_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513833_37);
+Obj _3513835_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513834_37);
+Obj _3513836_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513837_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513836_37);
+Obj _3513838_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513837_37);
+Obj _3513839_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513840_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513839_37);
+Obj _3513841_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513840_37);
+Obj _3513842_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513843_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513842_37);
+Obj _3513844_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513843_37);
+Obj _3513845_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513846_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513845_37);
+Obj _3513847_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513846_37);
+Obj _3513848_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3513849_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513848_37);
+Obj _3513850_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513849_37);
+Obj _3513851_37 = makeCons(co->gc, _3513850_37, Nil);
+Obj _3513852_37 = makeCons(co->gc, _3513847_37, _3513851_37);
+Obj _3513853_37 = makeCons(co->gc, _3513844_37, _3513852_37);
+Obj _3513854_37 = makeCons(co->gc, _3513841_37, _3513853_37);
+Obj _3513855_37 = makeCons(co->gc, _3513838_37, _3513854_37);
+Obj _3513856_37 = makeCons(co->gc, _3513835_37, _3513855_37);
+Obj _3513857_37 = makeCons(co->gc, _3513832_37, _3513856_37);
+Obj _3513858_37 = makeCons(co->gc, _3513829_37, _3513857_37);
+Obj _3513859_37 = makeCons(co->gc, _3513826_37, _3513858_37);
+Obj _3513860_37 = makeCons(co->gc, _3513823_37, _3513859_37);
+Obj _3513861_37 = makeCons(co->gc, _3513820_37, _3513860_37);
+Obj _3513862_37 = makeCons(co->gc, _3513817_37, _3513861_37);
+Obj _3513863_37 = makeCons(co->gc, _3513814_37, _3513862_37);
+Obj _3513864_37 = makeCons(co->gc, _3513811_37, _3513863_37);
+Obj _3513865_37 = makeCons(co->gc, _3513808_37, _3513864_37);
+Obj _3513866_37 = makeCons(co->gc, _3513805_37, _3513865_37);
+Obj _3513867_37 = makeCons(co->gc, _3513802_37, _3513866_37);
+Obj _3513868_37 = primSet(co, getBinding(co, packageID, 71).name, _3513867_37);
+Obj _3513883_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513887_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3514065_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3514066_37 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
+Obj _3514067_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3514066_37);
+Obj _3514068_37 = makeCons(co->gc, getBinding(co, packageID, 103).name, _3514067_37);
+Obj _3514069_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3514068_37);
+Obj _3514070_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3514069_37);
+Obj _3514071_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, _3514070_37);
+Obj _3514072_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, _3514071_37);
+Obj _3514073_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3514072_37);
+Obj _3514074_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3514073_37);
+Obj _3514075_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3514074_37);
+Obj _3514076_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3514075_37);
+Obj _3514077_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3514076_37);
+Obj _3514078_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3514077_37);
+Obj _3514079_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3514078_37);
+Obj _3514080_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3514079_37);
+Obj _3514081_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3514080_37);
+Obj _3514082_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3514081_37);
+Obj _3514083_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3514082_37);
+Obj _3514084_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3514083_37);
+Obj _3514085_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3514084_37);
+Obj _3514086_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3514085_37);
+Obj _3514087_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3514086_37);
+Obj _3514088_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3514087_37);
+Obj _3514089_37 = makeCons(co->gc, getBinding(co, packageID, 53).name, _3514088_37);
+Obj _3514090_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3514089_37);
+Obj _3514091_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3514090_37);
+Obj _3514092_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, _3514091_37);
+Obj _3514093_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3514092_37);
+Obj _3514094_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, _3514093_37);
+Obj _3514095_37 = makeCons(co->gc, getBinding(co, packageID, 56).name, _3514094_37);
+Obj _3514096_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, _3514095_37);
+Obj _3514097_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3514096_37);
+Obj _3514098_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3514097_37);
+Obj _3514099_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3514098_37);
+Obj _3514100_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3514099_37);
+Obj _3514101_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3514100_37);
+Obj _3514102_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3514101_37);
+Obj _3514103_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3514102_37);
+Obj _3514104_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3514103_37);
+Obj _3514105_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3514104_37);
+Obj _3514106_37 = primSet(co, getBinding(co, packageID, 55).name, _3514105_37);
+Obj _3514107_37 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3514108_37 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3514109_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3514110_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3514111_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3514112_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3514113_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3514114_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj _3514115_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3514116_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj _3514117_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj _3514118_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
+Obj _3514119_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
+Obj _3514120_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
+Obj _3514121_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3514122_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3514123_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
+Obj _3514124_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3514125_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3514126_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3514127_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3514128_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3514129_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3514130_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3514131_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3514132_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3514133_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3514134_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3514135_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
+Obj _3514136_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3514137_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3514138_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
+Obj _3514139_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
+Obj _3514140_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj _3514141_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj _3514142_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj _3514143_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj _3514144_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
+Obj _3514145_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3514146_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
+Obj _3514147_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
+coraReturn(co, _3514147_37);
 return;
 }
 case 2:
 {
-Obj _3512947_37= co->res;
-Obj _3512976_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3512977_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3513731_37= co->res;
+Obj _3513760_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3513761_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512930_37= co->res;
-Obj _3512944_37 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3513714_37= co->res;
+Obj _3513728_37 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512908_37= co->res;
-Obj _3512928_37 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3513692_37= co->res;
+Obj _3513712_37 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512877_37= co->res;
-Obj _3512878_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512879_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512882_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512906_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3513661_37= co->res;
+Obj _3513662_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3513663_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3513666_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3513690_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512769_37= co->res;
-Obj _3512821_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512822_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512827_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512831_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512832_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512840_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512841_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512847_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512858_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512864_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3513553_37= co->res;
+Obj _3513605_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3513606_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3513611_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3513615_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3513616_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3513624_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3513625_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3513631_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3513642_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3513648_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 97).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512663_37= co->res;
-Obj _3512685_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512719_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512732_37 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512754_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512768_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3513447_37= co->res;
+Obj _3513469_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3513503_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3513516_37 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3513538_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3513552_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512648_37= co->res;
-Obj _3512651_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512661_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3513432_37= co->res;
+Obj _3513435_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3513445_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512634_37= co->res;
-Obj _3512646_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3513418_37= co->res;
+Obj _3513430_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512620_37= co->res;
-Obj _3512632_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3513404_37= co->res;
+Obj _3513416_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512606_37= co->res;
+Obj _3513390_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512584_37= co->res;
-Obj _3512589_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512592_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512604_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3513368_37= co->res;
+Obj _3513373_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3513376_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3513388_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512574_37= co->res;
+Obj _3513358_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512572_37= co->res;
+Obj _3513356_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512517_37= co->res;
-Obj _3512518_37 = primSet(co, getBinding(co, packageID, 150).name, _3512517_37);
-Obj _3512524_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512525_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512526_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
-Obj _3512527_37 = primGenSym(co);
-Obj _3512528_37 = primSet(co, getBinding(co, packageID, 146).name, _3512527_37);
-Obj _3512532_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512541_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512542_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512559_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512560_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
-Obj _3512571_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3513301_37= co->res;
+Obj _3513302_37 = primSet(co, getBinding(co, packageID, 150).name, _3513301_37);
+Obj _3513308_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3513309_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3513310_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj _3513311_37 = primGenSym(co);
+Obj _3513312_37 = primSet(co, getBinding(co, packageID, 146).name, _3513311_37);
+Obj _3513316_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3513325_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3513326_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3513343_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3513344_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj _3513355_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
@@ -599,67 +599,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512447_37 = R[1];
-Obj _3512448_37 = R[2];
-Obj _3512449_37 = R[3];
-Obj _3512450_37 = R[4];
-Obj _3512471_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512447_37, _3512448_37, _3512449_37, _3512450_37);
-R[1] = _3512450_37;
-R[2] = _3512471_37;
+Obj _3513143_37 = R[1];
+Obj _3513144_37 = R[2];
+Obj _3513145_37 = R[3];
+Obj _3513146_37 = R[4];
+Obj _3513232_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3513143_37, _3513144_37, _3513145_37, _3513146_37);
+R[1] = _3513146_37;
+R[2] = _3513232_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), _3512450_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), _3513146_37);
 return;
 }
 case 1:
 {
-Obj _3513280_37= co->res;
-Obj _3512471_37 = R[1];
-if (True == _3513280_37) {
+Obj _3514064_37= co->res;
+Obj _3513232_37 = R[1];
+if (True == _3514064_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512471_37, True);
+coraCall1(co, _3513232_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512471_37, False);
+coraCall1(co, _3513232_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513279_37= co->res;
-Obj _3512450_37 = R[1];
-Obj _3512471_37 = R[2];
-if (True == _3513279_37) {
+Obj _3514063_37= co->res;
+Obj _3513146_37 = R[1];
+Obj _3513232_37 = R[2];
+if (True == _3514063_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512471_37, True);
+coraCall1(co, _3513232_37, True);
 return;
 } else {
-R[1] = _3512471_37;
+R[1] = _3513232_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512450_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513146_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513277_37= co->res;
-Obj _3512450_37 = R[1];
-Obj _3512471_37 = R[2];
-if (True == _3513277_37) {
+Obj _3514061_37= co->res;
+Obj _3513146_37 = R[1];
+Obj _3513232_37 = R[2];
+if (True == _3514061_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512471_37, True);
+coraCall1(co, _3513232_37, True);
 return;
 } else {
-Obj _3513278_37 = primIsString(_3512450_37);
-if (True == _3513278_37) {
+Obj _3514062_37 = primIsString(_3513146_37);
+if (True == _3514062_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512471_37, True);
+coraCall1(co, _3513232_37, True);
 return;
 } else {
-R[1] = _3512450_37;
-R[2] = _3512471_37;
+R[1] = _3513146_37;
+R[2] = _3513232_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), _3512450_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), _3513146_37);
 return;
 }
 }
@@ -671,49 +671,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512472_37 = R[1];
-if (True == _3512472_37) {
+Obj _3513231_37 = R[1];
+if (True == _3513231_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512452_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513265_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513265_37) {
-Obj _3513266_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513267_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513266_37);
-if (True == _3513267_37) {
-Obj _3513268_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513269_37 = PRIM_ISCONS(_3513268_37);
-if (True == _3513269_37) {
-Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513271_37 = PRIM_CAR(_3513270_37);
-Obj x = _3513271_37;
-Obj _3513272_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513273_37 = PRIM_CDR(_3513272_37);
-Obj _3513274_37 = PRIM_EQ(Nil, _3513273_37);
-if (True == _3513274_37) {
-Obj _3513275_37 = makeCons(co->gc, x, Nil);
-Obj _3513276_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513275_37);
-coraReturn(co, _3513276_37);
+Obj _3513233_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3514049_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3514049_37) {
+Obj _3514050_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3514051_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3514050_37);
+if (True == _3514051_37) {
+Obj _3514052_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3514053_37 = PRIM_ISCONS(_3514052_37);
+if (True == _3514053_37) {
+Obj _3514054_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3514055_37 = PRIM_CAR(_3514054_37);
+Obj _3513258_37 = _3514055_37;
+Obj _3514056_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3514057_37 = PRIM_CDR(_3514056_37);
+Obj _3514058_37 = PRIM_EQ(Nil, _3514057_37);
+if (True == _3514058_37) {
+Obj _3514059_37 = makeCons(co->gc, _3513258_37, Nil);
+Obj _3514060_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3514059_37);
+coraReturn(co, _3514060_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512452_37);
+coraCall0(co, _3513233_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512452_37);
+coraCall0(co, _3513233_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512452_37);
+coraCall0(co, _3513233_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512452_37);
+coraCall0(co, _3513233_37);
 return;
 }
 }
@@ -725,73 +725,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513104_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513104_37) {
+Obj _3513888_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513888_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512454_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513243_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513243_37) {
-Obj _3513244_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513245_37 = PRIM_EQ(getBinding(co, packageID, 141).name, _3513244_37);
-if (True == _3513245_37) {
-Obj _3513246_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513247_37 = PRIM_ISCONS(_3513246_37);
-if (True == _3513247_37) {
-Obj _3513248_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513249_37 = PRIM_CAR(_3513248_37);
-Obj args = _3513249_37;
-Obj _3513250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513251_37 = PRIM_CDR(_3513250_37);
-Obj _3513252_37 = PRIM_ISCONS(_3513251_37);
-if (True == _3513252_37) {
-Obj _3513253_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513254_37 = PRIM_CDR(_3513253_37);
-Obj _3513255_37 = PRIM_CAR(_3513254_37);
-Obj body = _3513255_37;
-Obj _3513256_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513257_37 = PRIM_CDR(_3513256_37);
-Obj _3513258_37 = PRIM_CDR(_3513257_37);
-Obj _3513259_37 = PRIM_EQ(Nil, _3513258_37);
-if (True == _3513259_37) {
-R[1] = body;
-R[2] = args;
+Obj _3513234_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3514027_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3514027_37) {
+Obj _3514028_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3514029_37 = PRIM_EQ(getBinding(co, packageID, 141).name, _3514028_37);
+if (True == _3514029_37) {
+Obj _3514030_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514031_37 = PRIM_ISCONS(_3514030_37);
+if (True == _3514031_37) {
+Obj _3514032_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514033_37 = PRIM_CAR(_3514032_37);
+Obj _3513256_37 = _3514033_37;
+Obj _3514034_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514035_37 = PRIM_CDR(_3514034_37);
+Obj _3514036_37 = PRIM_ISCONS(_3514035_37);
+if (True == _3514036_37) {
+Obj _3514037_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514038_37 = PRIM_CDR(_3514037_37);
+Obj _3514039_37 = PRIM_CAR(_3514038_37);
+Obj _3513257_37 = _3514039_37;
+Obj _3514040_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514041_37 = PRIM_CDR(_3514040_37);
+Obj _3514042_37 = PRIM_CDR(_3514041_37);
+Obj _3514043_37 = PRIM_EQ(Nil, _3514042_37);
+if (True == _3514043_37) {
+R[1] = _3513257_37;
+R[2] = _3513256_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3513256_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3513234_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3513234_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3513234_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3513234_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512454_37);
+coraCall0(co, _3513234_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513106_37= co->res;
-if (True == _3513106_37) {
+Obj _3513890_37= co->res;
+if (True == _3513890_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -802,8 +802,8 @@ return;
 }
 case 2:
 {
-Obj _3513105_37= co->res;
-if (True == _3513105_37) {
+Obj _3513889_37= co->res;
+if (True == _3513889_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -814,22 +814,22 @@ return;
 }
 case 3:
 {
-Obj _3513261_37= co->res;
-Obj args = R[1];
-Obj _3513262_37 = makeCons(co->gc, _3513261_37, Nil);
-Obj _3513263_37 = makeCons(co->gc, args, _3513262_37);
-Obj _3513264_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513263_37);
-coraReturn(co, _3513264_37);
+Obj _3514045_37= co->res;
+Obj _3513256_37 = R[1];
+Obj _3514046_37 = makeCons(co->gc, _3514045_37, Nil);
+Obj _3514047_37 = makeCons(co->gc, _3513256_37, _3514046_37);
+Obj _3514048_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3514047_37);
+coraReturn(co, _3514048_37);
 return;
 }
 case 4:
 {
-Obj _3513260_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
+Obj _3514044_37= co->res;
+Obj _3513257_37 = R[1];
+Obj _3513256_37 = R[2];
+R[1] = _3513256_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3513260_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3514044_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513257_37);
 return;
 }
 }
@@ -839,132 +839,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512455_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513199_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513201_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3513200_37);
-if (True == _3513201_37) {
-Obj _3513202_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513203_37 = PRIM_ISCONS(_3513202_37);
-if (True == _3513203_37) {
-Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513205_37 = PRIM_CAR(_3513204_37);
-Obj _3513206_37 = PRIM_ISCONS(_3513205_37);
-if (True == _3513206_37) {
-Obj _3513207_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513208_37 = PRIM_CAR(_3513207_37);
-Obj _3513209_37 = PRIM_CAR(_3513208_37);
-Obj _3513210_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3513209_37);
-if (True == _3513210_37) {
-Obj _3513211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513212_37 = PRIM_CAR(_3513211_37);
-Obj _3513213_37 = PRIM_CDR(_3513212_37);
-Obj _3513214_37 = PRIM_ISCONS(_3513213_37);
-if (True == _3513214_37) {
-Obj _3513215_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513216_37 = PRIM_CAR(_3513215_37);
-Obj _3513217_37 = PRIM_CDR(_3513216_37);
-Obj _3513218_37 = PRIM_CAR(_3513217_37);
-Obj pkg = _3513218_37;
-Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513220_37 = PRIM_CAR(_3513219_37);
-Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_CDR(_3513221_37);
-Obj _3513223_37 = PRIM_EQ(Nil, _3513222_37);
-if (True == _3513223_37) {
-Obj _3513224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513225_37 = PRIM_CDR(_3513224_37);
-Obj _3513226_37 = PRIM_ISCONS(_3513225_37);
-if (True == _3513226_37) {
-Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513228_37 = PRIM_CDR(_3513227_37);
-Obj _3513229_37 = PRIM_CAR(_3513228_37);
-Obj y = _3513229_37;
-Obj _3513230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513231_37 = PRIM_CDR(_3513230_37);
-Obj _3513232_37 = PRIM_CDR(_3513231_37);
-Obj _3513233_37 = PRIM_EQ(Nil, _3513232_37);
-if (True == _3513233_37) {
-Obj _3513234_37 = primIsString(pkg);
-if (True == _3513234_37) {
-Obj _3513235_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513236_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3513235_37);
-R[1] = pkg;
-R[2] = y;
+Obj _3513235_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513983_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513983_37) {
+Obj _3513984_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513985_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3513984_37);
+if (True == _3513985_37) {
+Obj _3513986_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513987_37 = PRIM_ISCONS(_3513986_37);
+if (True == _3513987_37) {
+Obj _3513988_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513989_37 = PRIM_CAR(_3513988_37);
+Obj _3513990_37 = PRIM_ISCONS(_3513989_37);
+if (True == _3513990_37) {
+Obj _3513991_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513992_37 = PRIM_CAR(_3513991_37);
+Obj _3513993_37 = PRIM_CAR(_3513992_37);
+Obj _3513994_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3513993_37);
+if (True == _3513994_37) {
+Obj _3513995_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513996_37 = PRIM_CAR(_3513995_37);
+Obj _3513997_37 = PRIM_CDR(_3513996_37);
+Obj _3513998_37 = PRIM_ISCONS(_3513997_37);
+if (True == _3513998_37) {
+Obj _3513999_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514000_37 = PRIM_CAR(_3513999_37);
+Obj _3514001_37 = PRIM_CDR(_3514000_37);
+Obj _3514002_37 = PRIM_CAR(_3514001_37);
+Obj _3513254_37 = _3514002_37;
+Obj _3514003_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514004_37 = PRIM_CAR(_3514003_37);
+Obj _3514005_37 = PRIM_CDR(_3514004_37);
+Obj _3514006_37 = PRIM_CDR(_3514005_37);
+Obj _3514007_37 = PRIM_EQ(Nil, _3514006_37);
+if (True == _3514007_37) {
+Obj _3514008_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514009_37 = PRIM_CDR(_3514008_37);
+Obj _3514010_37 = PRIM_ISCONS(_3514009_37);
+if (True == _3514010_37) {
+Obj _3514011_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514012_37 = PRIM_CDR(_3514011_37);
+Obj _3514013_37 = PRIM_CAR(_3514012_37);
+Obj _3513255_37 = _3514013_37;
+Obj _3514014_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3514015_37 = PRIM_CDR(_3514014_37);
+Obj _3514016_37 = PRIM_CDR(_3514015_37);
+Obj _3514017_37 = PRIM_EQ(Nil, _3514016_37);
+if (True == _3514017_37) {
+Obj _3514018_37 = primIsString(_3513254_37);
+if (True == _3514018_37) {
+Obj _3514019_37 = makeCons(co->gc, _3513254_37, Nil);
+Obj _3514020_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3514019_37);
+R[1] = _3513254_37;
+R[2] = _3513255_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513236_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3514020_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512455_37);
+coraCall0(co, _3513235_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513239_37= co->res;
-Obj _3513237_37 = R[1];
-Obj _3513240_37 = makeCons(co->gc, _3513239_37, Nil);
-Obj _3513241_37 = makeCons(co->gc, _3513237_37, _3513240_37);
-Obj _3513242_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3513241_37);
-coraReturn(co, _3513242_37);
+Obj _3514023_37= co->res;
+Obj _3514021_37 = R[1];
+Obj _3514024_37 = makeCons(co->gc, _3514023_37, Nil);
+Obj _3514025_37 = makeCons(co->gc, _3514021_37, _3514024_37);
+Obj _3514026_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3514025_37);
+coraReturn(co, _3514026_37);
 return;
 }
 case 2:
 {
-Obj _3513237_37= co->res;
-Obj pkg = R[1];
-Obj y = R[2];
-Obj _3513238_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513237_37;
+Obj _3514021_37= co->res;
+Obj _3513254_37 = R[1];
+Obj _3513255_37 = R[2];
+Obj _3514022_37 = makeCons(co->gc, _3513254_37, closureRef(R[0], 3));
+R[1] = _3514021_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), _3513238_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), _3514022_37, _3513255_37);
 return;
 }
 }
@@ -974,34 +974,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512456_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513191_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513191_37) {
-Obj _3513192_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513192_37;
-Obj _3513193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513193_37;
-Obj _3512473_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512456_37);
-Obj _3513197_37 = PRIM_EQ(op, getBinding(co, packageID, 127).name);
-if (True == _3513197_37) {
+Obj _3513236_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513975_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513975_37) {
+Obj _3513976_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513249_37 = _3513976_37;
+Obj _3513977_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513250_37 = _3513977_37;
+Obj _3513253_37 = makeNative(co->gc, 2, clofun89, 1, 6, _3513249_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513250_37, _3513236_37);
+Obj _3513981_37 = PRIM_EQ(_3513249_37, getBinding(co, packageID, 127).name);
+if (True == _3513981_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512473_37, True);
+coraCall1(co, _3513253_37, True);
 return;
 } else {
-Obj _3513198_37 = PRIM_EQ(op, getBinding(co, packageID, 92).name);
-if (True == _3513198_37) {
+Obj _3513982_37 = PRIM_EQ(_3513249_37, getBinding(co, packageID, 92).name);
+if (True == _3513982_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512473_37, True);
+coraCall1(co, _3513253_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512473_37, False);
+coraCall1(co, _3513253_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512456_37);
+coraCall0(co, _3513236_37);
 return;
 }
 }
@@ -1012,8 +1012,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512474_37 = R[1];
-if (True == _3512474_37) {
+Obj _3513252_37 = R[1];
+if (True == _3513252_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1025,16 +1025,16 @@ return;
 }
 case 1:
 {
-Obj _3513195_37= co->res;
-Obj _3513196_37 = makeCons(co->gc, closureRef(R[0], 0), _3513195_37);
-coraReturn(co, _3513196_37);
+Obj _3513979_37= co->res;
+Obj _3513980_37 = makeCons(co->gc, closureRef(R[0], 0), _3513979_37);
+coraReturn(co, _3513980_37);
 return;
 }
 case 2:
 {
-Obj _3513194_37= co->res;
+Obj _3513978_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513194_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513978_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1044,100 +1044,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512457_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513158_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513158_37) {
-Obj _3513159_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513160_37 = PRIM_EQ(getBinding(co, packageID, 130).name, _3513159_37);
-if (True == _3513160_37) {
-Obj _3513161_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513162_37 = PRIM_ISCONS(_3513161_37);
-if (True == _3513162_37) {
-Obj _3513163_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513164_37 = PRIM_CAR(_3513163_37);
-Obj a = _3513164_37;
-Obj _3513165_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513166_37 = PRIM_CDR(_3513165_37);
-Obj _3513167_37 = PRIM_ISCONS(_3513166_37);
-if (True == _3513167_37) {
-Obj _3513168_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513169_37 = PRIM_CDR(_3513168_37);
-Obj _3513170_37 = PRIM_CAR(_3513169_37);
-Obj b = _3513170_37;
-Obj _3513171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513172_37 = PRIM_CDR(_3513171_37);
-Obj _3513173_37 = PRIM_CDR(_3513172_37);
-Obj _3513174_37 = PRIM_ISCONS(_3513173_37);
-if (True == _3513174_37) {
-Obj _3513175_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513176_37 = PRIM_CDR(_3513175_37);
-Obj _3513177_37 = PRIM_CDR(_3513176_37);
-Obj _3513178_37 = PRIM_CAR(_3513177_37);
-Obj c = _3513178_37;
-Obj _3513179_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513180_37 = PRIM_CDR(_3513179_37);
-Obj _3513181_37 = PRIM_CDR(_3513180_37);
-Obj _3513182_37 = PRIM_CDR(_3513181_37);
-Obj _3513183_37 = PRIM_EQ(Nil, _3513182_37);
-if (True == _3513183_37) {
-R[1] = c;
-R[2] = a;
+Obj _3513237_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513942_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513942_37) {
+Obj _3513943_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513944_37 = PRIM_EQ(getBinding(co, packageID, 130).name, _3513943_37);
+if (True == _3513944_37) {
+Obj _3513945_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513946_37 = PRIM_ISCONS(_3513945_37);
+if (True == _3513946_37) {
+Obj _3513947_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513948_37 = PRIM_CAR(_3513947_37);
+Obj _3513246_37 = _3513948_37;
+Obj _3513949_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513950_37 = PRIM_CDR(_3513949_37);
+Obj _3513951_37 = PRIM_ISCONS(_3513950_37);
+if (True == _3513951_37) {
+Obj _3513952_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513953_37 = PRIM_CDR(_3513952_37);
+Obj _3513954_37 = PRIM_CAR(_3513953_37);
+Obj _3513247_37 = _3513954_37;
+Obj _3513955_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513956_37 = PRIM_CDR(_3513955_37);
+Obj _3513957_37 = PRIM_CDR(_3513956_37);
+Obj _3513958_37 = PRIM_ISCONS(_3513957_37);
+if (True == _3513958_37) {
+Obj _3513959_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513960_37 = PRIM_CDR(_3513959_37);
+Obj _3513961_37 = PRIM_CDR(_3513960_37);
+Obj _3513962_37 = PRIM_CAR(_3513961_37);
+Obj _3513248_37 = _3513962_37;
+Obj _3513963_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513964_37 = PRIM_CDR(_3513963_37);
+Obj _3513965_37 = PRIM_CDR(_3513964_37);
+Obj _3513966_37 = PRIM_CDR(_3513965_37);
+Obj _3513967_37 = PRIM_EQ(Nil, _3513966_37);
+if (True == _3513967_37) {
+R[1] = _3513248_37;
+R[2] = _3513246_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), b);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513247_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512457_37);
+coraCall0(co, _3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512457_37);
+coraCall0(co, _3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512457_37);
+coraCall0(co, _3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512457_37);
+coraCall0(co, _3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512457_37);
+coraCall0(co, _3513237_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512457_37);
+coraCall0(co, _3513237_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513186_37= co->res;
-Obj _3513184_37 = R[1];
-Obj a = R[2];
-Obj _3513187_37 = makeCons(co->gc, _3513186_37, Nil);
-Obj _3513188_37 = makeCons(co->gc, _3513184_37, _3513187_37);
-Obj _3513189_37 = makeCons(co->gc, a, _3513188_37);
-Obj _3513190_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513189_37);
-coraReturn(co, _3513190_37);
+Obj _3513970_37= co->res;
+Obj _3513968_37 = R[1];
+Obj _3513246_37 = R[2];
+Obj _3513971_37 = makeCons(co->gc, _3513970_37, Nil);
+Obj _3513972_37 = makeCons(co->gc, _3513968_37, _3513971_37);
+Obj _3513973_37 = makeCons(co->gc, _3513246_37, _3513972_37);
+Obj _3513974_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513973_37);
+coraReturn(co, _3513974_37);
 return;
 }
 case 2:
 {
-Obj _3513184_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3513185_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513184_37;
-R[2] = a;
+Obj _3513968_37= co->res;
+Obj _3513248_37 = R[1];
+Obj _3513246_37 = R[2];
+Obj _3513969_37 = makeCons(co->gc, _3513246_37, closureRef(R[0], 1));
+R[1] = _3513968_37;
+R[2] = _3513246_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3513185_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3513969_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513248_37);
 return;
 }
 }
@@ -1147,73 +1147,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512458_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513132_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513132_37) {
-Obj _3513133_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513134_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3513133_37);
-if (True == _3513134_37) {
-Obj _3513135_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513136_37 = PRIM_ISCONS(_3513135_37);
-if (True == _3513136_37) {
-Obj _3513137_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513138_37 = PRIM_CAR(_3513137_37);
-Obj path = _3513138_37;
-Obj _3513139_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513140_37 = PRIM_CDR(_3513139_37);
-Obj _3513141_37 = PRIM_ISCONS(_3513140_37);
-if (True == _3513141_37) {
-Obj _3513142_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513143_37 = PRIM_CDR(_3513142_37);
-Obj _3513144_37 = PRIM_CAR(_3513143_37);
-Obj import = _3513144_37;
-Obj _3513145_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513146_37 = PRIM_CDR(_3513145_37);
-Obj _3513147_37 = PRIM_CDR(_3513146_37);
-Obj _3513148_37 = PRIM_ISCONS(_3513147_37);
-if (True == _3513148_37) {
-Obj _3513149_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513150_37 = PRIM_CDR(_3513149_37);
-Obj _3513151_37 = PRIM_CDR(_3513150_37);
-Obj _3513152_37 = PRIM_CAR(_3513151_37);
-Obj body = _3513152_37;
-Obj _3513153_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513154_37 = PRIM_CDR(_3513153_37);
-Obj _3513155_37 = PRIM_CDR(_3513154_37);
-Obj _3513156_37 = PRIM_CDR(_3513155_37);
-Obj _3513157_37 = PRIM_EQ(Nil, _3513156_37);
-if (True == _3513157_37) {
+Obj _3513238_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513916_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513916_37) {
+Obj _3513917_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513918_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3513917_37);
+if (True == _3513918_37) {
+Obj _3513919_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513920_37 = PRIM_ISCONS(_3513919_37);
+if (True == _3513920_37) {
+Obj _3513921_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513922_37 = PRIM_CAR(_3513921_37);
+Obj _3513243_37 = _3513922_37;
+Obj _3513923_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513924_37 = PRIM_CDR(_3513923_37);
+Obj _3513925_37 = PRIM_ISCONS(_3513924_37);
+if (True == _3513925_37) {
+Obj _3513926_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513927_37 = PRIM_CDR(_3513926_37);
+Obj _3513928_37 = PRIM_CAR(_3513927_37);
+Obj _3513244_37 = _3513928_37;
+Obj _3513929_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513930_37 = PRIM_CDR(_3513929_37);
+Obj _3513931_37 = PRIM_CDR(_3513930_37);
+Obj _3513932_37 = PRIM_ISCONS(_3513931_37);
+if (True == _3513932_37) {
+Obj _3513933_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513934_37 = PRIM_CDR(_3513933_37);
+Obj _3513935_37 = PRIM_CDR(_3513934_37);
+Obj _3513936_37 = PRIM_CAR(_3513935_37);
+Obj _3513245_37 = _3513936_37;
+Obj _3513937_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513938_37 = PRIM_CDR(_3513937_37);
+Obj _3513939_37 = PRIM_CDR(_3513938_37);
+Obj _3513940_37 = PRIM_CDR(_3513939_37);
+Obj _3513941_37 = PRIM_EQ(Nil, _3513940_37);
+if (True == _3513941_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), path, import, body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), _3513243_37, _3513244_37, _3513245_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512458_37);
+coraCall0(co, _3513238_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512458_37);
+coraCall0(co, _3513238_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512458_37);
+coraCall0(co, _3513238_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512458_37);
+coraCall0(co, _3513238_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512458_37);
+coraCall0(co, _3513238_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512458_37);
+coraCall0(co, _3513238_37);
 return;
 }
 }
@@ -1224,81 +1224,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512459_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513108_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513108_37) {
-Obj _3513109_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513110_37 = PRIM_EQ(getBinding(co, packageID, 134).name, _3513109_37);
-if (True == _3513110_37) {
-Obj _3513111_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513112_37 = PRIM_ISCONS(_3513111_37);
-if (True == _3513112_37) {
-Obj _3513113_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513114_37 = PRIM_CAR(_3513113_37);
-Obj var = _3513114_37;
-Obj _3513115_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513116_37 = PRIM_CDR(_3513115_37);
-Obj _3513117_37 = PRIM_ISCONS(_3513116_37);
-if (True == _3513117_37) {
-Obj _3513118_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513119_37 = PRIM_CDR(_3513118_37);
-Obj _3513120_37 = PRIM_CAR(_3513119_37);
-Obj val = _3513120_37;
-Obj _3513121_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513122_37 = PRIM_CDR(_3513121_37);
-Obj _3513123_37 = PRIM_CDR(_3513122_37);
-Obj _3513124_37 = PRIM_EQ(Nil, _3513123_37);
-if (True == _3513124_37) {
-R[1] = val;
+Obj _3513239_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513892_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513892_37) {
+Obj _3513893_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513894_37 = PRIM_EQ(getBinding(co, packageID, 134).name, _3513893_37);
+if (True == _3513894_37) {
+Obj _3513895_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513896_37 = PRIM_ISCONS(_3513895_37);
+if (True == _3513896_37) {
+Obj _3513897_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513898_37 = PRIM_CAR(_3513897_37);
+Obj _3513240_37 = _3513898_37;
+Obj _3513899_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513900_37 = PRIM_CDR(_3513899_37);
+Obj _3513901_37 = PRIM_ISCONS(_3513900_37);
+if (True == _3513901_37) {
+Obj _3513902_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513903_37 = PRIM_CDR(_3513902_37);
+Obj _3513904_37 = PRIM_CAR(_3513903_37);
+Obj _3513241_37 = _3513904_37;
+Obj _3513905_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513906_37 = PRIM_CDR(_3513905_37);
+Obj _3513907_37 = PRIM_CDR(_3513906_37);
+Obj _3513908_37 = PRIM_EQ(Nil, _3513907_37);
+if (True == _3513908_37) {
+R[1] = _3513241_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), var, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), _3513240_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512459_37);
+coraCall0(co, _3513239_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512459_37);
+coraCall0(co, _3513239_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512459_37);
+coraCall0(co, _3513239_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512459_37);
+coraCall0(co, _3513239_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512459_37);
+coraCall0(co, _3513239_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513128_37= co->res;
-Obj _3513127_37 = R[1];
-Obj _3513129_37 = makeCons(co->gc, _3513128_37, Nil);
-Obj _3513130_37 = makeCons(co->gc, _3513127_37, _3513129_37);
-Obj _3513131_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513130_37);
-coraReturn(co, _3513131_37);
+Obj _3513912_37= co->res;
+Obj _3513911_37 = R[1];
+Obj _3513913_37 = makeCons(co->gc, _3513912_37, Nil);
+Obj _3513914_37 = makeCons(co->gc, _3513911_37, _3513913_37);
+Obj _3513915_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513914_37);
+coraReturn(co, _3513915_37);
 return;
 }
 case 2:
 {
-Obj _3513125_37= co->res;
-Obj val = R[1];
-Obj var1 = _3513125_37;
-Obj _3513126_37 = makeCons(co->gc, var1, Nil);
-Obj _3513127_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513126_37);
-R[1] = _3513127_37;
+Obj _3513909_37= co->res;
+Obj _3513241_37 = R[1];
+Obj _3513242_37 = _3513909_37;
+Obj _3513910_37 = makeCons(co->gc, _3513242_37, Nil);
+Obj _3513911_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513910_37);
+R[1] = _3513911_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513241_37);
 return;
 }
 }
@@ -1314,9 +1314,9 @@ return;
 }
 case 1:
 {
-Obj _3513107_37= co->res;
+Obj _3513891_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513107_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513891_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1333,16 +1333,16 @@ return;
 }
 case 1:
 {
-Obj _3513101_37= co->res;
-Obj _3513102_37 = primNot(_3513101_37);
-coraReturn(co, _3513102_37);
+Obj _3513885_37= co->res;
+Obj _3513886_37 = primNot(_3513885_37);
+coraReturn(co, _3513886_37);
 return;
 }
 case 2:
 {
-Obj _3513100_37= co->res;
+Obj _3513884_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513100_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513884_37);
 return;
 }
 }
@@ -1352,44 +1352,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512442_37 = R[1];
-Obj _3512443_37 = R[2];
-Obj _3513085_37 = PRIM_EQ(Nil, _3512443_37);
-if (True == _3513085_37) {
+Obj _3513138_37 = R[1];
+Obj _3513139_37 = R[2];
+Obj _3513869_37 = PRIM_EQ(Nil, _3513139_37);
+if (True == _3513869_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512445_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512443_37, _3512442_37);
-Obj _3513089_37 = PRIM_ISCONS(_3512443_37);
-if (True == _3513089_37) {
-Obj _3513090_37 = PRIM_CAR(_3512443_37);
-Obj _3513091_37 = PRIM_ISCONS(_3513090_37);
-if (True == _3513091_37) {
-Obj _3513092_37 = PRIM_CAR(_3512443_37);
-Obj _3513093_37 = PRIM_CAR(_3513092_37);
-Obj x = _3513093_37;
-Obj _3513094_37 = PRIM_CAR(_3512443_37);
-Obj _3513095_37 = PRIM_CDR(_3513094_37);
-Obj y = _3513095_37;
-Obj _3513096_37 = PRIM_CDR(_3512443_37);
-Obj _3513097_37 = PRIM_EQ(_3512442_37, x);
-if (True == _3513097_37) {
-Obj _3513098_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513098_37);
+Obj _3513226_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3513139_37, _3513138_37);
+Obj _3513873_37 = PRIM_ISCONS(_3513139_37);
+if (True == _3513873_37) {
+Obj _3513874_37 = PRIM_CAR(_3513139_37);
+Obj _3513875_37 = PRIM_ISCONS(_3513874_37);
+if (True == _3513875_37) {
+Obj _3513876_37 = PRIM_CAR(_3513139_37);
+Obj _3513877_37 = PRIM_CAR(_3513876_37);
+Obj _3513228_37 = _3513877_37;
+Obj _3513878_37 = PRIM_CAR(_3513139_37);
+Obj _3513879_37 = PRIM_CDR(_3513878_37);
+Obj _3513229_37 = _3513879_37;
+Obj _3513880_37 = PRIM_CDR(_3513139_37);
+Obj _3513881_37 = PRIM_EQ(_3513138_37, _3513228_37);
+if (True == _3513881_37) {
+Obj _3513882_37 = makeCons(co->gc, _3513228_37, _3513229_37);
+coraReturn(co, _3513882_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3513226_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3513226_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3513226_37);
 return;
 }
 }
@@ -1401,13 +1401,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513086_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513086_37) {
-Obj _3513087_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513088_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513088_37;
+Obj _3513870_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513870_37) {
+Obj _3513871_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513872_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513227_37 = _3513872_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), _3513227_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1422,27 +1422,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512437_37 = R[1];
-Obj _3512438_37 = R[2];
-Obj _3512439_37 = R[3];
-Obj _3513004_37 = PRIM_EQ(Nil, _3512439_37);
-if (True == _3513004_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), _3512437_37, _3512438_37);
-return;
-} else {
-Obj _3513005_37 = PRIM_ISCONS(_3512439_37);
-if (True == _3513005_37) {
-Obj _3513006_37 = PRIM_CAR(_3512439_37);
-Obj import = _3513006_37;
-Obj _3513007_37 = PRIM_CDR(_3512439_37);
-Obj more = _3513007_37;
-R[1] = import;
-R[2] = _3512437_37;
-R[3] = _3512438_37;
-R[4] = more;
+Obj _3513133_37 = R[1];
+Obj _3513134_37 = R[2];
+Obj _3513135_37 = R[3];
+Obj _3513788_37 = PRIM_EQ(Nil, _3513135_37);
+if (True == _3513788_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), _3513133_37, _3513134_37);
+return;
+} else {
+Obj _3513789_37 = PRIM_ISCONS(_3513135_37);
+if (True == _3513789_37) {
+Obj _3513790_37 = PRIM_CAR(_3513135_37);
+Obj _3513223_37 = _3513790_37;
+Obj _3513791_37 = PRIM_CDR(_3513135_37);
+Obj _3513224_37 = _3513791_37;
+R[1] = _3513223_37;
+R[2] = _3513133_37;
+R[3] = _3513134_37;
+R[4] = _3513224_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), import, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), _3513223_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1453,90 +1453,90 @@ return;
 }
 case 1:
 {
-Obj _3513014_37= co->res;
+Obj _3513798_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513014_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513798_37);
 return;
 }
 case 2:
 {
-Obj _3513013_37= co->res;
-Obj import = R[1];
+Obj _3513797_37= co->res;
+Obj _3513223_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), import, _3513013_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), _3513223_37, _3513797_37);
 return;
 }
 case 3:
 {
-Obj _3513012_37= co->res;
-Obj import = R[1];
-R[1] = import;
+Obj _3513796_37= co->res;
+Obj _3513223_37 = R[1];
+R[1] = _3513223_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513012_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513796_37);
 return;
 }
 case 4:
 {
-Obj _3513011_37= co->res;
-Obj import = R[1];
-Obj _3512437_37 = R[2];
-Obj _3512438_37 = R[3];
-Obj more = R[4];
-if (True == _3513011_37) {
-R[1] = import;
+Obj _3513795_37= co->res;
+Obj _3513223_37 = R[1];
+Obj _3513133_37 = R[2];
+Obj _3513134_37 = R[3];
+Obj _3513224_37 = R[4];
+if (True == _3513795_37) {
+R[1] = _3513223_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512437_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513133_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), _3512437_37, _3512438_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), _3513133_37, _3513134_37, _3513224_37);
 return;
 }
 }
 case 5:
 {
-Obj _3513010_37= co->res;
-Obj import = R[1];
-Obj _3512437_37 = R[2];
-Obj _3512438_37 = R[3];
-Obj more = R[4];
-Obj export = _3513010_37;
-R[1] = import;
-R[2] = _3512437_37;
-R[3] = _3512438_37;
-R[4] = more;
+Obj _3513794_37= co->res;
+Obj _3513223_37 = R[1];
+Obj _3513133_37 = R[2];
+Obj _3513134_37 = R[3];
+Obj _3513224_37 = R[4];
+Obj _3513225_37 = _3513794_37;
+R[1] = _3513223_37;
+R[2] = _3513133_37;
+R[3] = _3513134_37;
+R[4] = _3513224_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), _3512437_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), _3513133_37, _3513225_37);
 return;
 }
 case 6:
 {
-Obj _3513009_37= co->res;
-Obj import = R[1];
-Obj _3512437_37 = R[2];
-Obj _3512438_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512437_37;
-R[3] = _3512438_37;
-R[4] = more;
+Obj _3513793_37= co->res;
+Obj _3513223_37 = R[1];
+Obj _3513133_37 = R[2];
+Obj _3513134_37 = R[3];
+Obj _3513224_37 = R[4];
+R[1] = _3513223_37;
+R[2] = _3513133_37;
+R[3] = _3513134_37;
+R[4] = _3513224_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), _3513009_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), _3513793_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3513008_37= co->res;
-Obj import = R[1];
-Obj _3512437_37 = R[2];
-Obj _3512438_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512437_37;
-R[3] = _3512438_37;
-R[4] = more;
+Obj _3513792_37= co->res;
+Obj _3513223_37 = R[1];
+Obj _3513133_37 = R[2];
+Obj _3513134_37 = R[3];
+Obj _3513224_37 = R[4];
+R[1] = _3513223_37;
+R[2] = _3513133_37;
+R[3] = _3513134_37;
+R[4] = _3513224_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513008_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513792_37);
 return;
 }
 }
@@ -1548,8 +1548,8 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3512998_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3512998_37) {
+Obj _3513782_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3513782_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1562,34 +1562,34 @@ return;
 }
 case 1:
 {
-Obj _3513002_37= co->res;
+Obj _3513786_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513002_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513786_37);
 return;
 }
 case 2:
 {
-Obj _3513001_37= co->res;
+Obj _3513785_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), ns, _3513001_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), ns, _3513785_37);
 return;
 }
 case 3:
 {
-Obj _3513000_37= co->res;
+Obj _3513784_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513000_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513784_37);
 return;
 }
 case 4:
 {
-Obj _3512999_37= co->res;
+Obj _3513783_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3512999_37) {
+if (True == _3513783_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1614,27 +1614,27 @@ return;
 }
 case 1:
 {
-Obj _3512980_37= co->res;
-Obj path = R[1];
+Obj _3513764_37= co->res;
+Obj _3513222_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3512980_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3513764_37, makeNative(co->gc, 4, clofun78, 3, 1, _3513222_37));
 return;
 }
 case 2:
 {
-Obj _3512979_37= co->res;
-Obj path = R[1];
-R[1] = path;
+Obj _3513763_37= co->res;
+Obj _3513222_37 = R[1];
+R[1] = _3513222_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3512979_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3513763_37);
 return;
 }
 case 3:
 {
-Obj _3512978_37= co->res;
+Obj _3513762_37= co->res;
 Obj sexp = R[1];
-Obj path = _3512978_37;
-R[1] = path;
+Obj _3513222_37 = _3513762_37;
+R[1] = _3513222_37;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), sexp);
 return;
@@ -1649,41 +1649,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3512981_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3513765_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3512981_37;
+R[3] = _3513765_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3512991_37= co->res;
-Obj _3512981_37 = R[1];
-Obj _3512992_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3512991_37);
-Obj _3512993_37 = makeCons(co->gc, _3512992_37, Nil);
-Obj _3512994_37 = makeCons(co->gc, _3512981_37, _3512993_37);
-Obj _3512995_37 = makeCons(co->gc, closureRef(R[0], 0), _3512994_37);
-Obj _3512996_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3512995_37);
-coraReturn(co, _3512996_37);
+Obj _3513775_37= co->res;
+Obj _3513765_37 = R[1];
+Obj _3513776_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3513775_37);
+Obj _3513777_37 = makeCons(co->gc, _3513776_37, Nil);
+Obj _3513778_37 = makeCons(co->gc, _3513765_37, _3513777_37);
+Obj _3513779_37 = makeCons(co->gc, closureRef(R[0], 0), _3513778_37);
+Obj _3513780_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3513779_37);
+coraReturn(co, _3513780_37);
 return;
 }
 case 2:
 {
-Obj _3512984_37= co->res;
+Obj _3513768_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3512981_37 = R[3];
-Obj _3512985_37 = makeCons(co->gc, export, Nil);
-Obj _3512986_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3512985_37);
-Obj _3512987_37 = makeCons(co->gc, _3512986_37, Nil);
-Obj _3512988_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, _3512987_37);
-Obj _3512989_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512988_37);
-Obj _3512990_37 = makeCons(co->gc, _3512989_37, body);
-R[1] = _3512981_37;
+Obj _3513765_37 = R[3];
+Obj _3513769_37 = makeCons(co->gc, export, Nil);
+Obj _3513770_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3513769_37);
+Obj _3513771_37 = makeCons(co->gc, _3513770_37, Nil);
+Obj _3513772_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, _3513771_37);
+Obj _3513773_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3513772_37);
+Obj _3513774_37 = makeCons(co->gc, _3513773_37, body);
+R[1] = _3513765_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3512984_37, _3512990_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3513768_37, _3513774_37);
 return;
 }
 }
@@ -1694,9 +1694,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3512982_37 = makeCons(co->gc, imp, Nil);
-Obj _3512983_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3512982_37);
-coraReturn(co, _3512983_37);
+Obj _3513766_37 = makeCons(co->gc, imp, Nil);
+Obj _3513767_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3513766_37);
+coraReturn(co, _3513767_37);
 return;
 }
 }
@@ -1719,62 +1719,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512430_37 = R[1];
-Obj _3512431_37 = R[2];
-Obj _3512432_37 = R[3];
-Obj _3512433_37 = R[4];
-Obj _3512434_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512432_37, _3512430_37, _3512431_37, _3512433_37);
-Obj _3512958_37 = PRIM_ISCONS(_3512430_37);
-if (True == _3512958_37) {
-Obj _3512959_37 = PRIM_CAR(_3512430_37);
-Obj _3512960_37 = PRIM_ISCONS(_3512959_37);
-if (True == _3512960_37) {
-Obj _3512961_37 = PRIM_CAR(_3512430_37);
-Obj _3512962_37 = PRIM_CAR(_3512961_37);
-Obj _3512963_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3512962_37);
-if (True == _3512963_37) {
-Obj _3512964_37 = PRIM_CAR(_3512430_37);
-Obj _3512965_37 = PRIM_CDR(_3512964_37);
-Obj _3512966_37 = PRIM_ISCONS(_3512965_37);
-if (True == _3512966_37) {
-Obj _3512967_37 = PRIM_CAR(_3512430_37);
-Obj _3512968_37 = PRIM_CDR(_3512967_37);
-Obj _3512969_37 = PRIM_CAR(_3512968_37);
-Obj lib = _3512969_37;
-Obj _3512970_37 = PRIM_CAR(_3512430_37);
-Obj _3512971_37 = PRIM_CDR(_3512970_37);
-Obj _3512972_37 = PRIM_CDR(_3512971_37);
-Obj _3512973_37 = PRIM_EQ(Nil, _3512972_37);
-if (True == _3512973_37) {
-Obj _3512974_37 = PRIM_CDR(_3512430_37);
-Obj rest = _3512974_37;
-Obj _3512975_37 = makeCons(co->gc, lib, _3512431_37);
+Obj _3513126_37 = R[1];
+Obj _3513127_37 = R[2];
+Obj _3513128_37 = R[3];
+Obj _3513129_37 = R[4];
+Obj _3513216_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3513128_37, _3513126_37, _3513127_37, _3513129_37);
+Obj _3513742_37 = PRIM_ISCONS(_3513126_37);
+if (True == _3513742_37) {
+Obj _3513743_37 = PRIM_CAR(_3513126_37);
+Obj _3513744_37 = PRIM_ISCONS(_3513743_37);
+if (True == _3513744_37) {
+Obj _3513745_37 = PRIM_CAR(_3513126_37);
+Obj _3513746_37 = PRIM_CAR(_3513745_37);
+Obj _3513747_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3513746_37);
+if (True == _3513747_37) {
+Obj _3513748_37 = PRIM_CAR(_3513126_37);
+Obj _3513749_37 = PRIM_CDR(_3513748_37);
+Obj _3513750_37 = PRIM_ISCONS(_3513749_37);
+if (True == _3513750_37) {
+Obj _3513751_37 = PRIM_CAR(_3513126_37);
+Obj _3513752_37 = PRIM_CDR(_3513751_37);
+Obj _3513753_37 = PRIM_CAR(_3513752_37);
+Obj _3513220_37 = _3513753_37;
+Obj _3513754_37 = PRIM_CAR(_3513126_37);
+Obj _3513755_37 = PRIM_CDR(_3513754_37);
+Obj _3513756_37 = PRIM_CDR(_3513755_37);
+Obj _3513757_37 = PRIM_EQ(Nil, _3513756_37);
+if (True == _3513757_37) {
+Obj _3513758_37 = PRIM_CDR(_3513126_37);
+Obj _3513221_37 = _3513758_37;
+Obj _3513759_37 = makeCons(co->gc, _3513220_37, _3513127_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), rest, _3512975_37, _3512432_37, _3512433_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), _3513221_37, _3513759_37, _3513128_37, _3513129_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512434_37);
+coraCall0(co, _3513216_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512434_37);
+coraCall0(co, _3513216_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512434_37);
+coraCall0(co, _3513216_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512434_37);
+coraCall0(co, _3513216_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512434_37);
+coraCall0(co, _3513216_37);
 return;
 }
 }
@@ -1785,37 +1785,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512435_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3512949_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512951_37 = PRIM_ISCONS(_3512950_37);
-if (True == _3512951_37) {
-Obj _3512952_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512953_37 = PRIM_CAR(_3512952_37);
-Obj _3512954_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3512953_37);
-if (True == _3512954_37) {
-Obj _3512955_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512956_37 = PRIM_CDR(_3512955_37);
-Obj more = _3512956_37;
-Obj _3512957_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3512957_37;
+Obj _3513217_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513733_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513733_37) {
+Obj _3513734_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513735_37 = PRIM_ISCONS(_3513734_37);
+if (True == _3513735_37) {
+Obj _3513736_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513737_37 = PRIM_CAR(_3513736_37);
+Obj _3513738_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3513737_37);
+if (True == _3513738_37) {
+Obj _3513739_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513740_37 = PRIM_CDR(_3513739_37);
+Obj _3513218_37 = _3513740_37;
+Obj _3513741_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3513219_37 = _3513741_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), _3513219_37, closureRef(R[0], 2), _3513218_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3513217_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3513217_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3513217_37);
 return;
 }
 }
@@ -1832,9 +1832,9 @@ return;
 }
 case 1:
 {
-Obj _3512948_37= co->res;
+Obj _3513732_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3512948_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3513732_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1852,17 +1852,17 @@ return;
 }
 case 1:
 {
-Obj _3512946_37= co->res;
-Obj _3512945_37 = R[1];
+Obj _3513730_37= co->res;
+Obj _3513729_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), _3512945_37, _3512946_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), _3513729_37, _3513730_37);
 return;
 }
 case 2:
 {
-Obj _3512945_37= co->res;
+Obj _3513729_37= co->res;
 Obj exp = R[1];
-R[1] = _3512945_37;
+R[1] = _3513729_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
@@ -1884,57 +1884,57 @@ return;
 }
 case 1:
 {
-Obj _3512934_37= co->res;
-Obj _3512933_37 = R[1];
+Obj _3513718_37= co->res;
+Obj _3513717_37 = R[1];
 Obj fn = R[2];
-Obj _3512935_37 = makeCons(co->gc, _3512934_37, Nil);
-Obj _3512936_37 = makeCons(co->gc, _3512933_37, _3512935_37);
-Obj _3512937_37 = makeCons(co->gc, fn, _3512936_37);
-coraReturn(co, _3512937_37);
+Obj _3513719_37 = makeCons(co->gc, _3513718_37, Nil);
+Obj _3513720_37 = makeCons(co->gc, _3513717_37, _3513719_37);
+Obj _3513721_37 = makeCons(co->gc, fn, _3513720_37);
+coraReturn(co, _3513721_37);
 return;
 }
 case 2:
 {
-Obj _3512940_37= co->res;
-Obj _3512938_37 = R[1];
+Obj _3513724_37= co->res;
+Obj _3513722_37 = R[1];
 Obj fn = R[2];
-Obj _3512941_37 = makeCons(co->gc, _3512940_37, Nil);
-Obj _3512942_37 = makeCons(co->gc, _3512938_37, _3512941_37);
-Obj _3512943_37 = makeCons(co->gc, fn, _3512942_37);
-coraReturn(co, _3512943_37);
+Obj _3513725_37 = makeCons(co->gc, _3513724_37, Nil);
+Obj _3513726_37 = makeCons(co->gc, _3513722_37, _3513725_37);
+Obj _3513727_37 = makeCons(co->gc, fn, _3513726_37);
+coraReturn(co, _3513727_37);
 return;
 }
 case 3:
 {
-Obj _3512932_37= co->res;
+Obj _3513716_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512932_37) {
-Obj _3512933_37 = PRIM_CAR(arglist);
-R[1] = _3512933_37;
+if (True == _3513716_37) {
+Obj _3513717_37 = PRIM_CAR(arglist);
+R[1] = _3513717_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), arglist);
 return;
 } else {
-Obj _3512938_37 = PRIM_CAR(arglist);
-Obj _3512939_37 = PRIM_CDR(arglist);
-R[1] = _3512938_37;
+Obj _3513722_37 = PRIM_CAR(arglist);
+Obj _3513723_37 = PRIM_CDR(arglist);
+R[1] = _3513722_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), fn, _3512939_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), fn, _3513723_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512931_37= co->res;
+Obj _3513715_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512931_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513715_37);
 return;
 }
 }
@@ -1951,9 +1951,9 @@ return;
 }
 case 1:
 {
-Obj _3512929_37= co->res;
+Obj _3513713_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), _3512929_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), _3513713_37);
 return;
 }
 }
@@ -1963,50 +1963,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512425_37 = R[1];
-Obj _3512909_37 = primIsSymbol(_3512425_37);
-if (True == _3512909_37) {
-Obj _3512910_37 = makeCons(co->gc, _3512425_37, Nil);
-Obj _3512911_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512910_37);
-coraReturn(co, _3512911_37);
-return;
-} else {
-Obj _3512427_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512425_37);
-Obj _3512918_37 = PRIM_ISCONS(_3512425_37);
-if (True == _3512918_37) {
-Obj _3512919_37 = PRIM_CAR(_3512425_37);
-Obj _3512920_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3512919_37);
-if (True == _3512920_37) {
-Obj _3512921_37 = PRIM_CDR(_3512425_37);
-Obj _3512922_37 = PRIM_ISCONS(_3512921_37);
-if (True == _3512922_37) {
-Obj _3512923_37 = PRIM_CDR(_3512425_37);
-Obj _3512924_37 = PRIM_CAR(_3512923_37);
-Obj x = _3512924_37;
-Obj _3512925_37 = PRIM_CDR(_3512425_37);
-Obj _3512926_37 = PRIM_CDR(_3512925_37);
-Obj _3512927_37 = PRIM_EQ(Nil, _3512926_37);
-if (True == _3512927_37) {
-coraReturn(co, x);
+Obj _3513121_37 = R[1];
+Obj _3513693_37 = primIsSymbol(_3513121_37);
+if (True == _3513693_37) {
+Obj _3513694_37 = makeCons(co->gc, _3513121_37, Nil);
+Obj _3513695_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513694_37);
+coraReturn(co, _3513695_37);
+return;
+} else {
+Obj _3513212_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3513121_37);
+Obj _3513702_37 = PRIM_ISCONS(_3513121_37);
+if (True == _3513702_37) {
+Obj _3513703_37 = PRIM_CAR(_3513121_37);
+Obj _3513704_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3513703_37);
+if (True == _3513704_37) {
+Obj _3513705_37 = PRIM_CDR(_3513121_37);
+Obj _3513706_37 = PRIM_ISCONS(_3513705_37);
+if (True == _3513706_37) {
+Obj _3513707_37 = PRIM_CDR(_3513121_37);
+Obj _3513708_37 = PRIM_CAR(_3513707_37);
+Obj _3513215_37 = _3513708_37;
+Obj _3513709_37 = PRIM_CDR(_3513121_37);
+Obj _3513710_37 = PRIM_CDR(_3513709_37);
+Obj _3513711_37 = PRIM_EQ(Nil, _3513710_37);
+if (True == _3513711_37) {
+coraReturn(co, _3513215_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3513212_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3513212_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3513212_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512427_37);
+coraCall0(co, _3513212_37);
 return;
 }
 }
@@ -2018,15 +2018,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512912_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512912_37) {
-Obj _3512913_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512913_37;
-Obj _3512914_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512914_37;
-Obj _3512915_37 = makeCons(co->gc, x, more);
+Obj _3513696_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513696_37) {
+Obj _3513697_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513213_37 = _3513697_37;
+Obj _3513698_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513214_37 = _3513698_37;
+Obj _3513699_37 = makeCons(co->gc, _3513213_37, _3513214_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), _3512915_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), _3513699_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2035,9 +2035,9 @@ return;
 }
 case 1:
 {
-Obj _3512916_37= co->res;
-Obj _3512917_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3512916_37);
-coraReturn(co, _3512917_37);
+Obj _3513700_37= co->res;
+Obj _3513701_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513700_37);
+coraReturn(co, _3513701_37);
 return;
 }
 }
@@ -2048,9 +2048,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512907_37 = PRIM_CDR(exp);
+Obj _3513691_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3512907_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3513691_37);
 return;
 }
 }
@@ -2060,25 +2060,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512421_37 = R[1];
-Obj _3512422_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512421_37);
-Obj _3512902_37 = PRIM_ISCONS(_3512421_37);
-if (True == _3512902_37) {
-Obj _3512903_37 = PRIM_CAR(_3512421_37);
-Obj x = _3512903_37;
-Obj _3512904_37 = PRIM_CDR(_3512421_37);
-Obj _3512905_37 = PRIM_EQ(Nil, _3512904_37);
-if (True == _3512905_37) {
-coraReturn(co, x);
+Obj _3513117_37 = R[1];
+Obj _3513205_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3513117_37);
+Obj _3513686_37 = PRIM_ISCONS(_3513117_37);
+if (True == _3513686_37) {
+Obj _3513687_37 = PRIM_CAR(_3513117_37);
+Obj _3513211_37 = _3513687_37;
+Obj _3513688_37 = PRIM_CDR(_3513117_37);
+Obj _3513689_37 = PRIM_EQ(Nil, _3513688_37);
+if (True == _3513689_37) {
+coraReturn(co, _3513211_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512422_37);
+coraCall0(co, _3513205_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512422_37);
+coraCall0(co, _3513205_37);
 return;
 }
 }
@@ -2089,39 +2089,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512423_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512890_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512890_37) {
-Obj _3512891_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512891_37;
-Obj _3512892_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512893_37 = PRIM_ISCONS(_3512892_37);
-if (True == _3512893_37) {
-Obj _3512894_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512895_37 = PRIM_CAR(_3512894_37);
-Obj y = _3512895_37;
-Obj _3512896_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512897_37 = PRIM_CDR(_3512896_37);
-Obj _3512898_37 = PRIM_EQ(Nil, _3512897_37);
-if (True == _3512898_37) {
-Obj _3512899_37 = makeCons(co->gc, y, Nil);
-Obj _3512900_37 = makeCons(co->gc, x, _3512899_37);
-Obj _3512901_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3512900_37);
-coraReturn(co, _3512901_37);
+Obj _3513206_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3513674_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513674_37) {
+Obj _3513675_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513209_37 = _3513675_37;
+Obj _3513676_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513677_37 = PRIM_ISCONS(_3513676_37);
+if (True == _3513677_37) {
+Obj _3513678_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513679_37 = PRIM_CAR(_3513678_37);
+Obj _3513210_37 = _3513679_37;
+Obj _3513680_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513681_37 = PRIM_CDR(_3513680_37);
+Obj _3513682_37 = PRIM_EQ(Nil, _3513681_37);
+if (True == _3513682_37) {
+Obj _3513683_37 = makeCons(co->gc, _3513210_37, Nil);
+Obj _3513684_37 = makeCons(co->gc, _3513209_37, _3513683_37);
+Obj _3513685_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3513684_37);
+coraReturn(co, _3513685_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512423_37);
+coraCall0(co, _3513206_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512423_37);
+coraCall0(co, _3513206_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512423_37);
+coraCall0(co, _3513206_37);
 return;
 }
 }
@@ -2132,15 +2132,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512883_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512883_37) {
-Obj _3512884_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512884_37;
-Obj _3512885_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512885_37;
-R[1] = x;
+Obj _3513667_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513667_37) {
+Obj _3513668_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513207_37 = _3513668_37;
+Obj _3513669_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513208_37 = _3513669_37;
+R[1] = _3513207_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), y);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3513208_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2150,12 +2150,12 @@ return;
 }
 case 1:
 {
-Obj _3512886_37= co->res;
-Obj x = R[1];
-Obj _3512887_37 = makeCons(co->gc, _3512886_37, Nil);
-Obj _3512888_37 = makeCons(co->gc, x, _3512887_37);
-Obj _3512889_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3512888_37);
-coraReturn(co, _3512889_37);
+Obj _3513670_37= co->res;
+Obj _3513207_37 = R[1];
+Obj _3513671_37 = makeCons(co->gc, _3513670_37, Nil);
+Obj _3513672_37 = makeCons(co->gc, _3513207_37, _3513671_37);
+Obj _3513673_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3513672_37);
+coraReturn(co, _3513673_37);
 return;
 }
 }
@@ -2172,16 +2172,16 @@ return;
 }
 case 1:
 {
-Obj _3512881_37= co->res;
+Obj _3513665_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512881_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3513665_37);
 return;
 }
 case 2:
 {
-Obj _3512880_37= co->res;
+Obj _3513664_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512880_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3513664_37);
 return;
 }
 }
@@ -2222,61 +2222,61 @@ return;
 }
 case 1:
 {
-Obj _3512869_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3512870_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, args);
-Obj _3512871_37 = makeCons(co->gc, _3512870_37, body);
-Obj _3512872_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3512871_37);
-Obj _3512873_37 = makeCons(co->gc, _3512872_37, Nil);
-Obj _3512874_37 = makeCons(co->gc, args, _3512873_37);
-Obj _3512875_37 = makeCons(co->gc, _3512869_37, _3512874_37);
-Obj _3512876_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512875_37);
-coraReturn(co, _3512876_37);
+Obj _3513653_37= co->res;
+Obj _3513202_37 = R[1];
+Obj _3513204_37 = R[2];
+Obj _3513654_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513204_37);
+Obj _3513655_37 = makeCons(co->gc, _3513654_37, _3513202_37);
+Obj _3513656_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3513655_37);
+Obj _3513657_37 = makeCons(co->gc, _3513656_37, Nil);
+Obj _3513658_37 = makeCons(co->gc, _3513204_37, _3513657_37);
+Obj _3513659_37 = makeCons(co->gc, _3513653_37, _3513658_37);
+Obj _3513660_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513659_37);
+coraReturn(co, _3513660_37);
 return;
 }
 case 2:
 {
-Obj _3512868_37= co->res;
+Obj _3513652_37= co->res;
 Obj exp = R[1];
-Obj body = R[2];
-Obj args = _3512868_37;
-R[1] = body;
-R[2] = args;
+Obj _3513202_37 = R[2];
+Obj _3513204_37 = _3513652_37;
+R[1] = _3513202_37;
+R[2] = _3513204_37;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 }
 case 3:
 {
-Obj _3512867_37= co->res;
+Obj _3513651_37= co->res;
 Obj exp = R[1];
-Obj body = R[2];
-Obj nargs = _3512867_37;
+Obj _3513202_37 = R[2];
+Obj _3513203_37 = _3513651_37;
 R[1] = exp;
-R[2] = body;
+R[2] = _3513202_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), nargs);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), _3513203_37);
 return;
 }
 case 4:
 {
-Obj _3512866_37= co->res;
+Obj _3513650_37= co->res;
 Obj exp = R[1];
-Obj body = _3512866_37;
+Obj _3513202_37 = _3513650_37;
 R[1] = exp;
-R[2] = body;
+R[2] = _3513202_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3513202_37);
 return;
 }
 case 5:
 {
-Obj _3512865_37= co->res;
+Obj _3513649_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), _3512865_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), _3513649_37);
 return;
 }
 }
@@ -2287,25 +2287,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512859_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512859_37) {
+Obj _3513643_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3513643_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512860_37 = primGenSym(co);
-Obj _3512861_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512860_37;
+Obj _3513644_37 = primGenSym(co);
+Obj _3513645_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3513644_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), _3512861_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), _3513645_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512862_37= co->res;
-Obj _3512860_37 = R[1];
-Obj _3512863_37 = makeCons(co->gc, _3512860_37, _3512862_37);
-coraReturn(co, _3512863_37);
+Obj _3513646_37= co->res;
+Obj _3513644_37 = R[1];
+Obj _3513647_37 = makeCons(co->gc, _3513644_37, _3513646_37);
+coraReturn(co, _3513647_37);
 return;
 }
 }
@@ -2322,45 +2322,45 @@ return;
 }
 case 1:
 {
-Obj _3512856_37= co->res;
-Obj n = R[1];
-Obj _3512857_37 = primNot(_3512856_37);
-if (True == _3512857_37) {
+Obj _3513640_37= co->res;
+Obj _3513201_37 = R[1];
+Obj _3513641_37 = primNot(_3513640_37);
+if (True == _3513641_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, n);
+coraReturn(co, _3513201_37);
 return;
 }
 }
 case 2:
 {
-Obj _3512855_37= co->res;
-Obj n = R[1];
-R[1] = n;
+Obj _3513639_37= co->res;
+Obj _3513201_37 = R[1];
+R[1] = _3513201_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512855_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513639_37);
 return;
 }
 case 3:
 {
-Obj _3512850_37= co->res;
-Obj counts = _3512850_37;
-Obj _3512851_37 = PRIM_CAR(counts);
-Obj n = _3512851_37;
-Obj _3512854_37 = PRIM_CDR(counts);
-R[1] = n;
+Obj _3513634_37= co->res;
+Obj _3513200_37 = _3513634_37;
+Obj _3513635_37 = PRIM_CAR(_3513200_37);
+Obj _3513201_37 = _3513635_37;
+Obj _3513638_37 = PRIM_CDR(_3513200_37);
+R[1] = _3513201_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512854_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, _3513201_37), _3513638_37);
 return;
 }
 case 4:
 {
-Obj _3512848_37= co->res;
-Obj pats = _3512848_37;
+Obj _3513632_37= co->res;
+Obj _3513199_37 = _3513632_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), _3513199_37);
 return;
 }
 }
@@ -2371,9 +2371,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512852_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512853_37 = primNot(_3512852_37);
-coraReturn(co, _3512853_37);
+Obj _3513636_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3513637_37 = primNot(_3513636_37);
+coraReturn(co, _3513637_37);
 return;
 }
 }
@@ -2384,9 +2384,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512849_37 = PRIM_CDR(x);
+Obj _3513633_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3512849_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3513633_37);
 return;
 }
 }
@@ -2398,25 +2398,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512842_37 = PRIM_EQ(l1, Nil);
-if (True == _3512842_37) {
+Obj _3513626_37 = PRIM_EQ(l1, Nil);
+if (True == _3513626_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512843_37 = PRIM_CAR(l1);
-Obj _3512844_37 = PRIM_CDR(l1);
-R[1] = _3512843_37;
+Obj _3513627_37 = PRIM_CAR(l1);
+Obj _3513628_37 = PRIM_CDR(l1);
+R[1] = _3513627_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3512844_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3513628_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512845_37= co->res;
-Obj _3512843_37 = R[1];
-Obj _3512846_37 = makeCons(co->gc, _3512843_37, _3512845_37);
-coraReturn(co, _3512846_37);
+Obj _3513629_37= co->res;
+Obj _3513627_37 = R[1];
+Obj _3513630_37 = makeCons(co->gc, _3513627_37, _3513629_37);
+coraReturn(co, _3513630_37);
 return;
 }
 }
@@ -2442,14 +2442,14 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512833_37 = PRIM_ISCONS(l);
-if (True == _3512833_37) {
-Obj _3512834_37 = PRIM_CAR(l);
+Obj _3513617_37 = PRIM_ISCONS(l);
+if (True == _3513617_37) {
+Obj _3513618_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512834_37);
+coraCall1(co, fn, _3513618_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2459,21 +2459,21 @@ return;
 }
 case 1:
 {
-Obj _3512835_37= co->res;
+Obj _3513619_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512835_37) {
-Obj _3512836_37 = PRIM_CAR(l);
-Obj _3512837_37 = makeCons(co->gc, _3512836_37, res);
-Obj _3512838_37 = PRIM_CDR(l);
+if (True == _3513619_37) {
+Obj _3513620_37 = PRIM_CAR(l);
+Obj _3513621_37 = makeCons(co->gc, _3513620_37, res);
+Obj _3513622_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), _3512837_37, fn, _3512838_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), _3513621_37, fn, _3513622_37);
 return;
 } else {
-Obj _3512839_37 = PRIM_CDR(l);
+Obj _3513623_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), res, fn, _3512839_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), res, fn, _3513623_37);
 return;
 }
 }
@@ -2498,15 +2498,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512828_37 = PRIM_EQ(l, Nil);
-if (True == _3512828_37) {
+Obj _3513612_37 = PRIM_EQ(l, Nil);
+if (True == _3513612_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512829_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512830_37 = PRIM_CDR(l);
+Obj _3513613_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3513614_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), _3512829_37, _3512830_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), _3513613_37, _3513614_37);
 return;
 }
 }
@@ -2527,25 +2527,25 @@ return;
 }
 case 1:
 {
-Obj _3512826_37= co->res;
-Obj _3512825_37 = R[1];
+Obj _3513610_37= co->res;
+Obj _3513609_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), _3512825_37, _3512826_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), _3513609_37, _3513610_37);
 return;
 }
 case 2:
 {
-Obj _3512823_37= co->res;
+Obj _3513607_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512823_37) {
+if (True == _3513607_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
 return;
 } else {
-Obj _3512824_37 = PRIM_CAR(rules);
-Obj _3512825_37 = makeCons(co->gc, _3512824_37, res);
-R[1] = _3512825_37;
+Obj _3513608_37 = PRIM_CAR(rules);
+Obj _3513609_37 = makeCons(co->gc, _3513608_37, res);
+R[1] = _3513609_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), rules);
 return;
@@ -2573,103 +2573,103 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512770_37 = PRIM_EQ(Nil, input);
-if (True == _3512770_37) {
+Obj _3513554_37 = PRIM_EQ(Nil, input);
+if (True == _3513554_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), result);
 return;
 } else {
-Obj _3512418_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512788_37 = PRIM_ISCONS(input);
-if (True == _3512788_37) {
-Obj _3512789_37 = PRIM_CAR(input);
-Obj _3512790_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3512789_37);
-if (True == _3512790_37) {
-Obj _3512791_37 = PRIM_CDR(input);
-Obj _3512792_37 = PRIM_ISCONS(_3512791_37);
-if (True == _3512792_37) {
-Obj _3512793_37 = PRIM_CDR(input);
-Obj _3512794_37 = PRIM_CAR(_3512793_37);
-Obj act = _3512794_37;
-Obj _3512795_37 = PRIM_CDR(input);
-Obj _3512796_37 = PRIM_CDR(_3512795_37);
-Obj _3512797_37 = PRIM_ISCONS(_3512796_37);
-if (True == _3512797_37) {
-Obj _3512798_37 = PRIM_CDR(input);
-Obj _3512799_37 = PRIM_CDR(_3512798_37);
-Obj _3512800_37 = PRIM_CAR(_3512799_37);
-Obj _3512801_37 = PRIM_EQ(getBinding(co, packageID, 112).name, _3512800_37);
-if (True == _3512801_37) {
-Obj _3512802_37 = PRIM_CDR(input);
-Obj _3512803_37 = PRIM_CDR(_3512802_37);
-Obj _3512804_37 = PRIM_CDR(_3512803_37);
-Obj _3512805_37 = PRIM_ISCONS(_3512804_37);
-if (True == _3512805_37) {
-Obj _3512806_37 = PRIM_CDR(input);
-Obj _3512807_37 = PRIM_CDR(_3512806_37);
-Obj _3512808_37 = PRIM_CDR(_3512807_37);
-Obj _3512809_37 = PRIM_CAR(_3512808_37);
-Obj pred = _3512809_37;
-Obj _3512810_37 = PRIM_CDR(input);
-Obj _3512811_37 = PRIM_CDR(_3512810_37);
-Obj _3512812_37 = PRIM_CDR(_3512811_37);
-Obj _3512813_37 = PRIM_CDR(_3512812_37);
-Obj remain = _3512813_37;
-R[1] = act;
-R[2] = pred;
+Obj _3513188_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3513572_37 = PRIM_ISCONS(input);
+if (True == _3513572_37) {
+Obj _3513573_37 = PRIM_CAR(input);
+Obj _3513574_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3513573_37);
+if (True == _3513574_37) {
+Obj _3513575_37 = PRIM_CDR(input);
+Obj _3513576_37 = PRIM_ISCONS(_3513575_37);
+if (True == _3513576_37) {
+Obj _3513577_37 = PRIM_CDR(input);
+Obj _3513578_37 = PRIM_CAR(_3513577_37);
+Obj _3513195_37 = _3513578_37;
+Obj _3513579_37 = PRIM_CDR(input);
+Obj _3513580_37 = PRIM_CDR(_3513579_37);
+Obj _3513581_37 = PRIM_ISCONS(_3513580_37);
+if (True == _3513581_37) {
+Obj _3513582_37 = PRIM_CDR(input);
+Obj _3513583_37 = PRIM_CDR(_3513582_37);
+Obj _3513584_37 = PRIM_CAR(_3513583_37);
+Obj _3513585_37 = PRIM_EQ(getBinding(co, packageID, 112).name, _3513584_37);
+if (True == _3513585_37) {
+Obj _3513586_37 = PRIM_CDR(input);
+Obj _3513587_37 = PRIM_CDR(_3513586_37);
+Obj _3513588_37 = PRIM_CDR(_3513587_37);
+Obj _3513589_37 = PRIM_ISCONS(_3513588_37);
+if (True == _3513589_37) {
+Obj _3513590_37 = PRIM_CDR(input);
+Obj _3513591_37 = PRIM_CDR(_3513590_37);
+Obj _3513592_37 = PRIM_CDR(_3513591_37);
+Obj _3513593_37 = PRIM_CAR(_3513592_37);
+Obj _3513196_37 = _3513593_37;
+Obj _3513594_37 = PRIM_CDR(input);
+Obj _3513595_37 = PRIM_CDR(_3513594_37);
+Obj _3513596_37 = PRIM_CDR(_3513595_37);
+Obj _3513597_37 = PRIM_CDR(_3513596_37);
+Obj _3513197_37 = _3513597_37;
+R[1] = _3513195_37;
+R[2] = _3513196_37;
 R[3] = result;
-R[4] = remain;
+R[4] = _3513197_37;
 saveCont(co, clofun48, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512418_37);
+coraCall0(co, _3513188_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512418_37);
+coraCall0(co, _3513188_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512418_37);
+coraCall0(co, _3513188_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512418_37);
+coraCall0(co, _3513188_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512418_37);
+coraCall0(co, _3513188_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512418_37);
+coraCall0(co, _3513188_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512814_37= co->res;
-Obj act = R[1];
-Obj pred = R[2];
+Obj _3513598_37= co->res;
+Obj _3513195_37 = R[1];
+Obj _3513196_37 = R[2];
 Obj result = R[3];
-Obj remain = R[4];
-Obj _3512815_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3512814_37);
-Obj pat = _3512815_37;
-Obj _3512816_37 = makeCons(co->gc, act, Nil);
-Obj _3512817_37 = makeCons(co->gc, pred, _3512816_37);
-Obj _3512818_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3512817_37);
-Obj _3512819_37 = makeCons(co->gc, pat, result);
-Obj _3512820_37 = makeCons(co->gc, _3512818_37, _3512819_37);
+Obj _3513197_37 = R[4];
+Obj _3513599_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513598_37);
+Obj _3513198_37 = _3513599_37;
+Obj _3513600_37 = makeCons(co->gc, _3513195_37, Nil);
+Obj _3513601_37 = makeCons(co->gc, _3513196_37, _3513600_37);
+Obj _3513602_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3513601_37);
+Obj _3513603_37 = makeCons(co->gc, _3513198_37, result);
+Obj _3513604_37 = makeCons(co->gc, _3513602_37, _3513603_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), remain, Nil, _3512820_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), _3513197_37, Nil, _3513604_37);
 return;
 }
 }
@@ -2679,53 +2679,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512419_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512775_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512775_37) {
-Obj _3512776_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512777_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3512776_37);
-if (True == _3512777_37) {
-Obj _3512778_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512779_37 = PRIM_ISCONS(_3512778_37);
-if (True == _3512779_37) {
-Obj _3512780_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512781_37 = PRIM_CAR(_3512780_37);
-Obj act = _3512781_37;
-Obj _3512782_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512783_37 = PRIM_CDR(_3512782_37);
-Obj remain = _3512783_37;
-R[1] = act;
-R[2] = remain;
+Obj _3513189_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513559_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513559_37) {
+Obj _3513560_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513561_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3513560_37);
+if (True == _3513561_37) {
+Obj _3513562_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513563_37 = PRIM_ISCONS(_3513562_37);
+if (True == _3513563_37) {
+Obj _3513564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513565_37 = PRIM_CAR(_3513564_37);
+Obj _3513192_37 = _3513565_37;
+Obj _3513566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513567_37 = PRIM_CDR(_3513566_37);
+Obj _3513193_37 = _3513567_37;
+R[1] = _3513192_37;
+R[2] = _3513193_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512419_37);
+coraCall0(co, _3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512419_37);
+coraCall0(co, _3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512419_37);
+coraCall0(co, _3513189_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512784_37= co->res;
-Obj act = R[1];
-Obj remain = R[2];
-Obj _3512785_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3512784_37);
-Obj pat = _3512785_37;
-Obj _3512786_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512787_37 = makeCons(co->gc, act, _3512786_37);
+Obj _3513568_37= co->res;
+Obj _3513192_37 = R[1];
+Obj _3513193_37 = R[2];
+Obj _3513569_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513568_37);
+Obj _3513194_37 = _3513569_37;
+Obj _3513570_37 = makeCons(co->gc, _3513194_37, closureRef(R[0], 2));
+Obj _3513571_37 = makeCons(co->gc, _3513192_37, _3513570_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), remain, Nil, _3512787_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), _3513193_37, Nil, _3513571_37);
 return;
 }
 }
@@ -2735,15 +2735,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512771_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512771_37) {
-Obj _3512772_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512772_37;
-Obj _3512773_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512773_37;
-Obj _3512774_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3513555_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513555_37) {
+Obj _3513556_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513190_37 = _3513556_37;
+Obj _3513557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513191_37 = _3513557_37;
+Obj _3513558_37 = makeCons(co->gc, _3513190_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), y, _3512774_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), _3513191_37, _3513558_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2778,47 +2778,47 @@ return;
 }
 case 1:
 {
-Obj _3512757_37= co->res;
-Obj value = R[1];
-Obj rules = _3512757_37;
-Obj _3512469_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512764_37 = PRIM_ISCONS(value);
-if (True == _3512764_37) {
-Obj _3512765_37 = PRIM_CAR(value);
-Obj _3512766_37 = PRIM_EQ(getBinding(co, packageID, 153).name, _3512765_37);
-Obj _3512767_37 = primNot(_3512766_37);
-if (True == _3512767_37) {
+Obj _3513541_37= co->res;
+Obj _3513182_37 = R[1];
+Obj _3513183_37 = _3513541_37;
+Obj _3513186_37 = makeNative(co->gc, 2, clofun43, 1, 2, _3513182_37, _3513183_37);
+Obj _3513548_37 = PRIM_ISCONS(_3513182_37);
+if (True == _3513548_37) {
+Obj _3513549_37 = PRIM_CAR(_3513182_37);
+Obj _3513550_37 = PRIM_EQ(getBinding(co, packageID, 153).name, _3513549_37);
+Obj _3513551_37 = primNot(_3513550_37);
+if (True == _3513551_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512469_37, True);
+coraCall1(co, _3513186_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512469_37, False);
+coraCall1(co, _3513186_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512469_37, False);
+coraCall1(co, _3513186_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512756_37= co->res;
+Obj _3513540_37= co->res;
 Obj exp = R[1];
-Obj value = _3512756_37;
-R[1] = value;
+Obj _3513182_37 = _3513540_37;
+R[1] = _3513182_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 3:
 {
-Obj _3512755_37= co->res;
+Obj _3513539_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), _3512755_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), _3513539_37);
 return;
 }
 }
@@ -2828,13 +2828,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512470_37 = R[1];
-if (True == _3512470_37) {
-Obj _3512758_37 = primGenSym(co);
-Obj val = _3512758_37;
-R[1] = val;
+Obj _3513185_37 = R[1];
+if (True == _3513185_37) {
+Obj _3513542_37 = primGenSym(co);
+Obj _3513187_37 = _3513542_37;
+R[1] = _3513187_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), val, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), _3513187_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2844,13 +2844,13 @@ return;
 }
 case 1:
 {
-Obj _3512759_37= co->res;
-Obj val = R[1];
-Obj _3512760_37 = makeCons(co->gc, _3512759_37, Nil);
-Obj _3512761_37 = makeCons(co->gc, closureRef(R[0], 0), _3512760_37);
-Obj _3512762_37 = makeCons(co->gc, val, _3512761_37);
-Obj _3512763_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512762_37);
-coraReturn(co, _3512763_37);
+Obj _3513543_37= co->res;
+Obj _3513187_37 = R[1];
+Obj _3513544_37 = makeCons(co->gc, _3513543_37, Nil);
+Obj _3513545_37 = makeCons(co->gc, closureRef(R[0], 0), _3513544_37);
+Obj _3513546_37 = makeCons(co->gc, _3513187_37, _3513545_37);
+Obj _3513547_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513546_37);
+coraReturn(co, _3513547_37);
 return;
 }
 }
@@ -2870,49 +2870,49 @@ return;
 }
 case 1:
 {
-Obj _3512753_37= co->res;
-Obj _3512467_37 = R[1];
-if (True == _3512753_37) {
+Obj _3513537_37= co->res;
+Obj _3513176_37 = R[1];
+if (True == _3513537_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512467_37, True);
+coraCall1(co, _3513176_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512467_37, False);
+coraCall1(co, _3513176_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512751_37= co->res;
+Obj _3513535_37= co->res;
 Obj rules = R[1];
-Obj _3512467_37 = R[2];
-if (True == _3512751_37) {
-Obj _3512752_37 = PRIM_CDR(rules);
-R[1] = _3512467_37;
+Obj _3513176_37 = R[2];
+if (True == _3513535_37) {
+Obj _3513536_37 = PRIM_CDR(rules);
+R[1] = _3513176_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), _3512752_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), _3513536_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512467_37, False);
+coraCall1(co, _3513176_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512733_37= co->res;
+Obj _3513517_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512733_37) {
-Obj _3512734_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512735_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512734_37);
-coraReturn(co, _3512735_37);
+if (True == _3513517_37) {
+Obj _3513518_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3513519_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513518_37);
+coraReturn(co, _3513519_37);
 return;
 } else {
-Obj _3512467_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3513176_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512467_37;
+R[2] = _3513176_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), rules);
 return;
@@ -2925,16 +2925,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512468_37 = R[1];
-if (True == _3512468_37) {
-Obj _3512736_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512736_37;
-Obj _3512737_37 = primGenSym(co);
-Obj cc = _3512737_37;
-R[1] = pat;
-R[2] = cc;
+Obj _3513175_37 = R[1];
+if (True == _3513175_37) {
+Obj _3513520_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513177_37 = _3513520_37;
+Obj _3513521_37 = primGenSym(co);
+Obj _3513178_37 = _3513521_37;
+R[1] = _3513177_37;
+R[2] = _3513178_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), cc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), _3513178_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2944,53 +2944,53 @@ return;
 }
 case 1:
 {
-Obj _3512743_37= co->res;
-Obj curr = R[1];
-Obj cc = R[2];
-Obj rest = _3512743_37;
-Obj _3512744_37 = makeCons(co->gc, rest, Nil);
-Obj _3512745_37 = makeCons(co->gc, Nil, _3512744_37);
-Obj _3512746_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512745_37);
-Obj _3512747_37 = makeCons(co->gc, curr, Nil);
-Obj _3512748_37 = makeCons(co->gc, _3512746_37, _3512747_37);
-Obj _3512749_37 = makeCons(co->gc, cc, _3512748_37);
-Obj _3512750_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512749_37);
-coraReturn(co, _3512750_37);
+Obj _3513527_37= co->res;
+Obj _3513180_37 = R[1];
+Obj _3513178_37 = R[2];
+Obj _3513181_37 = _3513527_37;
+Obj _3513528_37 = makeCons(co->gc, _3513181_37, Nil);
+Obj _3513529_37 = makeCons(co->gc, Nil, _3513528_37);
+Obj _3513530_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513529_37);
+Obj _3513531_37 = makeCons(co->gc, _3513180_37, Nil);
+Obj _3513532_37 = makeCons(co->gc, _3513530_37, _3513531_37);
+Obj _3513533_37 = makeCons(co->gc, _3513178_37, _3513532_37);
+Obj _3513534_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513533_37);
+coraReturn(co, _3513534_37);
 return;
 }
 case 2:
 {
-Obj _3512740_37= co->res;
-Obj cc = R[1];
-Obj curr = _3512740_37;
-Obj _3512741_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512742_37 = PRIM_CDR(_3512741_37);
-R[1] = curr;
-R[2] = cc;
+Obj _3513524_37= co->res;
+Obj _3513178_37 = R[1];
+Obj _3513180_37 = _3513524_37;
+Obj _3513525_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3513526_37 = PRIM_CDR(_3513525_37);
+R[1] = _3513180_37;
+R[2] = _3513178_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), _3512742_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), _3513526_37);
 return;
 }
 case 3:
 {
-Obj _3512739_37= co->res;
-Obj action = R[1];
-Obj cc = R[2];
-R[1] = cc;
+Obj _3513523_37= co->res;
+Obj _3513179_37 = R[1];
+Obj _3513178_37 = R[2];
+R[1] = _3513178_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), _3512739_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), _3513523_37, closureRef(R[0], 0), _3513179_37, _3513178_37);
 return;
 }
 case 4:
 {
-Obj _3512738_37= co->res;
-Obj pat = R[1];
-Obj cc = R[2];
-Obj action = _3512738_37;
-R[1] = action;
-R[2] = cc;
+Obj _3513522_37= co->res;
+Obj _3513177_37 = R[1];
+Obj _3513178_37 = R[2];
+Obj _3513179_37 = _3513522_37;
+R[1] = _3513179_37;
+R[2] = _3513178_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), _3513177_37);
 return;
 }
 }
@@ -3002,36 +3002,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512720_37 = PRIM_CDR(rules);
-Obj _3512721_37 = PRIM_CAR(_3512720_37);
-Obj action = _3512721_37;
-Obj _3512465_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
-R[1] = action;
-R[2] = _3512465_37;
+Obj _3513504_37 = PRIM_CDR(rules);
+Obj _3513505_37 = PRIM_CAR(_3513504_37);
+Obj _3513170_37 = _3513505_37;
+Obj _3513173_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, _3513170_37);
+R[1] = _3513170_37;
+R[2] = _3513173_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), action);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), _3513170_37);
 return;
 }
 case 1:
 {
-Obj _3512729_37= co->res;
-Obj action = R[1];
-Obj _3512465_37 = R[2];
-if (True == _3512729_37) {
-Obj _3512730_37 = PRIM_CAR(action);
-Obj _3512731_37 = PRIM_EQ(_3512730_37, getBinding(co, packageID, 112).name);
-if (True == _3512731_37) {
+Obj _3513513_37= co->res;
+Obj _3513170_37 = R[1];
+Obj _3513173_37 = R[2];
+if (True == _3513513_37) {
+Obj _3513514_37 = PRIM_CAR(_3513170_37);
+Obj _3513515_37 = PRIM_EQ(_3513514_37, getBinding(co, packageID, 112).name);
+if (True == _3513515_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512465_37, True);
+coraCall1(co, _3513173_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512465_37, False);
+coraCall1(co, _3513173_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512465_37, False);
+coraCall1(co, _3513173_37, False);
 return;
 }
 }
@@ -3042,8 +3042,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512466_37 = R[1];
-if (True == _3512466_37) {
+Obj _3513172_37 = R[1];
+if (True == _3513172_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
@@ -3054,20 +3054,20 @@ return;
 }
 case 1:
 {
-Obj _3512723_37= co->res;
-Obj _3512722_37 = R[1];
-Obj _3512724_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512725_37 = makeCons(co->gc, _3512724_37, Nil);
-Obj _3512726_37 = makeCons(co->gc, _3512723_37, _3512725_37);
-Obj _3512727_37 = makeCons(co->gc, _3512722_37, _3512726_37);
-Obj _3512728_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512727_37);
-coraReturn(co, _3512728_37);
+Obj _3513507_37= co->res;
+Obj _3513506_37 = R[1];
+Obj _3513508_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3513509_37 = makeCons(co->gc, _3513508_37, Nil);
+Obj _3513510_37 = makeCons(co->gc, _3513507_37, _3513509_37);
+Obj _3513511_37 = makeCons(co->gc, _3513506_37, _3513510_37);
+Obj _3513512_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513511_37);
+coraReturn(co, _3513512_37);
 return;
 }
 case 2:
 {
-Obj _3512722_37= co->res;
-R[1] = _3512722_37;
+Obj _3513506_37= co->res;
+R[1] = _3513506_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
@@ -3093,29 +3093,29 @@ return;
 }
 case 1:
 {
-Obj _3512704_37= co->res;
+Obj _3513488_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512704_37) {
-Obj _3512705_37 = PRIM_CAR(pat);
-Obj _3512706_37 = PRIM_EQ(_3512705_37, getBinding(co, packageID, 140).name);
-if (True == _3512706_37) {
-Obj _3512707_37 = makeCons(co->gc, expr, Nil);
-Obj _3512708_37 = makeCons(co->gc, pat, _3512707_37);
-Obj _3512709_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512708_37);
-Obj _3512710_37 = makeCons(co->gc, cc, Nil);
-Obj _3512711_37 = makeCons(co->gc, _3512710_37, Nil);
-Obj _3512712_37 = makeCons(co->gc, body, _3512711_37);
-Obj _3512713_37 = makeCons(co->gc, _3512709_37, _3512712_37);
-Obj _3512714_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512713_37);
-coraReturn(co, _3512714_37);
-return;
-} else {
-Obj _3512715_37 = PRIM_CAR(pat);
-Obj _3512716_37 = PRIM_EQ(_3512715_37, getBinding(co, packageID, 153).name);
-if (True == _3512716_37) {
+if (True == _3513488_37) {
+Obj _3513489_37 = PRIM_CAR(pat);
+Obj _3513490_37 = PRIM_EQ(_3513489_37, getBinding(co, packageID, 140).name);
+if (True == _3513490_37) {
+Obj _3513491_37 = makeCons(co->gc, expr, Nil);
+Obj _3513492_37 = makeCons(co->gc, pat, _3513491_37);
+Obj _3513493_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513492_37);
+Obj _3513494_37 = makeCons(co->gc, cc, Nil);
+Obj _3513495_37 = makeCons(co->gc, _3513494_37, Nil);
+Obj _3513496_37 = makeCons(co->gc, body, _3513495_37);
+Obj _3513497_37 = makeCons(co->gc, _3513493_37, _3513496_37);
+Obj _3513498_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513497_37);
+coraReturn(co, _3513498_37);
+return;
+} else {
+Obj _3513499_37 = PRIM_CAR(pat);
+Obj _3513500_37 = PRIM_EQ(_3513499_37, getBinding(co, packageID, 153).name);
+if (True == _3513500_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), pat, expr, body, cc);
 return;
@@ -3126,45 +3126,45 @@ return;
 }
 }
 } else {
-Obj _3512717_37 = makeCons(co->gc, pat, Nil);
-Obj _3512718_37 = makeCons(co->gc, makeCString(co->gc, "match fail"), _3512717_37);
+Obj _3513501_37 = makeCons(co->gc, pat, Nil);
+Obj _3513502_37 = makeCons(co->gc, makeCString(co->gc, "match fail"), _3513501_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), _3512718_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), _3513502_37);
 return;
 }
 }
 case 2:
 {
-Obj _3512689_37= co->res;
+Obj _3513473_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512689_37) {
-Obj _3512690_37 = PRIM_EQ(pat, expr);
-if (True == _3512690_37) {
+if (True == _3513473_37) {
+Obj _3513474_37 = PRIM_EQ(pat, expr);
+if (True == _3513474_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512691_37 = makeCons(co->gc, expr, Nil);
-Obj _3512692_37 = makeCons(co->gc, pat, _3512691_37);
-Obj _3512693_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512692_37);
-Obj _3512694_37 = makeCons(co->gc, cc, Nil);
-Obj _3512695_37 = makeCons(co->gc, _3512694_37, Nil);
-Obj _3512696_37 = makeCons(co->gc, body, _3512695_37);
-Obj _3512697_37 = makeCons(co->gc, _3512693_37, _3512696_37);
-Obj _3512698_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512697_37);
-coraReturn(co, _3512698_37);
+Obj _3513475_37 = makeCons(co->gc, expr, Nil);
+Obj _3513476_37 = makeCons(co->gc, pat, _3513475_37);
+Obj _3513477_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513476_37);
+Obj _3513478_37 = makeCons(co->gc, cc, Nil);
+Obj _3513479_37 = makeCons(co->gc, _3513478_37, Nil);
+Obj _3513480_37 = makeCons(co->gc, body, _3513479_37);
+Obj _3513481_37 = makeCons(co->gc, _3513477_37, _3513480_37);
+Obj _3513482_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513481_37);
+coraReturn(co, _3513482_37);
 return;
 }
 } else {
-Obj _3512699_37 = primIsSymbol(pat);
-if (True == _3512699_37) {
-Obj _3512700_37 = makeCons(co->gc, body, Nil);
-Obj _3512701_37 = makeCons(co->gc, expr, _3512700_37);
-Obj _3512702_37 = makeCons(co->gc, pat, _3512701_37);
-Obj _3512703_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512702_37);
-coraReturn(co, _3512703_37);
+Obj _3513483_37 = primIsSymbol(pat);
+if (True == _3513483_37) {
+Obj _3513484_37 = makeCons(co->gc, body, Nil);
+Obj _3513485_37 = makeCons(co->gc, expr, _3513484_37);
+Obj _3513486_37 = makeCons(co->gc, pat, _3513485_37);
+Obj _3513487_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513486_37);
+coraReturn(co, _3513487_37);
 return;
 } else {
 R[1] = expr;
@@ -3192,12 +3192,12 @@ return;
 }
 case 1:
 {
-Obj _3512686_37= co->res;
+Obj _3513470_37= co->res;
 Obj x = R[1];
-if (True == _3512686_37) {
-Obj _3512687_37 = primIsSymbol(x);
-Obj _3512688_37 = primNot(_3512687_37);
-if (True == _3512688_37) {
+if (True == _3513470_37) {
+Obj _3513471_37 = primIsSymbol(x);
+Obj _3513472_37 = primNot(_3513471_37);
+if (True == _3513472_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3230,41 +3230,41 @@ return;
 }
 case 1:
 {
-Obj _3512665_37= co->res;
-Obj x = R[1];
+Obj _3513449_37= co->res;
+Obj _3513163_37 = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512665_37;
-Obj _3512463_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512682_37 = PRIM_ISCONS(expr);
-if (True == _3512682_37) {
-Obj _3512683_37 = PRIM_CAR(expr);
-Obj _3512684_37 = PRIM_EQ(_3512683_37, getBinding(co, packageID, 153).name);
-if (True == _3512684_37) {
+Obj _3513164_37 = _3513449_37;
+Obj _3513167_37 = makeNative(co->gc, 3, clofun35, 1, 5, _3513163_37, _3513164_37, expr, body, cc);
+Obj _3513466_37 = PRIM_ISCONS(expr);
+if (True == _3513466_37) {
+Obj _3513467_37 = PRIM_CAR(expr);
+Obj _3513468_37 = PRIM_EQ(_3513467_37, getBinding(co, packageID, 153).name);
+if (True == _3513468_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3513167_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, False);
+coraCall1(co, _3513167_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, False);
+coraCall1(co, _3513167_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512664_37= co->res;
+Obj _3513448_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512664_37;
-R[1] = x;
+Obj _3513163_37 = _3513448_37;
+R[1] = _3513163_37;
 R[2] = body;
 R[3] = cc;
 R[4] = expr;
@@ -3279,72 +3279,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512464_37 = R[1];
-if (True == _3512464_37) {
+Obj _3513166_37 = R[1];
+if (True == _3513166_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512669_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512670_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3512669_37);
-Obj _3512671_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512672_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512671_37);
-Obj _3512673_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512674_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512673_37);
-R[1] = _3512672_37;
-R[2] = _3512670_37;
+Obj _3513453_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3513454_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3513453_37);
+Obj _3513455_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3513456_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513455_37);
+Obj _3513457_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3513458_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513457_37);
+R[1] = _3513456_37;
+R[2] = _3513454_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), _3512674_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), _3513458_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512668_37= co->res;
-Obj e1 = R[1];
+Obj _3513452_37= co->res;
+Obj _3513168_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), e1, _3512668_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), _3513168_37, _3513452_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512667_37= co->res;
-Obj e1 = R[1];
-Obj e2 = _3512667_37;
-R[1] = e1;
+Obj _3513451_37= co->res;
+Obj _3513168_37 = R[1];
+Obj _3513169_37 = _3513451_37;
+R[1] = _3513168_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), _3513169_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3512666_37= co->res;
-Obj e1 = _3512666_37;
-R[1] = e1;
+Obj _3513450_37= co->res;
+Obj _3513168_37 = _3513450_37;
+R[1] = _3513168_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3512676_37= co->res;
-Obj _3512670_37 = R[1];
-Obj _3512677_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512678_37 = makeCons(co->gc, _3512677_37, Nil);
-Obj _3512679_37 = makeCons(co->gc, _3512676_37, _3512678_37);
-Obj _3512680_37 = makeCons(co->gc, _3512670_37, _3512679_37);
-Obj _3512681_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512680_37);
-coraReturn(co, _3512681_37);
+Obj _3513460_37= co->res;
+Obj _3513454_37 = R[1];
+Obj _3513461_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3513462_37 = makeCons(co->gc, _3513461_37, Nil);
+Obj _3513463_37 = makeCons(co->gc, _3513460_37, _3513462_37);
+Obj _3513464_37 = makeCons(co->gc, _3513454_37, _3513463_37);
+Obj _3513465_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513464_37);
+coraReturn(co, _3513465_37);
 return;
 }
 case 5:
 {
-Obj _3512675_37= co->res;
-Obj _3512672_37 = R[1];
-Obj _3512670_37 = R[2];
-R[1] = _3512670_37;
+Obj _3513459_37= co->res;
+Obj _3513456_37 = R[1];
+Obj _3513454_37 = R[2];
+R[1] = _3513454_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), _3512672_37, _3512675_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), _3513456_37, _3513459_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3355,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512662_37 = PRIM_CDR(exp);
+Obj _3513446_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512662_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3513446_37);
 return;
 }
 }
@@ -3368,36 +3368,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512652_37 = PRIM_CDR(pat);
+Obj _3513436_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512652_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513436_37);
 return;
 }
 case 1:
 {
-Obj _3512657_37= co->res;
-Obj _3512655_37 = R[1];
-Obj _3512658_37 = makeCons(co->gc, _3512657_37, Nil);
-Obj _3512659_37 = makeCons(co->gc, _3512655_37, _3512658_37);
-Obj _3512660_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3512659_37);
-coraReturn(co, _3512660_37);
+Obj _3513441_37= co->res;
+Obj _3513439_37 = R[1];
+Obj _3513442_37 = makeCons(co->gc, _3513441_37, Nil);
+Obj _3513443_37 = makeCons(co->gc, _3513439_37, _3513442_37);
+Obj _3513444_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513443_37);
+coraReturn(co, _3513444_37);
 return;
 }
 case 2:
 {
-Obj _3512653_37= co->res;
+Obj _3513437_37= co->res;
 Obj pat = R[1];
-if (True == _3512653_37) {
-Obj _3512654_37 = PRIM_CAR(pat);
-coraReturn(co, _3512654_37);
+if (True == _3513437_37) {
+Obj _3513438_37 = PRIM_CAR(pat);
+coraReturn(co, _3513438_37);
 return;
 } else {
-Obj _3512655_37 = PRIM_CAR(pat);
-Obj _3512656_37 = PRIM_CDR(pat);
-R[1] = _3512655_37;
+Obj _3513439_37 = PRIM_CAR(pat);
+Obj _3513440_37 = PRIM_CDR(pat);
+R[1] = _3513439_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512656_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3513440_37);
 return;
 }
 }
@@ -3409,13 +3409,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512649_37 = PRIM_EQ(x, True);
-if (True == _3512649_37) {
+Obj _3513433_37 = PRIM_EQ(x, True);
+if (True == _3513433_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512650_37 = PRIM_EQ(x, False);
-if (True == _3512650_37) {
+Obj _3513434_37 = PRIM_EQ(x, False);
+if (True == _3513434_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3432,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512647_37 = PRIM_CDR(exp);
+Obj _3513431_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3512647_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3513431_37);
 return;
 }
 }
@@ -3445,41 +3445,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512635_37 = PRIM_EQ(Nil, l);
-if (True == _3512635_37) {
+Obj _3513419_37 = PRIM_EQ(Nil, l);
+if (True == _3513419_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512636_37 = PRIM_CAR(l);
-Obj _3512637_37 = PRIM_EQ(_3512636_37, False);
-if (True == _3512637_37) {
+Obj _3513420_37 = PRIM_CAR(l);
+Obj _3513421_37 = PRIM_EQ(_3513420_37, False);
+if (True == _3513421_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512638_37 = PRIM_CDR(l);
+Obj _3513422_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3512638_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3513422_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512639_37= co->res;
+Obj _3513423_37= co->res;
 Obj l = R[1];
-Obj more = _3512639_37;
-Obj _3512640_37 = PRIM_EQ(more, False);
-if (True == _3512640_37) {
+Obj _3513162_37 = _3513423_37;
+Obj _3513424_37 = PRIM_EQ(_3513162_37, False);
+if (True == _3513424_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512641_37 = PRIM_CAR(l);
-Obj _3512642_37 = makeCons(co->gc, False, Nil);
-Obj _3512643_37 = makeCons(co->gc, more, _3512642_37);
-Obj _3512644_37 = makeCons(co->gc, _3512641_37, _3512643_37);
-Obj _3512645_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512644_37);
-coraReturn(co, _3512645_37);
+Obj _3513425_37 = PRIM_CAR(l);
+Obj _3513426_37 = makeCons(co->gc, False, Nil);
+Obj _3513427_37 = makeCons(co->gc, _3513162_37, _3513426_37);
+Obj _3513428_37 = makeCons(co->gc, _3513425_37, _3513427_37);
+Obj _3513429_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513428_37);
+coraReturn(co, _3513429_37);
 return;
 }
 }
@@ -3491,9 +3491,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512633_37 = PRIM_CDR(exp);
+Obj _3513417_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3512633_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3513417_37);
 return;
 }
 }
@@ -3504,41 +3504,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512621_37 = PRIM_EQ(l, Nil);
-if (True == _3512621_37) {
+Obj _3513405_37 = PRIM_EQ(l, Nil);
+if (True == _3513405_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512622_37 = PRIM_CAR(l);
-Obj _3512623_37 = PRIM_EQ(_3512622_37, True);
-if (True == _3512623_37) {
+Obj _3513406_37 = PRIM_CAR(l);
+Obj _3513407_37 = PRIM_EQ(_3513406_37, True);
+if (True == _3513407_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512624_37 = PRIM_CDR(l);
+Obj _3513408_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3512624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3513408_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512625_37= co->res;
+Obj _3513409_37= co->res;
 Obj l = R[1];
-Obj more = _3512625_37;
-Obj _3512626_37 = PRIM_EQ(more, True);
-if (True == _3512626_37) {
+Obj _3513161_37 = _3513409_37;
+Obj _3513410_37 = PRIM_EQ(_3513161_37, True);
+if (True == _3513410_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512627_37 = PRIM_CAR(l);
-Obj _3512628_37 = makeCons(co->gc, more, Nil);
-Obj _3512629_37 = makeCons(co->gc, True, _3512628_37);
-Obj _3512630_37 = makeCons(co->gc, _3512627_37, _3512629_37);
-Obj _3512631_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512630_37);
-coraReturn(co, _3512631_37);
+Obj _3513411_37 = PRIM_CAR(l);
+Obj _3513412_37 = makeCons(co->gc, _3513161_37, Nil);
+Obj _3513413_37 = makeCons(co->gc, True, _3513412_37);
+Obj _3513414_37 = makeCons(co->gc, _3513411_37, _3513413_37);
+Obj _3513415_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513414_37);
+coraReturn(co, _3513415_37);
 return;
 }
 }
@@ -3550,12 +3550,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512607_37 = PRIM_CDR(exp);
-Obj _3512608_37 = PRIM_EQ(Nil, _3512607_37);
-if (True == _3512608_37) {
-Obj _3512609_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512610_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512609_37);
-coraReturn(co, _3512610_37);
+Obj _3513391_37 = PRIM_CDR(exp);
+Obj _3513392_37 = PRIM_EQ(Nil, _3513391_37);
+if (True == _3513392_37) {
+Obj _3513393_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3513394_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513393_37);
+coraReturn(co, _3513394_37);
 return;
 } else {
 R[1] = exp;
@@ -3566,38 +3566,38 @@ return;
 }
 case 1:
 {
-Obj _3512614_37= co->res;
-Obj _3512613_37 = R[1];
-Obj _3512612_37 = R[2];
-Obj _3512615_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512614_37);
-Obj _3512616_37 = makeCons(co->gc, _3512615_37, Nil);
-Obj _3512617_37 = makeCons(co->gc, _3512613_37, _3512616_37);
-Obj _3512618_37 = makeCons(co->gc, _3512612_37, _3512617_37);
-Obj _3512619_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512618_37);
-coraReturn(co, _3512619_37);
+Obj _3513398_37= co->res;
+Obj _3513397_37 = R[1];
+Obj _3513396_37 = R[2];
+Obj _3513399_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513398_37);
+Obj _3513400_37 = makeCons(co->gc, _3513399_37, Nil);
+Obj _3513401_37 = makeCons(co->gc, _3513397_37, _3513400_37);
+Obj _3513402_37 = makeCons(co->gc, _3513396_37, _3513401_37);
+Obj _3513403_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513402_37);
+coraReturn(co, _3513403_37);
 return;
 }
 case 2:
 {
-Obj _3512613_37= co->res;
+Obj _3513397_37= co->res;
 Obj exp = R[1];
-Obj _3512612_37 = R[2];
-R[1] = _3512613_37;
-R[2] = _3512612_37;
+Obj _3513396_37 = R[2];
+R[1] = _3513397_37;
+R[2] = _3513396_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 3:
 {
-Obj _3512611_37= co->res;
+Obj _3513395_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512611_37;
-Obj _3512612_37 = PRIM_CAR(curr);
+Obj _3513160_37 = _3513395_37;
+Obj _3513396_37 = PRIM_CAR(_3513160_37);
 R[1] = exp;
-R[2] = _3512612_37;
+R[2] = _3513396_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), curr);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513160_37);
 return;
 }
 }
@@ -3608,9 +3608,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512605_37 = PRIM_CDR(exp);
+Obj _3513389_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3512605_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3513389_37);
 return;
 }
 }
@@ -3621,58 +3621,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512593_37 = PRIM_CDR(exp);
+Obj _3513377_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3512593_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513377_37);
 return;
 }
 case 1:
 {
-Obj _3512599_37= co->res;
-Obj _3512597_37 = R[1];
-Obj _3512596_37 = R[2];
-Obj _3512600_37 = makeCons(co->gc, _3512599_37, Nil);
-Obj _3512601_37 = makeCons(co->gc, _3512597_37, _3512600_37);
-Obj _3512602_37 = makeCons(co->gc, _3512596_37, _3512601_37);
-Obj _3512603_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3512602_37);
-coraReturn(co, _3512603_37);
+Obj _3513383_37= co->res;
+Obj _3513381_37 = R[1];
+Obj _3513380_37 = R[2];
+Obj _3513384_37 = makeCons(co->gc, _3513383_37, Nil);
+Obj _3513385_37 = makeCons(co->gc, _3513381_37, _3513384_37);
+Obj _3513386_37 = makeCons(co->gc, _3513380_37, _3513385_37);
+Obj _3513387_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513386_37);
+coraReturn(co, _3513387_37);
 return;
 }
 case 2:
 {
-Obj _3512598_37= co->res;
-Obj _3512597_37 = R[1];
-Obj _3512596_37 = R[2];
-R[1] = _3512597_37;
-R[2] = _3512596_37;
+Obj _3513382_37= co->res;
+Obj _3513381_37 = R[1];
+Obj _3513380_37 = R[2];
+R[1] = _3513381_37;
+R[2] = _3513380_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3512598_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3513382_37);
 return;
 }
 case 3:
 {
-Obj _3512597_37= co->res;
+Obj _3513381_37= co->res;
 Obj exp = R[1];
-Obj _3512596_37 = R[2];
-R[1] = _3512597_37;
-R[2] = _3512596_37;
+Obj _3513380_37 = R[2];
+R[1] = _3513381_37;
+R[2] = _3513380_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
 return;
 }
 case 4:
 {
-Obj _3512594_37= co->res;
+Obj _3513378_37= co->res;
 Obj exp = R[1];
-if (True == _3512594_37) {
-Obj _3512595_37 = PRIM_CAR(exp);
-coraReturn(co, _3512595_37);
+if (True == _3513378_37) {
+Obj _3513379_37 = PRIM_CAR(exp);
+coraReturn(co, _3513379_37);
 return;
 } else {
-Obj _3512596_37 = PRIM_CAR(exp);
+Obj _3513380_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512596_37;
+R[2] = _3513380_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
@@ -3686,9 +3686,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512590_37 = PRIM_ISCONS(x);
-Obj _3512591_37 = primNot(_3512590_37);
-coraReturn(co, _3512591_37);
+Obj _3513374_37 = PRIM_ISCONS(x);
+Obj _3513375_37 = primNot(_3513374_37);
+coraReturn(co, _3513375_37);
 return;
 }
 }
@@ -3700,17 +3700,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512585_37 = PRIM_ISCONS(l);
-if (True == _3512585_37) {
-Obj _3512586_37 = PRIM_CAR(l);
-Obj _3512587_37 = PRIM_EQ(_3512586_37, x);
-if (True == _3512587_37) {
+Obj _3513369_37 = PRIM_ISCONS(l);
+if (True == _3513369_37) {
+Obj _3513370_37 = PRIM_CAR(l);
+Obj _3513371_37 = PRIM_EQ(_3513370_37, x);
+if (True == _3513371_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512588_37 = PRIM_CDR(l);
+Obj _3513372_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), x, _3512588_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), x, _3513372_37);
 return;
 }
 } else {
@@ -3733,35 +3733,35 @@ return;
 }
 case 1:
 {
-Obj _3512577_37= co->res;
-Obj _3512576_37 = R[1];
-Obj _3512575_37 = R[2];
-Obj _3512578_37 = makeCons(co->gc, _3512577_37, Nil);
-Obj _3512579_37 = makeCons(co->gc, _3512576_37, _3512578_37);
-Obj _3512580_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512579_37);
-Obj _3512581_37 = makeCons(co->gc, _3512580_37, Nil);
-Obj _3512582_37 = makeCons(co->gc, _3512575_37, _3512581_37);
-Obj _3512583_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512582_37);
-coraReturn(co, _3512583_37);
+Obj _3513361_37= co->res;
+Obj _3513360_37 = R[1];
+Obj _3513359_37 = R[2];
+Obj _3513362_37 = makeCons(co->gc, _3513361_37, Nil);
+Obj _3513363_37 = makeCons(co->gc, _3513360_37, _3513362_37);
+Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513363_37);
+Obj _3513365_37 = makeCons(co->gc, _3513364_37, Nil);
+Obj _3513366_37 = makeCons(co->gc, _3513359_37, _3513365_37);
+Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3513366_37);
+coraReturn(co, _3513367_37);
 return;
 }
 case 2:
 {
-Obj _3512576_37= co->res;
+Obj _3513360_37= co->res;
 Obj exp = R[1];
-Obj _3512575_37 = R[2];
-R[1] = _3512576_37;
-R[2] = _3512575_37;
+Obj _3513359_37 = R[2];
+R[1] = _3513360_37;
+R[2] = _3513359_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 3:
 {
-Obj _3512575_37= co->res;
+Obj _3513359_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512575_37;
+R[2] = _3513359_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -3774,9 +3774,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512573_37 = PRIM_CDR(exp);
+Obj _3513357_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3512573_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3513357_37);
 return;
 }
 }
@@ -3794,36 +3794,36 @@ return;
 }
 case 1:
 {
-Obj _3512565_37= co->res;
-Obj _3512564_37 = R[1];
-Obj _3512563_37 = R[2];
-Obj _3512566_37 = makeCons(co->gc, _3512564_37, _3512565_37);
-Obj _3512567_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512566_37);
-Obj _3512568_37 = makeCons(co->gc, _3512567_37, Nil);
-Obj _3512569_37 = makeCons(co->gc, _3512563_37, _3512568_37);
-Obj _3512570_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, _3512569_37);
-coraReturn(co, _3512570_37);
+Obj _3513349_37= co->res;
+Obj _3513348_37 = R[1];
+Obj _3513347_37 = R[2];
+Obj _3513350_37 = makeCons(co->gc, _3513348_37, _3513349_37);
+Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513350_37);
+Obj _3513352_37 = makeCons(co->gc, _3513351_37, Nil);
+Obj _3513353_37 = makeCons(co->gc, _3513347_37, _3513352_37);
+Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, _3513353_37);
+coraReturn(co, _3513354_37);
 return;
 }
 case 2:
 {
-Obj _3512564_37= co->res;
+Obj _3513348_37= co->res;
 Obj exp = R[1];
-Obj _3512563_37 = R[2];
-R[1] = _3512564_37;
-R[2] = _3512563_37;
+Obj _3513347_37 = R[2];
+R[1] = _3513348_37;
+R[2] = _3513347_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512561_37= co->res;
+Obj _3513345_37= co->res;
 Obj exp = R[1];
-Obj _3512562_37 = makeCons(co->gc, _3512561_37, Nil);
-Obj _3512563_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512562_37);
+Obj _3513346_37 = makeCons(co->gc, _3513345_37, Nil);
+Obj _3513347_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513346_37);
 R[1] = exp;
-R[2] = _3512563_37;
+R[2] = _3513347_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -3836,26 +3836,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512543_37 = PRIM_ISCONS(exp);
-if (True == _3512543_37) {
-Obj _3512544_37 = PRIM_CAR(exp);
-Obj _3512545_37 = PRIM_EQ(_3512544_37, globalRef(co, getBinding(co, packageID, 146)));
-if (True == _3512545_37) {
-Obj _3512546_37 = PRIM_CDR(exp);
-coraReturn(co, _3512546_37);
-return;
-} else {
-Obj _3512547_37 = PRIM_CAR(exp);
-Obj _3512548_37 = PRIM_EQ(_3512547_37, getBinding(co, packageID, 141).name);
-if (True == _3512548_37) {
+Obj _3513327_37 = PRIM_ISCONS(exp);
+if (True == _3513327_37) {
+Obj _3513328_37 = PRIM_CAR(exp);
+Obj _3513329_37 = PRIM_EQ(_3513328_37, globalRef(co, getBinding(co, packageID, 146)));
+if (True == _3513329_37) {
+Obj _3513330_37 = PRIM_CDR(exp);
+coraReturn(co, _3513330_37);
+return;
+} else {
+Obj _3513331_37 = PRIM_CAR(exp);
+Obj _3513332_37 = PRIM_EQ(_3513331_37, getBinding(co, packageID, 141).name);
+if (True == _3513332_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
 return;
 } else {
-Obj _3512555_37 = PRIM_CAR(exp);
-Obj _3512556_37 = PRIM_EQ(_3512555_37, getBinding(co, packageID, 140).name);
-if (True == _3512556_37) {
+Obj _3513339_37 = PRIM_CAR(exp);
+Obj _3513340_37 = PRIM_EQ(_3513339_37, getBinding(co, packageID, 140).name);
+if (True == _3513340_37) {
 coraReturn(co, exp);
 return;
 } else {
@@ -3873,38 +3873,38 @@ return;
 }
 case 1:
 {
-Obj _3512551_37= co->res;
-Obj _3512549_37 = R[1];
-Obj _3512552_37 = makeCons(co->gc, _3512551_37, Nil);
-Obj _3512553_37 = makeCons(co->gc, _3512549_37, _3512552_37);
-Obj _3512554_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3512553_37);
-coraReturn(co, _3512554_37);
+Obj _3513335_37= co->res;
+Obj _3513333_37 = R[1];
+Obj _3513336_37 = makeCons(co->gc, _3513335_37, Nil);
+Obj _3513337_37 = makeCons(co->gc, _3513333_37, _3513336_37);
+Obj _3513338_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513337_37);
+coraReturn(co, _3513338_37);
 return;
 }
 case 2:
 {
-Obj _3512550_37= co->res;
-Obj _3512549_37 = R[1];
-R[1] = _3512549_37;
+Obj _3513334_37= co->res;
+Obj _3513333_37 = R[1];
+R[1] = _3513333_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), _3512550_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), _3513334_37);
 return;
 }
 case 3:
 {
-Obj _3512549_37= co->res;
+Obj _3513333_37= co->res;
 Obj exp = R[1];
-R[1] = _3512549_37;
+R[1] = _3513333_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512558_37= co->res;
+Obj _3513342_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512558_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3513342_37);
 return;
 }
 }
@@ -3915,8 +3915,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512557_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512557_37) {
+Obj _3513341_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3513341_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), exp1);
 return;
@@ -3947,14 +3947,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512533_37 = PRIM_EQ(Nil, macros);
-if (True == _3512533_37) {
+Obj _3513317_37 = PRIM_EQ(Nil, macros);
+if (True == _3513317_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512540_37 = PRIM_CAR(macros);
+Obj _3513324_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512540_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3513324_37);
 return;
 }
 }
@@ -3966,24 +3966,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512461_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512536_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512536_37) {
-Obj _3512537_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512538_37 = PRIM_CAR(item);
-Obj _3512539_37 = PRIM_EQ(_3512537_37, _3512538_37);
-if (True == _3512539_37) {
+Obj _3513159_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3513320_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513320_37) {
+Obj _3513321_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513322_37 = PRIM_CAR(item);
+Obj _3513323_37 = PRIM_EQ(_3513321_37, _3513322_37);
+if (True == _3513323_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3513159_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, False);
+coraCall1(co, _3513159_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, False);
+coraCall1(co, _3513159_37, False);
 return;
 }
 }
@@ -3994,16 +3994,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512462_37 = R[1];
-if (True == _3512462_37) {
-Obj _3512534_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513158_37 = R[1];
+if (True == _3513158_37) {
+Obj _3513318_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512534_37, closureRef(R[0], 1));
+coraCall1(co, _3513318_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512535_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513319_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), _3512535_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), _3513319_37);
 return;
 }
 }
@@ -4016,10 +4016,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512529_37 = makeCons(co->gc, n, v);
-Obj _3512530_37 = makeCons(co->gc, _3512529_37, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3512531_37 = primSet(co, getBinding(co, packageID, 147).name, _3512530_37);
-coraReturn(co, _3512531_37);
+Obj _3513313_37 = makeCons(co->gc, n, v);
+Obj _3513314_37 = makeCons(co->gc, _3513313_37, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3513315_37 = primSet(co, getBinding(co, packageID, 147).name, _3513314_37);
+coraReturn(co, _3513315_37);
 return;
 }
 }
@@ -4045,14 +4045,14 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512519_37 = PRIM_ISCONS(l);
-if (True == _3512519_37) {
-Obj _3512520_37 = PRIM_CAR(l);
+Obj _3513303_37 = PRIM_ISCONS(l);
+if (True == _3513303_37) {
+Obj _3513304_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512520_37);
+coraCall1(co, f, _3513304_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4062,14 +4062,14 @@ return;
 }
 case 1:
 {
-Obj _3512521_37= co->res;
+Obj _3513305_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512522_37 = makeCons(co->gc, _3512521_37, res);
-Obj _3512523_37 = PRIM_CDR(l);
+Obj _3513306_37 = makeCons(co->gc, _3513305_37, res);
+Obj _3513307_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), _3512522_37, f, _3512523_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), _3513306_37, f, _3513307_37);
 return;
 }
 }
@@ -4081,13 +4081,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512512_37 = PRIM_ISCONS(l);
-if (True == _3512512_37) {
-Obj _3512513_37 = PRIM_CAR(l);
-Obj _3512514_37 = makeCons(co->gc, _3512513_37, res);
-Obj _3512515_37 = PRIM_CDR(l);
+Obj _3513296_37 = PRIM_ISCONS(l);
+if (True == _3513296_37) {
+Obj _3513297_37 = PRIM_CAR(l);
+Obj _3513298_37 = makeCons(co->gc, _3513297_37, res);
+Obj _3513299_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), _3512514_37, _3512515_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), _3513298_37, _3513299_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4102,8 +4102,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512510_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512510_37);
+Obj _3513294_37 = PRIM_ISCONS(x);
+coraReturn(co, _3513294_37);
 return;
 }
 }
@@ -4114,13 +4114,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512502_37 = PRIM_ISCONS(exp);
-if (True == _3512502_37) {
-Obj _3512503_37 = PRIM_CAR(exp);
-Obj _3512504_37 = PRIM_CDR(exp);
-R[1] = _3512503_37;
+Obj _3513286_37 = PRIM_ISCONS(exp);
+if (True == _3513286_37) {
+Obj _3513287_37 = PRIM_CAR(exp);
+Obj _3513288_37 = PRIM_CDR(exp);
+R[1] = _3513287_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3512504_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3513288_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4129,12 @@ return;
 }
 case 1:
 {
-Obj _3512505_37= co->res;
-Obj _3512503_37 = R[1];
-Obj _3512506_37 = makeCons(co->gc, _3512505_37, Nil);
-Obj _3512507_37 = makeCons(co->gc, _3512503_37, _3512506_37);
-Obj _3512508_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3512507_37);
-coraReturn(co, _3512508_37);
+Obj _3513289_37= co->res;
+Obj _3513287_37 = R[1];
+Obj _3513290_37 = makeCons(co->gc, _3513289_37, Nil);
+Obj _3513291_37 = makeCons(co->gc, _3513287_37, _3513290_37);
+Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513291_37);
+coraReturn(co, _3513292_37);
 return;
 }
 }
@@ -4145,10 +4145,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512498_37 = PRIM_CDR(x);
-Obj _3512499_37 = PRIM_CDR(_3512498_37);
-Obj _3512500_37 = PRIM_CDR(_3512499_37);
-coraReturn(co, _3512500_37);
+Obj _3513282_37 = PRIM_CDR(x);
+Obj _3513283_37 = PRIM_CDR(_3513282_37);
+Obj _3513284_37 = PRIM_CDR(_3513283_37);
+coraReturn(co, _3513284_37);
 return;
 }
 }
@@ -4159,11 +4159,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512493_37 = PRIM_CDR(x);
-Obj _3512494_37 = PRIM_CDR(_3512493_37);
-Obj _3512495_37 = PRIM_CDR(_3512494_37);
-Obj _3512496_37 = PRIM_CAR(_3512495_37);
-coraReturn(co, _3512496_37);
+Obj _3513277_37 = PRIM_CDR(x);
+Obj _3513278_37 = PRIM_CDR(_3513277_37);
+Obj _3513279_37 = PRIM_CDR(_3513278_37);
+Obj _3513280_37 = PRIM_CAR(_3513279_37);
+coraReturn(co, _3513280_37);
 return;
 }
 }
@@ -4174,10 +4174,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512489_37 = PRIM_CDR(x);
-Obj _3512490_37 = PRIM_CDR(_3512489_37);
-Obj _3512491_37 = PRIM_CAR(_3512490_37);
-coraReturn(co, _3512491_37);
+Obj _3513273_37 = PRIM_CDR(x);
+Obj _3513274_37 = PRIM_CDR(_3513273_37);
+Obj _3513275_37 = PRIM_CAR(_3513274_37);
+coraReturn(co, _3513275_37);
 return;
 }
 }
@@ -4188,9 +4188,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512486_37 = PRIM_CDR(x);
-Obj _3512487_37 = PRIM_CDR(_3512486_37);
-coraReturn(co, _3512487_37);
+Obj _3513270_37 = PRIM_CDR(x);
+Obj _3513271_37 = PRIM_CDR(_3513270_37);
+coraReturn(co, _3513271_37);
 return;
 }
 }
@@ -4201,9 +4201,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512483_37 = PRIM_CAR(x);
-Obj _3512484_37 = PRIM_CDR(_3512483_37);
-coraReturn(co, _3512484_37);
+Obj _3513267_37 = PRIM_CAR(x);
+Obj _3513268_37 = PRIM_CDR(_3513267_37);
+coraReturn(co, _3513268_37);
 return;
 }
 }
@@ -4214,9 +4214,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512480_37 = PRIM_CAR(x);
-Obj _3512481_37 = PRIM_CAR(_3512480_37);
-coraReturn(co, _3512481_37);
+Obj _3513264_37 = PRIM_CAR(x);
+Obj _3513265_37 = PRIM_CAR(_3513264_37);
+coraReturn(co, _3513265_37);
 return;
 }
 }
@@ -4227,9 +4227,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512477_37 = PRIM_CDR(x);
-Obj _3512478_37 = PRIM_CAR(_3512477_37);
-coraReturn(co, _3512478_37);
+Obj _3513261_37 = PRIM_CDR(x);
+Obj _3513262_37 = PRIM_CAR(_3513261_37);
+coraReturn(co, _3513262_37);
 return;
 }
 }
@@ -4240,8 +4240,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512475_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512475_37);
+Obj _3513259_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3513259_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 7eda12e..0807924 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,10 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun148(struct Cora* co, int label, Obj *R);
+static void clofun147(struct Cora* co, int label, Obj *R);
+static void clofun146(struct Cora* co, int label, Obj *R);
+static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
 static void clofun142(struct Cora* co, int label, Obj *R);
@@ -233,21 +237,21 @@ __symbolTable[77] = bindSymbol(co, intern("%closure-ref"));
 __symbolTable[78] = bindSymbol(co, intern("%closure"));
 __symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
 __symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[82] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[84] = bindSymbol(co, intern("quote"));
-__symbolTable[85] = bindSymbol(co, intern("do"));
-__symbolTable[86] = bindSymbol(co, intern("let"));
-__symbolTable[87] = bindSymbol(co, intern("if"));
-__symbolTable[88] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[89] = bindSymbol(co, intern("lambda"));
-__symbolTable[90] = bindSymbol(co, intern("%builtin"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[93] = bindSymbol(co, intern("%global"));
-__symbolTable[94] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[95] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[81] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[84] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[85] = bindSymbol(co, intern("quote"));
+__symbolTable[86] = bindSymbol(co, intern("do"));
+__symbolTable[87] = bindSymbol(co, intern("let"));
+__symbolTable[88] = bindSymbol(co, intern("if"));
+__symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[90] = bindSymbol(co, intern("lambda"));
+__symbolTable[91] = bindSymbol(co, intern("%builtin"));
+__symbolTable[92] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[94] = bindSymbol(co, intern("%global"));
+__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
 __symbolTable[96] = bindSymbol(co, intern("%const"));
 __symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#parse"));
 __symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
@@ -284,434 +288,434 @@ __symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
-co->ctx.fn = clofun144;
+co->ctx.fn = clofun148;
 co->ctx.label = 0;
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun148(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun144, 4, R);
+saveCont(co, clofun148, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj _3518189_37= co->res;
-Obj _3518195_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj _3518201_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518223_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj _3518242_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
-Obj _3518252_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
-Obj _3518293_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj _3518332_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj _3518384_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj _3518385_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518399_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj _3518400_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518413_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj _3518423_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, _3518423_37);
+Obj _3519286_37= co->res;
+Obj _3519292_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj _3519298_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun115, 2, 0));
+Obj _3519320_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun117, 3, 0));
+Obj _3519339_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun119, 3, 0));
+Obj _3519349_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun122, 3, 0));
+Obj _3519390_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun127, 1, 0));
+Obj _3519429_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun130, 4, 0));
+Obj _3519481_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun135, 2, 0));
+Obj _3519482_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun136, 2, 0));
+Obj _3519496_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun144, 1, 0));
+Obj _3519497_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj _3519510_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun146, 1, 0));
+Obj _3519520_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun147, 2, 0));
+coraReturn(co, _3519520_37);
 return;
 }
 case 2:
 {
-Obj _3516807_37= co->res;
-Obj _3516808_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516823_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516829_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516839_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516840_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516847_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516848_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516849_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516848_37);
-Obj _3516850_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516849_37);
-Obj _3516851_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516852_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516851_37);
-Obj _3516853_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516852_37);
-Obj _3516854_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516855_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516854_37);
-Obj _3516856_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516855_37);
-Obj _3516857_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516858_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516857_37);
-Obj _3516859_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516858_37);
-Obj _3516860_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516861_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516860_37);
-Obj _3516862_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516861_37);
-Obj _3516863_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516864_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516863_37);
-Obj _3516865_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516864_37);
-Obj _3516866_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516867_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516866_37);
-Obj _3516868_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516867_37);
-Obj _3516869_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516870_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516869_37);
-Obj _3516871_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516870_37);
-Obj _3516872_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516873_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516872_37);
-Obj _3516874_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516873_37);
-Obj _3516875_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516876_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516875_37);
-Obj _3516877_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516876_37);
-Obj _3516878_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516879_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516878_37);
-Obj _3516880_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516879_37);
-Obj _3516881_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516882_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516881_37);
-Obj _3516883_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516882_37);
-Obj _3516884_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516885_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516884_37);
-Obj _3516886_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516885_37);
-Obj _3516887_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516888_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516887_37);
-Obj _3516889_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516888_37);
-Obj _3516890_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516891_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516890_37);
-Obj _3516892_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516891_37);
-Obj _3516893_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516894_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516893_37);
-Obj _3516895_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516894_37);
-Obj _3516896_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516897_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516896_37);
-Obj _3516898_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516897_37);
-Obj _3516899_37 = makeCons(co->gc, _3516898_37, Nil);
-Obj _3516900_37 = makeCons(co->gc, _3516895_37, _3516899_37);
-Obj _3516901_37 = makeCons(co->gc, _3516892_37, _3516900_37);
-Obj _3516902_37 = makeCons(co->gc, _3516889_37, _3516901_37);
-Obj _3516903_37 = makeCons(co->gc, _3516886_37, _3516902_37);
-Obj _3516904_37 = makeCons(co->gc, _3516883_37, _3516903_37);
-Obj _3516905_37 = makeCons(co->gc, _3516880_37, _3516904_37);
-Obj _3516906_37 = makeCons(co->gc, _3516877_37, _3516905_37);
-Obj _3516907_37 = makeCons(co->gc, _3516874_37, _3516906_37);
-Obj _3516908_37 = makeCons(co->gc, _3516871_37, _3516907_37);
-Obj _3516909_37 = makeCons(co->gc, _3516868_37, _3516908_37);
-Obj _3516910_37 = makeCons(co->gc, _3516865_37, _3516909_37);
-Obj _3516911_37 = makeCons(co->gc, _3516862_37, _3516910_37);
-Obj _3516912_37 = makeCons(co->gc, _3516859_37, _3516911_37);
-Obj _3516913_37 = makeCons(co->gc, _3516856_37, _3516912_37);
-Obj _3516914_37 = makeCons(co->gc, _3516853_37, _3516913_37);
-Obj _3516915_37 = makeCons(co->gc, _3516850_37, _3516914_37);
-Obj _3516916_37 = primSet(co, getBinding(co, packageID, 122).name, _3516915_37);
-Obj _3516920_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516923_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516926_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516931_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517125_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517136_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517147_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517208_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517383_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517456_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj _3517459_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3517596_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3517619_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj _3517696_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj _3517727_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj _3517733_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj _3517738_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj _3517747_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj _3517798_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj _3517806_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj _3517813_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj _3517818_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj _3517824_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj _3517825_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj _3517832_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj _3517839_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj _3518126_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj _3518140_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj _3518162_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj _3518164_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj _3518168_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518169_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518170_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj _3518171_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518172_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518179_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj _3518186_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
-saveCont(co, clofun144, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj _3517857_37= co->res;
+Obj _3517858_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj _3517873_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3517879_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3517889_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3517890_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3517897_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3517898_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3517899_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517898_37);
+Obj _3517900_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3517899_37);
+Obj _3517901_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3517902_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517901_37);
+Obj _3517903_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3517902_37);
+Obj _3517904_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3517905_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517904_37);
+Obj _3517906_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3517905_37);
+Obj _3517907_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3517908_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517907_37);
+Obj _3517909_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3517908_37);
+Obj _3517910_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3517911_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517910_37);
+Obj _3517912_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3517911_37);
+Obj _3517913_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3517914_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517913_37);
+Obj _3517915_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3517914_37);
+Obj _3517916_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3517917_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517916_37);
+Obj _3517918_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3517917_37);
+Obj _3517919_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3517920_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517919_37);
+Obj _3517921_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3517920_37);
+Obj _3517922_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3517923_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517922_37);
+Obj _3517924_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3517923_37);
+Obj _3517925_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3517926_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517925_37);
+Obj _3517927_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3517926_37);
+Obj _3517928_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3517929_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517928_37);
+Obj _3517930_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3517929_37);
+Obj _3517931_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3517932_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517931_37);
+Obj _3517933_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3517932_37);
+Obj _3517934_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3517935_37 = makeCons(co->gc, MAKE_NUMBER(0), _3517934_37);
+Obj _3517936_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3517935_37);
+Obj _3517937_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3517938_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517937_37);
+Obj _3517939_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3517938_37);
+Obj _3517940_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3517941_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517940_37);
+Obj _3517942_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3517941_37);
+Obj _3517943_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3517944_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517943_37);
+Obj _3517945_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3517944_37);
+Obj _3517946_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3517947_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517946_37);
+Obj _3517948_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3517947_37);
+Obj _3517949_37 = makeCons(co->gc, _3517948_37, Nil);
+Obj _3517950_37 = makeCons(co->gc, _3517945_37, _3517949_37);
+Obj _3517951_37 = makeCons(co->gc, _3517942_37, _3517950_37);
+Obj _3517952_37 = makeCons(co->gc, _3517939_37, _3517951_37);
+Obj _3517953_37 = makeCons(co->gc, _3517936_37, _3517952_37);
+Obj _3517954_37 = makeCons(co->gc, _3517933_37, _3517953_37);
+Obj _3517955_37 = makeCons(co->gc, _3517930_37, _3517954_37);
+Obj _3517956_37 = makeCons(co->gc, _3517927_37, _3517955_37);
+Obj _3517957_37 = makeCons(co->gc, _3517924_37, _3517956_37);
+Obj _3517958_37 = makeCons(co->gc, _3517921_37, _3517957_37);
+Obj _3517959_37 = makeCons(co->gc, _3517918_37, _3517958_37);
+Obj _3517960_37 = makeCons(co->gc, _3517915_37, _3517959_37);
+Obj _3517961_37 = makeCons(co->gc, _3517912_37, _3517960_37);
+Obj _3517962_37 = makeCons(co->gc, _3517909_37, _3517961_37);
+Obj _3517963_37 = makeCons(co->gc, _3517906_37, _3517962_37);
+Obj _3517964_37 = makeCons(co->gc, _3517903_37, _3517963_37);
+Obj _3517965_37 = makeCons(co->gc, _3517900_37, _3517964_37);
+Obj _3517966_37 = primSet(co, getBinding(co, packageID, 122).name, _3517965_37);
+Obj _3517970_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3517973_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3517976_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3517981_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3518222_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun24, 3, 0));
+Obj _3518233_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj _3518244_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun28, 2, 0));
+Obj _3518305_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun35, 1, 0));
+Obj _3518480_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj _3518553_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun48, 2, 0));
+Obj _3518556_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3518693_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun58, 2, 0));
+Obj _3518716_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun61, 3, 0));
+Obj _3518793_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun65, 2, 0));
+Obj _3518824_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun69, 3, 0));
+Obj _3518830_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun72, 4, 0));
+Obj _3518835_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun74, 2, 0));
+Obj _3518844_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun76, 1, 0));
+Obj _3518895_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun78, 2, 0));
+Obj _3518903_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj _3518910_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3518915_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun81, 2, 0));
+Obj _3518921_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun82, 3, 0));
+Obj _3518922_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3518929_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj _3518936_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun87, 5, 0));
+Obj _3519223_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj _3519237_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun102, 5, 0));
+Obj _3519259_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun104, 5, 0));
+Obj _3519261_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj _3519265_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj _3519266_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun107, 2, 0));
+Obj _3519267_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj _3519268_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj _3519269_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj _3519276_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun111, 1, 0));
+Obj _3519283_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun112, 2, 0));
+saveCont(co, clofun148, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun113, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516806_37= co->res;
-saveCont(co, clofun144, 2, R);
+Obj _3517856_37= co->res;
+saveCont(co, clofun148, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516805_37= co->res;
-saveCont(co, clofun144, 3, R);
+Obj _3517855_37= co->res;
+saveCont(co, clofun148, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518414_37 = primGenSym(co);
-Obj globals = _3518414_37;
-Obj _3518415_37 = primSet(co, globals, Nil);
+Obj _3519511_37 = primGenSym(co);
+Obj _3517852_37 = _3519511_37;
+Obj _3519512_37 = primSet(co, _3517852_37, Nil);
 R[1] = from;
 R[2] = to;
-R[3] = globals;
-saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), globals);
+R[3] = _3517852_37;
+saveCont(co, clofun147, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), _3517852_37);
 return;
 }
 case 1:
 {
-Obj _3518422_37= co->res;
-Obj stream = R[1];
+Obj _3519519_37= co->res;
+Obj _3517854_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), _3517854_37);
 return;
 }
 case 2:
 {
-Obj _3518421_37= co->res;
-Obj bc = R[1];
-Obj stream = R[2];
-R[1] = stream;
-saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518421_37);
+Obj _3519518_37= co->res;
+Obj _3517853_37 = R[1];
+Obj _3517854_37 = R[2];
+R[1] = _3517854_37;
+saveCont(co, clofun147, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), _3517854_37, _3517853_37, _3519518_37);
 return;
 }
 case 3:
 {
-Obj _3518420_37= co->res;
-Obj globals = R[1];
-Obj bc = R[2];
-Obj stream = _3518420_37;
-R[1] = bc;
-R[2] = stream;
-saveCont(co, clofun143, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+Obj _3519517_37= co->res;
+Obj _3517852_37 = R[1];
+Obj _3517853_37 = R[2];
+Obj _3517854_37 = _3519517_37;
+R[1] = _3517853_37;
+R[2] = _3517854_37;
+saveCont(co, clofun147, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517852_37);
 return;
 }
 case 4:
 {
-Obj _3518419_37= co->res;
+Obj _3519516_37= co->res;
 Obj to = R[1];
-Obj globals = R[2];
-Obj bc = _3518419_37;
-R[1] = globals;
-R[2] = bc;
-saveCont(co, clofun143, 3, R);
+Obj _3517852_37 = R[2];
+Obj _3517853_37 = _3519516_37;
+R[1] = _3517852_37;
+R[2] = _3517853_37;
+saveCont(co, clofun147, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
 return;
 }
 case 5:
 {
-Obj _3518418_37= co->res;
-Obj _3518416_37 = R[1];
+Obj _3519515_37= co->res;
+Obj _3519513_37 = R[1];
 Obj to = R[2];
-Obj globals = R[3];
+Obj _3517852_37 = R[3];
 R[1] = to;
-R[2] = globals;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, _3518416_37, _3518418_37);
+R[2] = _3517852_37;
+saveCont(co, clofun147, 4, R);
+coraCall1(co, _3519513_37, _3519515_37);
 return;
 }
 case 6:
 {
-Obj _3518417_37= co->res;
-Obj _3518416_37 = R[1];
+Obj _3519514_37= co->res;
+Obj _3519513_37 = R[1];
 Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518416_37;
+Obj _3517852_37 = R[3];
+R[1] = _3519513_37;
 R[2] = to;
-R[3] = globals;
-saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518417_37);
+R[3] = _3517852_37;
+saveCont(co, clofun147, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3519514_37);
 return;
 }
 case 7:
 {
-Obj _3518416_37= co->res;
+Obj _3519513_37= co->res;
 Obj from = R[1];
 Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518416_37;
+Obj _3517852_37 = R[3];
+R[1] = _3519513_37;
 R[2] = to;
-R[3] = globals;
-saveCont(co, clofun143, 6, R);
+R[3] = _3517852_37;
+saveCont(co, clofun147, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj file_45path = R[1];
-saveCont(co, clofun142, 8, R);
+saveCont(co, clofun146, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
 return;
 }
 case 1:
 {
-Obj _3518408_37= co->res;
-Obj sexp = R[1];
+Obj _3519505_37= co->res;
+Obj _3517848_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517848_37);
 return;
 }
 case 2:
 {
-Obj _3518407_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun142, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+Obj _3519504_37= co->res;
+Obj _3517848_37 = R[1];
+R[1] = _3517848_37;
+saveCont(co, clofun146, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517848_37);
 return;
 }
 case 3:
 {
-Obj _3518410_37= co->res;
-Obj sexp = R[1];
+Obj _3519507_37= co->res;
+Obj _3517848_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517848_37);
 return;
 }
 case 4:
 {
-Obj _3518409_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun142, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+Obj _3519506_37= co->res;
+Obj _3517848_37 = R[1];
+R[1] = _3517848_37;
+saveCont(co, clofun146, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517848_37);
 return;
 }
 case 5:
 {
-Obj _3518412_37= co->res;
-Obj sexp = R[1];
+Obj _3519509_37= co->res;
+Obj _3517848_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517848_37);
 return;
 }
 case 6:
 {
-Obj _3518411_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun142, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+Obj _3519508_37= co->res;
+Obj _3517848_37 = R[1];
+R[1] = _3517848_37;
+saveCont(co, clofun146, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517848_37);
 return;
 }
 case 7:
 {
-Obj _3518404_37= co->res;
-Obj _3516803_37 = R[1];
-Obj sexp = R[2];
-if (True == _3518404_37) {
-Obj _3518405_37 = PRIM_CAR(sexp);
-Obj _3518406_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518405_37);
-if (True == _3518406_37) {
-R[1] = sexp;
-saveCont(co, clofun142, 2, R);
-coraCall1(co, _3516803_37, True);
+Obj _3519501_37= co->res;
+Obj _3517851_37 = R[1];
+Obj _3517848_37 = R[2];
+if (True == _3519501_37) {
+Obj _3519502_37 = PRIM_CAR(_3517848_37);
+Obj _3519503_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519502_37);
+if (True == _3519503_37) {
+R[1] = _3517848_37;
+saveCont(co, clofun146, 2, R);
+coraCall1(co, _3517851_37, True);
 return;
 } else {
-R[1] = sexp;
-saveCont(co, clofun142, 4, R);
-coraCall1(co, _3516803_37, False);
+R[1] = _3517848_37;
+saveCont(co, clofun146, 4, R);
+coraCall1(co, _3517851_37, False);
 return;
 }
 } else {
-R[1] = sexp;
-saveCont(co, clofun142, 6, R);
-coraCall1(co, _3516803_37, False);
+R[1] = _3517848_37;
+saveCont(co, clofun146, 6, R);
+coraCall1(co, _3517851_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518401_37= co->res;
-Obj sexp = _3518401_37;
-Obj _3516803_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
-R[1] = _3516803_37;
-R[2] = sexp;
-saveCont(co, clofun142, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
+Obj _3519498_37= co->res;
+Obj _3517848_37 = _3519498_37;
+Obj _3517851_37 = makeNative(co->gc, 2, clofun145, 1, 1, _3517848_37);
+R[1] = _3517851_37;
+R[2] = _3517848_37;
+saveCont(co, clofun146, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517848_37);
 return;
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516804_37 = R[1];
-if (True == _3516804_37) {
-Obj _3518402_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518402_37);
+Obj _3517850_37 = R[1];
+if (True == _3517850_37) {
+Obj _3519499_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, _3519499_37);
 return;
 } else {
-Obj _3518403_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518403_37);
+Obj _3519500_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, _3519500_37);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516791_37 = R[1];
-Obj _3516792_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516791_37);
-Obj _3518394_37 = PRIM_ISCONS(_3516791_37);
-if (True == _3518394_37) {
-Obj _3518395_37 = PRIM_CAR(_3516791_37);
-Obj _3518396_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518395_37);
-if (True == _3518396_37) {
-Obj _3518397_37 = PRIM_CDR(_3516791_37);
-Obj more = _3518397_37;
-Obj _3518398_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3517577_37 = R[1];
+Obj _3517844_37 = makeNative(co->gc, 1, clofun141, 0, 1, _3517577_37);
+Obj _3519491_37 = PRIM_ISCONS(_3517577_37);
+if (True == _3519491_37) {
+Obj _3519492_37 = PRIM_CAR(_3517577_37);
+Obj _3519493_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519492_37);
+if (True == _3519493_37) {
+Obj _3519494_37 = PRIM_CDR(_3517577_37);
+Obj _3517847_37 = _3519494_37;
+Obj _3519495_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3517847_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518398_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519495_37, makeNative(co->gc, 2, clofun143, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3517844_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3517844_37);
 return;
 }
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun142, 2, 0));
 return;
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -724,49 +728,49 @@ return;
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516793_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj _3518389_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518389_37) {
-Obj _3518390_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518391_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518390_37);
-if (True == _3518391_37) {
-Obj _3518392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518392_37;
-Obj _3518393_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3517845_37 = makeNative(co->gc, 1, clofun138, 0, 1, closureRef(R[0], 0));
+Obj _3519486_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519486_37) {
+Obj _3519487_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519488_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519487_37);
+if (True == _3519488_37) {
+Obj _3519489_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517846_37 = _3519489_37;
+Obj _3519490_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517846_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518393_37, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519490_37, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3517845_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3517845_37);
 return;
 }
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -779,39 +783,39 @@ return;
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518386_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3519483_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518386_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3519483_37, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj type = R[1];
 Obj code = R[2];
-saveCont(co, clofun133, 1, R);
+saveCont(co, clofun137, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
 return;
 }
 case 1:
 {
-Obj _3518387_37= co->res;
-Obj _3518388_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518387_37);
-coraReturn(co, _3518388_37);
+Obj _3519484_37= co->res;
+Obj _3519485_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519484_37);
+coraReturn(co, _3519485_37);
 return;
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -819,7 +823,7 @@ Obj type = R[1];
 Obj code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), type, code);
 return;
 } else {
 coraReturn(co, code);
@@ -829,219 +833,219 @@ return;
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516784_37 = R[1];
-Obj _3516785_37 = R[2];
-Obj _3516786_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516784_37, _3516785_37);
-Obj _3518372_37 = PRIM_ISCONS(_3516784_37);
-if (True == _3518372_37) {
-Obj _3518373_37 = PRIM_CAR(_3516784_37);
-Obj _3518374_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518373_37);
-if (True == _3518374_37) {
-Obj _3518375_37 = PRIM_CDR(_3516784_37);
-Obj _3518376_37 = PRIM_ISCONS(_3518375_37);
-if (True == _3518376_37) {
-Obj _3518377_37 = PRIM_CDR(_3516784_37);
-Obj _3518378_37 = PRIM_CAR(_3518377_37);
-Obj name = _3518378_37;
-Obj _3518379_37 = PRIM_CDR(_3516784_37);
-Obj _3518380_37 = PRIM_CDR(_3518379_37);
-Obj more = _3518380_37;
-R[1] = name;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516785_37);
+Obj _3517570_37 = R[1];
+Obj _3517571_37 = R[2];
+Obj _3517833_37 = makeNative(co->gc, 2, clofun134, 0, 2, _3517570_37, _3517571_37);
+Obj _3519469_37 = PRIM_ISCONS(_3517570_37);
+if (True == _3519469_37) {
+Obj _3519470_37 = PRIM_CAR(_3517570_37);
+Obj _3519471_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519470_37);
+if (True == _3519471_37) {
+Obj _3519472_37 = PRIM_CDR(_3517570_37);
+Obj _3519473_37 = PRIM_ISCONS(_3519472_37);
+if (True == _3519473_37) {
+Obj _3519474_37 = PRIM_CDR(_3517570_37);
+Obj _3519475_37 = PRIM_CAR(_3519474_37);
+Obj _3517842_37 = _3519475_37;
+Obj _3519476_37 = PRIM_CDR(_3517570_37);
+Obj _3519477_37 = PRIM_CDR(_3519476_37);
+Obj _3517843_37 = _3519477_37;
+R[1] = _3517842_37;
+saveCont(co, clofun135, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517843_37, _3517571_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517833_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518381_37= co->res;
-Obj name = R[1];
-Obj _3518382_37 = makeCons(co->gc, name, _3518381_37);
-Obj _3518383_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518382_37);
-coraReturn(co, _3518383_37);
+Obj _3519478_37= co->res;
+Obj _3517842_37 = R[1];
+Obj _3519479_37 = makeCons(co->gc, _3517842_37, _3519478_37);
+Obj _3519480_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3519479_37);
+coraReturn(co, _3519480_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516787_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518351_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518351_37) {
-Obj _3518352_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518353_37 = PRIM_ISCONS(_3518352_37);
-if (True == _3518353_37) {
-Obj _3518354_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518355_37 = PRIM_CAR(_3518354_37);
-Obj _3518356_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518355_37);
-if (True == _3518356_37) {
-Obj _3518357_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518358_37 = PRIM_CDR(_3518357_37);
-Obj _3518359_37 = PRIM_ISCONS(_3518358_37);
-if (True == _3518359_37) {
-Obj _3518360_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518361_37 = PRIM_CDR(_3518360_37);
-Obj _3518362_37 = PRIM_CAR(_3518361_37);
-Obj pkg = _3518362_37;
-Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518364_37 = PRIM_CDR(_3518363_37);
-Obj _3518365_37 = PRIM_CDR(_3518364_37);
-Obj _3518366_37 = PRIM_EQ(Nil, _3518365_37);
-if (True == _3518366_37) {
-Obj _3518367_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518367_37;
-Obj _3518368_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518369_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518368_37);
-R[1] = _3518369_37;
-saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+Obj _3517834_37 = makeNative(co->gc, 2, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3519448_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519448_37) {
+Obj _3519449_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519450_37 = PRIM_ISCONS(_3519449_37);
+if (True == _3519450_37) {
+Obj _3519451_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519452_37 = PRIM_CAR(_3519451_37);
+Obj _3519453_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519452_37);
+if (True == _3519453_37) {
+Obj _3519454_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519455_37 = PRIM_CDR(_3519454_37);
+Obj _3519456_37 = PRIM_ISCONS(_3519455_37);
+if (True == _3519456_37) {
+Obj _3519457_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519458_37 = PRIM_CDR(_3519457_37);
+Obj _3519459_37 = PRIM_CAR(_3519458_37);
+Obj _3517840_37 = _3519459_37;
+Obj _3519460_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519461_37 = PRIM_CDR(_3519460_37);
+Obj _3519462_37 = PRIM_CDR(_3519461_37);
+Obj _3519463_37 = PRIM_EQ(Nil, _3519462_37);
+if (True == _3519463_37) {
+Obj _3519464_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517841_37 = _3519464_37;
+Obj _3519465_37 = makeCons(co->gc, _3517840_37, Nil);
+Obj _3519466_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3519465_37);
+R[1] = _3519466_37;
+saveCont(co, clofun134, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517841_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517834_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518370_37= co->res;
-Obj _3518369_37 = R[1];
-Obj _3518371_37 = makeCons(co->gc, _3518369_37, _3518370_37);
-coraReturn(co, _3518371_37);
+Obj _3519467_37= co->res;
+Obj _3519466_37 = R[1];
+Obj _3519468_37 = makeCons(co->gc, _3519466_37, _3519467_37);
+coraReturn(co, _3519468_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516788_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518339_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518339_37) {
-Obj _3518340_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518341_37 = PRIM_ISCONS(_3518340_37);
-if (True == _3518341_37) {
-Obj _3518342_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518343_37 = PRIM_CAR(_3518342_37);
-Obj _3518344_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518343_37);
-if (True == _3518344_37) {
-Obj _3518345_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518346_37 = PRIM_CDR(_3518345_37);
-Obj symbols = _3518346_37;
-Obj _3518347_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518347_37;
-Obj _3518348_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518348_37;
-saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+Obj _3517835_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3519436_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519436_37) {
+Obj _3519437_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519438_37 = PRIM_ISCONS(_3519437_37);
+if (True == _3519438_37) {
+Obj _3519439_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519440_37 = PRIM_CAR(_3519439_37);
+Obj _3519441_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519440_37);
+if (True == _3519441_37) {
+Obj _3519442_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519443_37 = PRIM_CDR(_3519442_37);
+Obj _3517838_37 = _3519443_37;
+Obj _3519444_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517839_37 = _3519444_37;
+Obj _3519445_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3517838_37);
+R[1] = _3519445_37;
+saveCont(co, clofun133, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517839_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517835_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517835_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517835_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518349_37= co->res;
-Obj _3518348_37 = R[1];
-Obj _3518350_37 = makeCons(co->gc, _3518348_37, _3518349_37);
-coraReturn(co, _3518350_37);
+Obj _3519446_37= co->res;
+Obj _3519445_37 = R[1];
+Obj _3519447_37 = makeCons(co->gc, _3519445_37, _3519446_37);
+coraReturn(co, _3519447_37);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516789_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518333_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518333_37) {
-Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518335_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518334_37);
-if (True == _3518335_37) {
-Obj _3518336_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518336_37;
-saveCont(co, clofun128, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+Obj _3517836_37 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3519430_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519430_37) {
+Obj _3519431_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519432_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519431_37);
+if (True == _3519432_37) {
+Obj _3519433_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517837_37 = _3519433_37;
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517837_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517836_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517836_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518337_37= co->res;
-Obj _3518338_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518337_37);
-coraReturn(co, _3518338_37);
+Obj _3519434_37= co->res;
+Obj _3519435_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519434_37);
+coraReturn(co, _3519435_37);
 return;
 }
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1052,147 +1056,147 @@ return;
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516776_37 = R[1];
-Obj _3516777_37 = R[2];
-Obj _3516778_37 = R[3];
-Obj _3516779_37 = R[4];
-Obj _3518294_37 = PRIM_EQ(Nil, _3516776_37);
-if (True == _3518294_37) {
-R[1] = _3516778_37;
-R[2] = _3516779_37;
-saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516777_37);
+Obj _3517562_37 = R[1];
+Obj _3517563_37 = R[2];
+Obj _3517564_37 = R[3];
+Obj _3517565_37 = R[4];
+Obj _3519391_37 = PRIM_EQ(Nil, _3517562_37);
+if (True == _3519391_37) {
+R[1] = _3517564_37;
+R[2] = _3517565_37;
+saveCont(co, clofun130, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517563_37);
 return;
 } else {
-Obj _3516781_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516776_37, _3516777_37, _3516778_37, _3516779_37);
-Obj _3518321_37 = PRIM_ISCONS(_3516776_37);
-if (True == _3518321_37) {
-Obj _3518322_37 = PRIM_CAR(_3516776_37);
-Obj _3518323_37 = PRIM_ISCONS(_3518322_37);
-if (True == _3518323_37) {
-Obj _3518324_37 = PRIM_CAR(_3516776_37);
-Obj _3518325_37 = PRIM_CAR(_3518324_37);
-Obj _3518326_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518325_37);
-if (True == _3518326_37) {
-Obj _3518327_37 = PRIM_CAR(_3516776_37);
-Obj _3518328_37 = PRIM_CDR(_3518327_37);
-Obj exp = _3518328_37;
-Obj _3518329_37 = PRIM_CDR(_3516776_37);
-Obj more = _3518329_37;
-Obj _3518330_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518331_37 = makeCons(co->gc, _3518330_37, _3516777_37);
+Obj _3517825_37 = makeNative(co->gc, 1, clofun129, 0, 4, _3517562_37, _3517563_37, _3517564_37, _3517565_37);
+Obj _3519418_37 = PRIM_ISCONS(_3517562_37);
+if (True == _3519418_37) {
+Obj _3519419_37 = PRIM_CAR(_3517562_37);
+Obj _3519420_37 = PRIM_ISCONS(_3519419_37);
+if (True == _3519420_37) {
+Obj _3519421_37 = PRIM_CAR(_3517562_37);
+Obj _3519422_37 = PRIM_CAR(_3519421_37);
+Obj _3519423_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3519422_37);
+if (True == _3519423_37) {
+Obj _3519424_37 = PRIM_CAR(_3517562_37);
+Obj _3519425_37 = PRIM_CDR(_3519424_37);
+Obj _3517831_37 = _3519425_37;
+Obj _3519426_37 = PRIM_CDR(_3517562_37);
+Obj _3517832_37 = _3519426_37;
+Obj _3519427_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517831_37);
+Obj _3519428_37 = makeCons(co->gc, _3519427_37, _3517563_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518331_37, _3516778_37, _3516779_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517832_37, _3519428_37, _3517564_37, _3517565_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516781_37);
+coraCall0(co, _3517825_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516781_37);
+coraCall0(co, _3517825_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516781_37);
+coraCall0(co, _3517825_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518296_37= co->res;
-Obj _3516779_37 = R[1];
-Obj _3518295_37 = R[2];
+Obj _3519393_37= co->res;
+Obj _3517565_37 = R[1];
+Obj _3519392_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516779_37, _3518295_37, _3518296_37);
+coraCall2(co, _3517565_37, _3519392_37, _3519393_37);
 return;
 }
 case 2:
 {
-Obj _3518295_37= co->res;
-Obj _3516778_37 = R[1];
-Obj _3516779_37 = R[2];
-R[1] = _3516779_37;
-R[2] = _3518295_37;
-saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516778_37);
+Obj _3519392_37= co->res;
+Obj _3517564_37 = R[1];
+Obj _3517565_37 = R[2];
+R[1] = _3517565_37;
+R[2] = _3519392_37;
+saveCont(co, clofun130, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517564_37);
 return;
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516782_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518310_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518310_37) {
-Obj _3518311_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
-if (True == _3518312_37) {
-Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_CAR(_3518313_37);
-Obj _3518315_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj exp = _3518317_37;
-Obj _3518318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518318_37;
-Obj _3518319_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518320_37 = makeCons(co->gc, _3518319_37, closureRef(R[0], 1));
+Obj _3517826_37 = makeNative(co->gc, 1, clofun128, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3519407_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519407_37) {
+Obj _3519408_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519409_37 = PRIM_ISCONS(_3519408_37);
+if (True == _3519409_37) {
+Obj _3519410_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519411_37 = PRIM_CAR(_3519410_37);
+Obj _3519412_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3519411_37);
+if (True == _3519412_37) {
+Obj _3519413_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519414_37 = PRIM_CDR(_3519413_37);
+Obj _3517829_37 = _3519414_37;
+Obj _3519415_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517830_37 = _3519415_37;
+Obj _3519416_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, _3517829_37);
+Obj _3519417_37 = makeCons(co->gc, _3519416_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518320_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517830_37, _3519417_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516782_37);
+coraCall0(co, _3517826_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516782_37);
+coraCall0(co, _3517826_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516782_37);
+coraCall0(co, _3517826_37);
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518297_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518298_37;
-Obj _3518299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518299_37;
-Obj _3518300_37 = makeCons(co->gc, exp, Nil);
-Obj _3518301_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518300_37);
-Obj _3518302_37 = makeCons(co->gc, _3518301_37, Nil);
-Obj _3518303_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518302_37);
-Obj _3518304_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518305_37 = makeCons(co->gc, _3518304_37, Nil);
-Obj _3518306_37 = makeCons(co->gc, _3518303_37, _3518305_37);
-Obj _3518307_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518306_37);
-Obj _3518308_37 = makeCons(co->gc, _3518307_37, closureRef(R[0], 1));
-Obj _3518309_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3519394_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519394_37) {
+Obj _3519395_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517827_37 = _3519395_37;
+Obj _3519396_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517828_37 = _3519396_37;
+Obj _3519397_37 = makeCons(co->gc, _3517827_37, Nil);
+Obj _3519398_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3519397_37);
+Obj _3519399_37 = makeCons(co->gc, _3519398_37, Nil);
+Obj _3519400_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3519399_37);
+Obj _3519401_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj _3519402_37 = makeCons(co->gc, _3519401_37, Nil);
+Obj _3519403_37 = makeCons(co->gc, _3519400_37, _3519402_37);
+Obj _3519404_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3519403_37);
+Obj _3519405_37 = makeCons(co->gc, _3519404_37, closureRef(R[0], 1));
+Obj _3519406_37 = makeCons(co->gc, _3517827_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518308_37, _3518309_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517828_37, _3519405_37, _3519406_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1203,187 +1207,187 @@ return;
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516770_37 = R[1];
-Obj _3516771_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516770_37);
-Obj _3518284_37 = PRIM_ISCONS(_3516770_37);
-if (True == _3518284_37) {
-Obj _3518285_37 = PRIM_CAR(_3516770_37);
-Obj _3518286_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518285_37);
-if (True == _3518286_37) {
-Obj _3518287_37 = PRIM_CDR(_3516770_37);
-Obj _3518288_37 = PRIM_ISCONS(_3518287_37);
-if (True == _3518288_37) {
-Obj _3518289_37 = PRIM_CDR(_3516770_37);
-Obj _3518290_37 = PRIM_CAR(_3518289_37);
-Obj _3518291_37 = PRIM_CDR(_3516770_37);
-Obj _3518292_37 = PRIM_CDR(_3518291_37);
-Obj remain = _3518292_37;
+Obj _3517556_37 = R[1];
+Obj _3517816_37 = makeNative(co->gc, 1, clofun126, 0, 1, _3517556_37);
+Obj _3519381_37 = PRIM_ISCONS(_3517556_37);
+if (True == _3519381_37) {
+Obj _3519382_37 = PRIM_CAR(_3517556_37);
+Obj _3519383_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519382_37);
+if (True == _3519383_37) {
+Obj _3519384_37 = PRIM_CDR(_3517556_37);
+Obj _3519385_37 = PRIM_ISCONS(_3519384_37);
+if (True == _3519385_37) {
+Obj _3519386_37 = PRIM_CDR(_3517556_37);
+Obj _3519387_37 = PRIM_CAR(_3519386_37);
+Obj _3519388_37 = PRIM_CDR(_3517556_37);
+Obj _3519389_37 = PRIM_CDR(_3519388_37);
+Obj _3517824_37 = _3519389_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517824_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3517816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3517816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516771_37);
+coraCall0(co, _3517816_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516772_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518280_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518280_37) {
-Obj _3518281_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518282_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518281_37);
-if (True == _3518282_37) {
-Obj _3518283_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518283_37;
+Obj _3517817_37 = makeNative(co->gc, 1, clofun125, 0, 1, closureRef(R[0], 0));
+Obj _3519377_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519377_37) {
+Obj _3519378_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519379_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519378_37);
+if (True == _3519379_37) {
+Obj _3519380_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517823_37 = _3519380_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517823_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516772_37);
+coraCall0(co, _3517817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516772_37);
+coraCall0(co, _3517817_37);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516773_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj _3518271_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518271_37) {
-Obj _3518272_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518273_37 = PRIM_ISCONS(_3518272_37);
-if (True == _3518273_37) {
-Obj _3518274_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518275_37 = PRIM_CAR(_3518274_37);
-Obj _3518276_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518275_37);
-if (True == _3518276_37) {
-Obj _3518277_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518278_37 = PRIM_CDR(_3518277_37);
-Obj _3518279_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518279_37;
+Obj _3517818_37 = makeNative(co->gc, 2, clofun124, 0, 1, closureRef(R[0], 0));
+Obj _3519368_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519368_37) {
+Obj _3519369_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519370_37 = PRIM_ISCONS(_3519369_37);
+if (True == _3519370_37) {
+Obj _3519371_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519372_37 = PRIM_CAR(_3519371_37);
+Obj _3519373_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519372_37);
+if (True == _3519373_37) {
+Obj _3519374_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519375_37 = PRIM_CDR(_3519374_37);
+Obj _3519376_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517822_37 = _3519376_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517822_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516773_37);
+coraCall0(co, _3517818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516773_37);
+coraCall0(co, _3517818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516773_37);
+coraCall0(co, _3517818_37);
 return;
 }
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516774_37 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj _3518253_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518253_37) {
-Obj _3518254_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518255_37 = PRIM_ISCONS(_3518254_37);
-if (True == _3518255_37) {
-Obj _3518256_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518257_37 = PRIM_CAR(_3518256_37);
-Obj _3518258_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518257_37);
-if (True == _3518258_37) {
-Obj _3518259_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518260_37 = PRIM_CDR(_3518259_37);
-Obj _3518261_37 = PRIM_ISCONS(_3518260_37);
-if (True == _3518261_37) {
-Obj _3518262_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518263_37 = PRIM_CDR(_3518262_37);
-Obj _3518264_37 = PRIM_CAR(_3518263_37);
-Obj pkg = _3518264_37;
-Obj _3518265_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518266_37 = PRIM_CDR(_3518265_37);
-Obj _3518267_37 = PRIM_CDR(_3518266_37);
-Obj _3518268_37 = PRIM_EQ(Nil, _3518267_37);
-if (True == _3518268_37) {
-Obj _3518269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518269_37;
-R[1] = remain;
-saveCont(co, clofun120, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
+Obj _3517819_37 = makeNative(co->gc, 1, clofun123, 0, 0);
+Obj _3519350_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519350_37) {
+Obj _3519351_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519352_37 = PRIM_ISCONS(_3519351_37);
+if (True == _3519352_37) {
+Obj _3519353_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519354_37 = PRIM_CAR(_3519353_37);
+Obj _3519355_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519354_37);
+if (True == _3519355_37) {
+Obj _3519356_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519357_37 = PRIM_CDR(_3519356_37);
+Obj _3519358_37 = PRIM_ISCONS(_3519357_37);
+if (True == _3519358_37) {
+Obj _3519359_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519360_37 = PRIM_CDR(_3519359_37);
+Obj _3519361_37 = PRIM_CAR(_3519360_37);
+Obj _3517820_37 = _3519361_37;
+Obj _3519362_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519363_37 = PRIM_CDR(_3519362_37);
+Obj _3519364_37 = PRIM_CDR(_3519363_37);
+Obj _3519365_37 = PRIM_EQ(Nil, _3519364_37);
+if (True == _3519365_37) {
+Obj _3519366_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517821_37 = _3519366_37;
+R[1] = _3517821_37;
+saveCont(co, clofun124, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3517820_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, _3517819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, _3517819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, _3517819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, _3517819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516774_37);
+coraCall0(co, _3517819_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518270_37= co->res;
-Obj remain = R[1];
+Obj _3519367_37= co->res;
+Obj _3517821_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517821_37);
 return;
 }
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1393,7 +1397,7 @@ return;
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1403,102 +1407,102 @@ Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 7, R);
+saveCont(co, clofun122, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518251_37= co->res;
+Obj _3519348_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun121, 1, 2, to, globals), bc);
 return;
 }
 case 2:
 {
-Obj _3518250_37= co->res;
+Obj _3519347_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518250_37);
+saveCont(co, clofun122, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3519347_37);
 return;
 }
 case 3:
 {
-Obj _3518249_37= co->res;
+Obj _3519346_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 2, R);
+saveCont(co, clofun122, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
 return;
 }
 case 4:
 {
-Obj _3518248_37= co->res;
+Obj _3519345_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 3, R);
+saveCont(co, clofun122, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 5:
 {
-Obj _3518245_37= co->res;
+Obj _3519342_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, to), bc);
+saveCont(co, clofun122, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 1, to), bc);
 return;
 }
 case 6:
 {
-Obj _3518244_37= co->res;
+Obj _3519341_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 5, R);
+saveCont(co, clofun122, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 7:
 {
-Obj _3518243_37= co->res;
+Obj _3519340_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 6, R);
+saveCont(co, clofun122, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1510,19 +1514,19 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518246_37 = PRIM_CAR(group);
-saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518246_37);
+Obj _3519343_37 = PRIM_CAR(group);
+saveCont(co, clofun120, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3519343_37);
 return;
 }
 case 1:
 {
-Obj _3518247_37= co->res;
+Obj _3519344_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1530,7 +1534,7 @@ return;
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1540,13 +1544,13 @@ Obj label = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 11, R);
+saveCont(co, clofun119, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518241_37= co->res;
+Obj _3519338_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1554,126 +1558,126 @@ return;
 }
 case 2:
 {
-Obj _3518240_37= co->res;
+Obj _3519337_37= co->res;
 Obj to = R[1];
 R[1] = to;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun119, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3518239_37= co->res;
+Obj _3519336_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = to;
-saveCont(co, clofun115, 2, R);
+saveCont(co, clofun119, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
 return;
 }
 case 4:
 {
-Obj _3518238_37= co->res;
+Obj _3519335_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 3, R);
+saveCont(co, clofun119, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj _3518237_37= co->res;
+Obj _3519334_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun119, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 6:
 {
-Obj _3518229_37= co->res;
+Obj _3519326_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, to), MAKE_NUMBER(0), globals);
+saveCont(co, clofun119, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun118, 2, 1, to), MAKE_NUMBER(0), globals);
 return;
 }
 case 7:
 {
-Obj _3518228_37= co->res;
+Obj _3519325_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun119, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 8:
 {
-Obj _3518227_37= co->res;
+Obj _3519324_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518227_37);
+saveCont(co, clofun119, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3519324_37);
 return;
 }
 case 9:
 {
-Obj _3518226_37= co->res;
+Obj _3519323_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+saveCont(co, clofun119, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), globals);
 return;
 }
 case 10:
 {
-Obj _3518225_37= co->res;
+Obj _3519322_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 9, R);
+saveCont(co, clofun119, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 11:
 {
-Obj _3518224_37= co->res;
+Obj _3519321_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = globals;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 10, R);
+saveCont(co, clofun119, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1681,90 +1685,90 @@ Obj acc = R[1];
 Obj sym = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 6, R);
+saveCont(co, clofun118, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3518235_37= co->res;
+Obj _3519332_37= co->res;
 Obj acc = R[1];
-Obj _3518236_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518236_37);
+Obj _3519333_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3519333_37);
 return;
 }
 case 2:
 {
-Obj _3518234_37= co->res;
+Obj _3519331_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun118, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3518233_37= co->res;
+Obj _3519330_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518233_37);
+saveCont(co, clofun118, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3519330_37);
 return;
 }
 case 4:
 {
-Obj _3518232_37= co->res;
+Obj _3519329_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun114, 3, R);
+saveCont(co, clofun118, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
 return;
 }
 case 5:
 {
-Obj _3518231_37= co->res;
+Obj _3519328_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun118, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 6:
 {
-Obj _3518230_37= co->res;
+Obj _3519327_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 5, R);
+saveCont(co, clofun118, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518202_37 = PRIM_CAR(group);
-Obj label = _3518202_37;
+Obj _3519299_37 = PRIM_CAR(group);
+Obj _3517812_37 = _3519299_37;
 R[1] = globals;
-R[2] = label;
+R[2] = _3517812_37;
 R[3] = to;
-saveCont(co, clofun113, 13, R);
+saveCont(co, clofun117, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
 return;
 }
 case 1:
 {
-Obj _3518222_37= co->res;
+Obj _3519319_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
@@ -1772,205 +1776,205 @@ return;
 }
 case 2:
 {
-Obj _3518221_37= co->res;
+Obj _3519318_37= co->res;
 Obj to = R[1];
 R[1] = to;
-saveCont(co, clofun113, 1, R);
+saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518220_37= co->res;
+Obj _3519317_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517812_37 = R[2];
+Obj _3517813_37 = R[3];
 Obj to = R[4];
 R[1] = to;
-saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518220_37);
+saveCont(co, clofun117, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun116, 2, 4, globals, _3517812_37, _3517813_37, to), MAKE_NUMBER(1), _3519317_37);
 return;
 }
 case 4:
 {
-Obj _3518212_37= co->res;
+Obj _3519309_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517812_37 = R[2];
+Obj _3517813_37 = R[3];
 Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517812_37;
+R[3] = _3517813_37;
 R[4] = to;
-saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+saveCont(co, clofun117, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), _3517813_37);
 return;
 }
 case 5:
 {
-Obj _3518211_37= co->res;
+Obj _3519308_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517812_37 = R[2];
+Obj _3517813_37 = R[3];
 Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517812_37;
+R[3] = _3517813_37;
 R[4] = to;
-saveCont(co, clofun113, 4, R);
+saveCont(co, clofun117, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3518210_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519307_37= co->res;
+Obj _3517814_37 = R[1];
+Obj _3517815_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517812_37 = R[4];
+Obj _3517813_37 = R[5];
 Obj to = R[6];
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517812_37;
+R[3] = _3517813_37;
 R[4] = to;
-saveCont(co, clofun113, 5, R);
-Obj __args[5] = {globals, label, params, to, first_45stmt};
+saveCont(co, clofun117, 5, R);
+Obj __args[5] = {globals, _3517812_37, _3517814_37, to, _3517815_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518209_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519306_37= co->res;
+Obj _3517814_37 = R[1];
+Obj _3517815_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517812_37 = R[4];
+Obj _3517813_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517814_37;
+R[2] = _3517815_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517812_37;
+R[5] = _3517813_37;
 R[6] = to;
-saveCont(co, clofun113, 6, R);
-Obj __args[5] = {globals, label, Nil, to, params};
+saveCont(co, clofun117, 6, R);
+Obj __args[5] = {globals, _3517812_37, Nil, to, _3517814_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3518208_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519305_37= co->res;
+Obj _3517814_37 = R[1];
+Obj _3517815_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517812_37 = R[4];
+Obj _3517813_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517814_37;
+R[2] = _3517815_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517812_37;
+R[5] = _3517813_37;
 R[6] = to;
-saveCont(co, clofun113, 7, R);
+saveCont(co, clofun117, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3518207_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519304_37= co->res;
+Obj _3517814_37 = R[1];
+Obj _3517815_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517812_37 = R[4];
+Obj _3517813_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517814_37;
+R[2] = _3517815_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517812_37;
+R[5] = _3517813_37;
 R[6] = to;
-saveCont(co, clofun113, 8, R);
+saveCont(co, clofun117, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3518206_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519303_37= co->res;
+Obj _3517814_37 = R[1];
+Obj _3517815_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517812_37 = R[4];
+Obj _3517813_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517814_37;
+R[2] = _3517815_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517812_37;
+R[5] = _3517813_37;
 R[6] = to;
-saveCont(co, clofun113, 9, R);
+saveCont(co, clofun117, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3518205_37= co->res;
-Obj params = R[1];
+Obj _3519302_37= co->res;
+Obj _3517814_37 = R[1];
 Obj globals = R[2];
-Obj label = R[3];
-Obj lam = R[4];
+Obj _3517812_37 = R[3];
+Obj _3517813_37 = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518205_37;
-R[1] = params;
-R[2] = first_45stmt;
+Obj _3517815_37 = _3519302_37;
+R[1] = _3517814_37;
+R[2] = _3517815_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517812_37;
+R[5] = _3517813_37;
 R[6] = to;
-saveCont(co, clofun113, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, label);
+saveCont(co, clofun117, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, _3517812_37);
 return;
 }
 case 12:
 {
-Obj _3518204_37= co->res;
+Obj _3519301_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517812_37 = R[2];
+Obj _3517813_37 = R[3];
 Obj to = R[4];
-Obj params = _3518204_37;
-R[1] = params;
+Obj _3517814_37 = _3519301_37;
+R[1] = _3517814_37;
 R[2] = globals;
-R[3] = label;
-R[4] = lam;
+R[3] = _3517812_37;
+R[4] = _3517813_37;
 R[5] = to;
-saveCont(co, clofun113, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
+saveCont(co, clofun117, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517813_37);
 return;
 }
 case 13:
 {
-Obj _3518203_37= co->res;
+Obj _3519300_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
+Obj _3517812_37 = R[2];
 Obj to = R[3];
-Obj lam = _3518203_37;
+Obj _3517813_37 = _3519300_37;
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517812_37;
+R[3] = _3517813_37;
 R[4] = to;
-saveCont(co, clofun113, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+saveCont(co, clofun117, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517813_37);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1978,95 +1982,95 @@ Obj acc = R[1];
 Obj cont = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 6, R);
+saveCont(co, clofun116, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3518218_37= co->res;
+Obj _3519315_37= co->res;
 Obj acc = R[1];
-Obj _3518219_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518219_37);
+Obj _3519316_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3519316_37);
 return;
 }
 case 2:
 {
-Obj _3518217_37= co->res;
+Obj _3519314_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun112, 1, R);
+saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518216_37= co->res;
+Obj _3519313_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518216_37, closureRef(R[0], 3), cont};
+saveCont(co, clofun116, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3519313_37, closureRef(R[0], 3), cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518215_37= co->res;
+Obj _3519312_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 3, R);
+saveCont(co, clofun116, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3518214_37= co->res;
+Obj _3519311_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 4, R);
+saveCont(co, clofun116, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3518213_37= co->res;
+Obj _3519310_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 5, R);
+saveCont(co, clofun116, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516766_37 = R[1];
-Obj _3516767_37 = R[2];
-Obj _3518196_37 = PRIM_EQ(Nil, _3516767_37);
-if (True == _3518196_37) {
+Obj _3517552_37 = R[1];
+Obj _3517553_37 = R[2];
+Obj _3519293_37 = PRIM_EQ(Nil, _3517553_37);
+if (True == _3519293_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518197_37 = PRIM_ISCONS(_3516767_37);
-if (True == _3518197_37) {
-Obj _3518198_37 = PRIM_CAR(_3516767_37);
-Obj x = _3518198_37;
-Obj _3518199_37 = PRIM_CDR(_3516767_37);
-Obj y = _3518199_37;
-R[1] = _3516766_37;
-R[2] = y;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, _3516766_37, x);
+Obj _3519294_37 = PRIM_ISCONS(_3517553_37);
+if (True == _3519294_37) {
+Obj _3519295_37 = PRIM_CAR(_3517553_37);
+Obj _3517810_37 = _3519295_37;
+Obj _3519296_37 = PRIM_CDR(_3517553_37);
+Obj _3517811_37 = _3519296_37;
+R[1] = _3517552_37;
+R[2] = _3517811_37;
+saveCont(co, clofun115, 1, R);
+coraCall1(co, _3517552_37, _3517810_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2077,119 +2081,119 @@ return;
 }
 case 1:
 {
-Obj _3518200_37= co->res;
-Obj _3516766_37 = R[1];
-Obj y = R[2];
+Obj _3519297_37= co->res;
+Obj _3517552_37 = R[1];
+Obj _3517811_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516766_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3517552_37, _3517811_37);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj globals = R[1];
 Obj exp = R[2];
 R[1] = exp;
-saveCont(co, clofun110, 5, R);
+saveCont(co, clofun114, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
 return;
 }
 case 1:
 {
-Obj _3518194_37= co->res;
+Obj _3519291_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518194_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3519291_37);
 return;
 }
 case 2:
 {
-Obj _3518193_37= co->res;
-saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518193_37);
+Obj _3519290_37= co->res;
+saveCont(co, clofun114, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3519290_37);
 return;
 }
 case 3:
 {
-Obj _3518192_37= co->res;
-saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518192_37);
+Obj _3519289_37= co->res;
+saveCont(co, clofun114, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3519289_37);
 return;
 }
 case 4:
 {
-Obj _3518191_37= co->res;
-saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518191_37);
+Obj _3519288_37= co->res;
+saveCont(co, clofun114, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3519288_37);
 return;
 }
 case 5:
 {
-Obj _3518190_37= co->res;
+Obj _3519287_37= co->res;
 Obj exp = R[1];
-saveCont(co, clofun110, 4, R);
-coraCall1(co, _3518190_37, exp);
+saveCont(co, clofun114, 4, R);
+coraCall1(co, _3519287_37, exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun109, 2, R);
+saveCont(co, clofun113, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
 return;
 }
 case 1:
 {
-Obj _3518188_37= co->res;
-Obj obj = R[1];
-Obj fns = _3518188_37;
+Obj _3519285_37= co->res;
+Obj _3517808_37 = R[1];
+Obj _3517809_37 = _3519285_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3517808_37, _3517809_37);
 return;
 }
 case 2:
 {
-Obj _3518187_37= co->res;
+Obj _3519284_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518187_37;
-R[1] = obj;
-saveCont(co, clofun109, 1, R);
+Obj _3517808_37 = _3519284_37;
+R[1] = _3517808_37;
+saveCont(co, clofun113, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
 return;
 }
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = R[1];
-Obj _3516763_37 = R[2];
-Obj _3518180_37 = PRIM_EQ(Nil, _3516763_37);
-if (True == _3518180_37) {
-coraReturn(co, _3516762_37);
+Obj _3517548_37 = R[1];
+Obj _3517549_37 = R[2];
+Obj _3519277_37 = PRIM_EQ(Nil, _3517549_37);
+if (True == _3519277_37) {
+coraReturn(co, _3517548_37);
 return;
 } else {
-Obj _3518181_37 = PRIM_ISCONS(_3516763_37);
-if (True == _3518181_37) {
-Obj _3518182_37 = PRIM_CAR(_3516763_37);
-Obj hd = _3518182_37;
-Obj _3518183_37 = PRIM_CDR(_3516763_37);
-Obj more = _3518183_37;
-Obj _3518184_37 = makeCons(co->gc, _3516762_37, Nil);
-Obj _3518185_37 = makeCons(co->gc, hd, _3518184_37);
+Obj _3519278_37 = PRIM_ISCONS(_3517549_37);
+if (True == _3519278_37) {
+Obj _3519279_37 = PRIM_CAR(_3517549_37);
+Obj _3517806_37 = _3519279_37;
+Obj _3519280_37 = PRIM_CDR(_3517549_37);
+Obj _3517807_37 = _3519280_37;
+Obj _3519281_37 = makeCons(co->gc, _3517548_37, Nil);
+Obj _3519282_37 = makeCons(co->gc, _3517806_37, _3519281_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518185_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3519282_37, _3517807_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2201,80 +2205,80 @@ return;
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun107, 6, R);
+saveCont(co, clofun111, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3518178_37= co->res;
-Obj v = R[1];
+Obj _3519275_37= co->res;
+Obj _3517803_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517803_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3518177_37= co->res;
-Obj v = R[1];
-Obj e2 = _3518177_37;
-R[1] = v;
-saveCont(co, clofun107, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
+Obj _3519274_37= co->res;
+Obj _3517803_37 = R[1];
+Obj _3517805_37 = _3519274_37;
+R[1] = _3517803_37;
+saveCont(co, clofun111, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517803_37, _3517805_37);
 return;
 }
 case 3:
 {
-Obj _3518176_37= co->res;
-Obj v = R[1];
-Obj e1 = _3518176_37;
-R[1] = v;
-saveCont(co, clofun107, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
+Obj _3519273_37= co->res;
+Obj _3517803_37 = R[1];
+Obj _3517804_37 = _3519273_37;
+R[1] = _3517803_37;
+saveCont(co, clofun111, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, _3517804_37);
 return;
 }
 case 4:
 {
-Obj _3518175_37= co->res;
+Obj _3519272_37= co->res;
 Obj exp = R[1];
-Obj v = R[2];
-R[1] = v;
-saveCont(co, clofun107, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, exp);
+Obj _3517803_37 = R[2];
+R[1] = _3517803_37;
+saveCont(co, clofun111, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517803_37, exp);
 return;
 }
 case 5:
 {
-Obj _3518174_37= co->res;
+Obj _3519271_37= co->res;
 Obj exp = R[1];
-Obj v = R[2];
+Obj _3517803_37 = R[2];
 R[1] = exp;
-R[2] = v;
-saveCont(co, clofun107, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), Nil);
+R[2] = _3517803_37;
+saveCont(co, clofun111, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517803_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3518173_37= co->res;
+Obj _3519270_37= co->res;
 Obj exp = R[1];
-Obj v = _3518173_37;
+Obj _3517803_37 = _3519270_37;
 R[1] = exp;
-R[2] = v;
-saveCont(co, clofun107, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+R[2] = _3517803_37;
+saveCont(co, clofun111, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517803_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2286,7 +2290,7 @@ return;
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2298,7 +2302,7 @@ return;
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2310,7 +2314,7 @@ return;
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2323,7 +2327,7 @@ return;
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2331,13 +2335,13 @@ Obj w = R[1];
 Obj label = R[2];
 R[1] = label;
 R[2] = w;
-saveCont(co, clofun102, 3, R);
+saveCont(co, clofun106, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3518167_37= co->res;
+Obj _3519264_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
@@ -2345,27 +2349,27 @@ return;
 }
 case 2:
 {
-Obj _3518166_37= co->res;
+Obj _3519263_37= co->res;
 Obj w = R[1];
 R[1] = w;
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun106, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3518165_37= co->res;
+Obj _3519262_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
-saveCont(co, clofun102, 2, R);
+saveCont(co, clofun106, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2373,13 +2377,13 @@ Obj w = R[1];
 Obj label = R[2];
 R[1] = w;
 R[2] = label;
-saveCont(co, clofun101, 1, R);
+saveCont(co, clofun105, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3518163_37= co->res;
+Obj _3519260_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
@@ -2389,146 +2393,146 @@ return;
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516756_37 = R[1];
-Obj _3516757_37 = R[2];
-Obj _3516758_37 = R[3];
-Obj _3516759_37 = R[4];
-Obj _3516760_37 = R[5];
-Obj _3516761_37 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj _3518141_37 = PRIM_ISCONS(_3516760_37);
-if (True == _3518141_37) {
-Obj _3518142_37 = PRIM_CAR(_3516760_37);
-Obj _3518143_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518142_37);
-if (True == _3518143_37) {
-Obj _3518144_37 = PRIM_CDR(_3516760_37);
-Obj _3518145_37 = PRIM_ISCONS(_3518144_37);
-if (True == _3518145_37) {
-Obj _3518146_37 = PRIM_CDR(_3516760_37);
-Obj _3518147_37 = PRIM_CAR(_3518146_37);
-Obj var = _3518147_37;
-Obj _3518148_37 = PRIM_CDR(_3516760_37);
-Obj _3518149_37 = PRIM_CDR(_3518148_37);
-Obj _3518150_37 = PRIM_ISCONS(_3518149_37);
-if (True == _3518150_37) {
-Obj _3518151_37 = PRIM_CDR(_3516760_37);
-Obj _3518152_37 = PRIM_CDR(_3518151_37);
-Obj _3518153_37 = PRIM_CAR(_3518152_37);
-Obj body = _3518153_37;
-Obj _3518154_37 = PRIM_CDR(_3516760_37);
-Obj _3518155_37 = PRIM_CDR(_3518154_37);
-Obj _3518156_37 = PRIM_CDR(_3518155_37);
-Obj fvs = _3518156_37;
-R[1] = var;
-R[2] = fvs;
-R[3] = _3516756_37;
-R[4] = _3516757_37;
-R[5] = _3516758_37;
-R[6] = _3516759_37;
-R[7] = body;
-saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516759_37, makeCString(co->gc, "Obj "));
+Obj _3517542_37 = R[1];
+Obj _3517543_37 = R[2];
+Obj _3517544_37 = R[3];
+Obj _3517545_37 = R[4];
+Obj _3517546_37 = R[5];
+Obj _3517799_37 = makeNative(co->gc, 1, clofun103, 0, 0);
+Obj _3519238_37 = PRIM_ISCONS(_3517546_37);
+if (True == _3519238_37) {
+Obj _3519239_37 = PRIM_CAR(_3517546_37);
+Obj _3519240_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3519239_37);
+if (True == _3519240_37) {
+Obj _3519241_37 = PRIM_CDR(_3517546_37);
+Obj _3519242_37 = PRIM_ISCONS(_3519241_37);
+if (True == _3519242_37) {
+Obj _3519243_37 = PRIM_CDR(_3517546_37);
+Obj _3519244_37 = PRIM_CAR(_3519243_37);
+Obj _3517800_37 = _3519244_37;
+Obj _3519245_37 = PRIM_CDR(_3517546_37);
+Obj _3519246_37 = PRIM_CDR(_3519245_37);
+Obj _3519247_37 = PRIM_ISCONS(_3519246_37);
+if (True == _3519247_37) {
+Obj _3519248_37 = PRIM_CDR(_3517546_37);
+Obj _3519249_37 = PRIM_CDR(_3519248_37);
+Obj _3519250_37 = PRIM_CAR(_3519249_37);
+Obj _3517801_37 = _3519250_37;
+Obj _3519251_37 = PRIM_CDR(_3517546_37);
+Obj _3519252_37 = PRIM_CDR(_3519251_37);
+Obj _3519253_37 = PRIM_CDR(_3519252_37);
+Obj _3517802_37 = _3519253_37;
+R[1] = _3517800_37;
+R[2] = _3517802_37;
+R[3] = _3517542_37;
+R[4] = _3517543_37;
+R[5] = _3517544_37;
+R[6] = _3517545_37;
+R[7] = _3517801_37;
+saveCont(co, clofun104, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517545_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3517799_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3517799_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3517799_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516761_37);
+coraCall0(co, _3517799_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518161_37= co->res;
-Obj _3516756_37 = R[1];
-Obj _3516757_37 = R[2];
-Obj _3516758_37 = R[3];
-Obj _3516759_37 = R[4];
-Obj body = R[5];
+Obj _3519258_37= co->res;
+Obj _3517542_37 = R[1];
+Obj _3517543_37 = R[2];
+Obj _3517544_37 = R[3];
+Obj _3517545_37 = R[4];
+Obj _3517801_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516756_37, _3516757_37, _3516758_37, _3516759_37, body};
+Obj __args[5] = {_3517542_37, _3517543_37, _3517544_37, _3517545_37, _3517801_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518160_37= co->res;
-Obj fvs = R[1];
-Obj _3516756_37 = R[2];
-Obj _3516757_37 = R[3];
-Obj _3516758_37 = R[4];
-Obj _3516759_37 = R[5];
-Obj body = R[6];
-R[1] = _3516756_37;
-R[2] = _3516757_37;
-R[3] = _3516758_37;
-R[4] = _3516759_37;
-R[5] = body;
-saveCont(co, clofun100, 1, R);
-Obj __args[5] = {_3516756_37, _3516757_37, _3516758_37, _3516759_37, fvs};
+Obj _3519257_37= co->res;
+Obj _3517802_37 = R[1];
+Obj _3517542_37 = R[2];
+Obj _3517543_37 = R[3];
+Obj _3517544_37 = R[4];
+Obj _3517545_37 = R[5];
+Obj _3517801_37 = R[6];
+R[1] = _3517542_37;
+R[2] = _3517543_37;
+R[3] = _3517544_37;
+R[4] = _3517545_37;
+R[5] = _3517801_37;
+saveCont(co, clofun104, 1, R);
+Obj __args[5] = {_3517542_37, _3517543_37, _3517544_37, _3517545_37, _3517802_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518159_37= co->res;
-Obj fvs = R[1];
-Obj _3516756_37 = R[2];
-Obj _3516757_37 = R[3];
-Obj _3516758_37 = R[4];
-Obj _3516759_37 = R[5];
-Obj body = R[6];
-R[1] = fvs;
-R[2] = _3516756_37;
-R[3] = _3516757_37;
-R[4] = _3516758_37;
-R[5] = _3516759_37;
-R[6] = body;
-saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516759_37, makeCString(co->gc, "= co->res;\n"));
+Obj _3519256_37= co->res;
+Obj _3517802_37 = R[1];
+Obj _3517542_37 = R[2];
+Obj _3517543_37 = R[3];
+Obj _3517544_37 = R[4];
+Obj _3517545_37 = R[5];
+Obj _3517801_37 = R[6];
+R[1] = _3517802_37;
+R[2] = _3517542_37;
+R[3] = _3517543_37;
+R[4] = _3517544_37;
+R[5] = _3517545_37;
+R[6] = _3517801_37;
+saveCont(co, clofun104, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517545_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518157_37= co->res;
-Obj var = R[1];
-Obj fvs = R[2];
-Obj _3516756_37 = R[3];
-Obj _3516757_37 = R[4];
-Obj _3516758_37 = R[5];
-Obj _3516759_37 = R[6];
-Obj body = R[7];
-Obj _3518158_37 = PRIM_CAR(var);
-R[1] = fvs;
-R[2] = _3516756_37;
-R[3] = _3516757_37;
-R[4] = _3516758_37;
-R[5] = _3516759_37;
-R[6] = body;
-saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516759_37, _3518158_37);
+Obj _3519254_37= co->res;
+Obj _3517800_37 = R[1];
+Obj _3517802_37 = R[2];
+Obj _3517542_37 = R[3];
+Obj _3517543_37 = R[4];
+Obj _3517544_37 = R[5];
+Obj _3517545_37 = R[6];
+Obj _3517801_37 = R[7];
+Obj _3519255_37 = PRIM_CAR(_3517800_37);
+R[1] = _3517802_37;
+R[2] = _3517542_37;
+R[3] = _3517543_37;
+R[4] = _3517544_37;
+R[5] = _3517545_37;
+R[6] = _3517801_37;
+saveCont(co, clofun104, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3517545_37, _3519255_37);
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2539,7 +2543,7 @@ return;
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2548,44 +2552,44 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518127_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518127_37;
-Obj _3518138_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3519224_37 = primGenSym(co);
+Obj _3517796_37 = _3519224_37;
+Obj _3519235_37 = primSet(co, _3517796_37, makeNative(co->gc, 2, clofun101, 1, 5, globals, self, env, w, _3517796_37));
 R[1] = l;
-saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
+saveCont(co, clofun102, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517796_37);
 return;
 }
 case 1:
 {
-Obj _3518139_37= co->res;
+Obj _3519236_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518139_37, l);
+coraCall1(co, _3519236_37, l);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518128_37 = PRIM_EQ(Nil, x);
-if (True == _3518128_37) {
+Obj _3519225_37 = PRIM_EQ(Nil, x);
+if (True == _3519225_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518129_37 = PRIM_ISCONS(x);
-if (True == _3518129_37) {
-Obj _3518130_37 = PRIM_CAR(x);
-Obj a = _3518130_37;
-Obj _3518131_37 = PRIM_CDR(x);
-Obj b = _3518131_37;
-R[1] = b;
-saveCont(co, clofun97, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
+Obj _3519226_37 = PRIM_ISCONS(x);
+if (True == _3519226_37) {
+Obj _3519227_37 = PRIM_CAR(x);
+Obj _3517797_37 = _3519227_37;
+Obj _3519228_37 = PRIM_CDR(x);
+Obj _3517798_37 = _3519228_37;
+R[1] = _3517798_37;
+saveCont(co, clofun101, 5, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3517797_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2597,60 +2601,60 @@ return;
 }
 case 1:
 {
-Obj _3518136_37= co->res;
-Obj b = R[1];
+Obj _3519233_37= co->res;
+Obj _3517798_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518136_37, b);
+coraCall1(co, _3519233_37, _3517798_37);
 return;
 }
 case 2:
 {
-Obj _3518135_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun97, 1, R);
+Obj _3519232_37= co->res;
+Obj _3517798_37 = R[1];
+R[1] = _3517798_37;
+saveCont(co, clofun101, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518137_37= co->res;
-Obj b = R[1];
+Obj _3519234_37= co->res;
+Obj _3517798_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518137_37, b);
+coraCall1(co, _3519234_37, _3517798_37);
 return;
 }
 case 4:
 {
-Obj _3518133_37= co->res;
-Obj b = R[1];
-Obj _3518134_37 = primNot(_3518133_37);
-if (True == _3518134_37) {
-R[1] = b;
-saveCont(co, clofun97, 2, R);
+Obj _3519230_37= co->res;
+Obj _3517798_37 = R[1];
+Obj _3519231_37 = primNot(_3519230_37);
+if (True == _3519231_37) {
+R[1] = _3517798_37;
+saveCont(co, clofun101, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = b;
-saveCont(co, clofun97, 3, R);
+R[1] = _3517798_37;
+saveCont(co, clofun101, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj _3518132_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun97, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), b);
+Obj _3519229_37= co->res;
+Obj _3517798_37 = R[1];
+R[1] = _3517798_37;
+saveCont(co, clofun101, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517798_37);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2659,312 +2663,312 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517840_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517840_37;
-Obj _3518124_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3518937_37 = primGenSym(co);
+Obj _3517759_37 = _3518937_37;
+Obj _3519221_37 = primSet(co, _3517759_37, makeNative(co->gc, 3, clofun99, 2, 4, self, _3517759_37, globals, w));
 R[1] = x1;
 R[2] = env1;
-saveCont(co, clofun96, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45h);
+saveCont(co, clofun100, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517759_37);
 return;
 }
 case 1:
 {
-Obj _3518125_37= co->res;
+Obj _3519222_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518125_37, x1, env1);
+coraCall2(co, _3519222_37, x1, env1);
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517841_37 = primIsSymbol(x2);
-if (True == _3517841_37) {
+Obj _3518938_37 = primIsSymbol(x2);
+if (True == _3518938_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
 return;
 } else {
-Obj _3516742_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518111_37 = PRIM_ISCONS(x2);
-if (True == _3518111_37) {
-Obj _3518112_37 = PRIM_CAR(x2);
-Obj _3518113_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518112_37);
-if (True == _3518113_37) {
-Obj _3518114_37 = PRIM_CDR(x2);
-Obj _3518115_37 = PRIM_ISCONS(_3518114_37);
-if (True == _3518115_37) {
-Obj _3518116_37 = PRIM_CDR(x2);
-Obj _3518117_37 = PRIM_CAR(_3518116_37);
-Obj x = _3518117_37;
-Obj _3518118_37 = PRIM_CDR(x2);
-Obj _3518119_37 = PRIM_CDR(_3518118_37);
-Obj _3518120_37 = PRIM_EQ(Nil, _3518119_37);
-if (True == _3518120_37) {
-R[1] = x;
-saveCont(co, clofun95, 3, R);
+Obj _3517760_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3519208_37 = PRIM_ISCONS(x2);
+if (True == _3519208_37) {
+Obj _3519209_37 = PRIM_CAR(x2);
+Obj _3519210_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3519209_37);
+if (True == _3519210_37) {
+Obj _3519211_37 = PRIM_CDR(x2);
+Obj _3519212_37 = PRIM_ISCONS(_3519211_37);
+if (True == _3519212_37) {
+Obj _3519213_37 = PRIM_CDR(x2);
+Obj _3519214_37 = PRIM_CAR(_3519213_37);
+Obj _3517795_37 = _3519214_37;
+Obj _3519215_37 = PRIM_CDR(x2);
+Obj _3519216_37 = PRIM_CDR(_3519215_37);
+Obj _3519217_37 = PRIM_EQ(Nil, _3519216_37);
+if (True == _3519217_37) {
+R[1] = _3517795_37;
+saveCont(co, clofun99, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517760_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518123_37= co->res;
+Obj _3519220_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518122_37= co->res;
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518122_37);
+Obj _3519219_37= co->res;
+saveCont(co, clofun99, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3519219_37);
 return;
 }
 case 3:
 {
-Obj _3518121_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
+Obj _3519218_37= co->res;
+Obj _3517795_37 = R[1];
+saveCont(co, clofun99, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517795_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516743_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518099_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518099_37) {
-Obj _3518100_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518101_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518100_37);
-if (True == _3518101_37) {
-Obj _3518102_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518103_37 = PRIM_ISCONS(_3518102_37);
-if (True == _3518103_37) {
-Obj _3518104_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518105_37 = PRIM_CAR(_3518104_37);
-Obj idx = _3518105_37;
-Obj _3518106_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518107_37 = PRIM_CDR(_3518106_37);
-Obj _3518108_37 = PRIM_EQ(Nil, _3518107_37);
-if (True == _3518108_37) {
-R[1] = idx;
-saveCont(co, clofun94, 2, R);
+Obj _3517761_37 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3519196_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3519196_37) {
+Obj _3519197_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3519198_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3519197_37);
+if (True == _3519198_37) {
+Obj _3519199_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3519200_37 = PRIM_ISCONS(_3519199_37);
+if (True == _3519200_37) {
+Obj _3519201_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3519202_37 = PRIM_CAR(_3519201_37);
+Obj _3517794_37 = _3519202_37;
+Obj _3519203_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3519204_37 = PRIM_CDR(_3519203_37);
+Obj _3519205_37 = PRIM_EQ(Nil, _3519204_37);
+if (True == _3519205_37) {
+R[1] = _3517794_37;
+saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3517761_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518110_37= co->res;
+Obj _3519207_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518109_37= co->res;
-Obj idx = R[1];
-saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
+Obj _3519206_37= co->res;
+Obj _3517794_37 = R[1];
+saveCont(co, clofun98, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517794_37);
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518075_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518075_37) {
-Obj _3518076_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518077_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518076_37);
-if (True == _3518077_37) {
-Obj _3518078_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518079_37 = PRIM_ISCONS(_3518078_37);
-if (True == _3518079_37) {
-Obj _3518080_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518081_37 = PRIM_CAR(_3518080_37);
-Obj x = _3518081_37;
-Obj _3518082_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518083_37 = PRIM_CDR(_3518082_37);
-Obj _3518084_37 = PRIM_EQ(Nil, _3518083_37);
-if (True == _3518084_37) {
-Obj _3518085_37 = primIsSymbol(x);
-if (True == _3518085_37) {
-R[1] = x;
-saveCont(co, clofun93, 3, R);
+Obj _3517762_37 = makeNative(co->gc, 4, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3519172_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3519172_37) {
+Obj _3519173_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3519174_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3519173_37);
+if (True == _3519174_37) {
+Obj _3519175_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3519176_37 = PRIM_ISCONS(_3519175_37);
+if (True == _3519176_37) {
+Obj _3519177_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3519178_37 = PRIM_CAR(_3519177_37);
+Obj _3517793_37 = _3519178_37;
+Obj _3519179_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3519180_37 = PRIM_CDR(_3519179_37);
+Obj _3519181_37 = PRIM_EQ(Nil, _3519180_37);
+if (True == _3519181_37) {
+Obj _3519182_37 = primIsSymbol(_3517793_37);
+if (True == _3519182_37) {
+R[1] = _3517793_37;
+saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = x;
-saveCont(co, clofun93, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), x);
+R[1] = _3517793_37;
+saveCont(co, clofun97, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3517762_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518088_37= co->res;
+Obj _3519185_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518087_37= co->res;
-saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518087_37);
+Obj _3519184_37= co->res;
+saveCont(co, clofun97, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3519184_37);
 return;
 }
 case 3:
 {
-Obj _3518086_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun93, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
+Obj _3519183_37= co->res;
+Obj _3517793_37 = R[1];
+saveCont(co, clofun97, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517793_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518091_37= co->res;
+Obj _3519188_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518090_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun93, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
+Obj _3519187_37= co->res;
+Obj _3517793_37 = R[1];
+saveCont(co, clofun97, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517793_37);
 return;
 }
 case 6:
 {
-Obj _3518095_37= co->res;
+Obj _3519192_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518094_37= co->res;
-saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518094_37);
+Obj _3519191_37= co->res;
+saveCont(co, clofun97, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3519191_37);
 return;
 }
 case 8:
 {
-Obj _3518093_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun93, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
+Obj _3519190_37= co->res;
+Obj _3517793_37 = R[1];
+saveCont(co, clofun97, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), _3517793_37);
 return;
 }
 case 9:
 {
-Obj _3518089_37= co->res;
-Obj x = R[1];
-if (True == _3518089_37) {
-R[1] = x;
-saveCont(co, clofun93, 5, R);
+Obj _3519186_37= co->res;
+Obj _3517793_37 = R[1];
+if (True == _3519186_37) {
+R[1] = _3517793_37;
+saveCont(co, clofun97, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518092_37 = primIsString(x);
-if (True == _3518092_37) {
-R[1] = x;
-saveCont(co, clofun93, 8, R);
+Obj _3519189_37 = primIsString(_3517793_37);
+if (True == _3519189_37) {
+R[1] = _3517793_37;
+saveCont(co, clofun97, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518096_37 = PRIM_EQ(x, Nil);
-if (True == _3518096_37) {
+Obj _3519193_37 = PRIM_EQ(_3517793_37, Nil);
+if (True == _3519193_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518097_37 = PRIM_EQ(x, True);
-if (True == _3518097_37) {
+Obj _3519194_37 = PRIM_EQ(_3517793_37, True);
+if (True == _3519194_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518098_37 = PRIM_EQ(x, False);
-if (True == _3518098_37) {
+Obj _3519195_37 = PRIM_EQ(_3517793_37, False);
+if (True == _3519195_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -2981,334 +2985,334 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516745_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518040_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518040_37) {
-Obj _3518041_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518042_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518041_37);
-if (True == _3518042_37) {
-Obj _3518043_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518044_37 = PRIM_ISCONS(_3518043_37);
-if (True == _3518044_37) {
-Obj _3518045_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_CAR(_3518045_37);
-Obj a = _3518046_37;
-Obj _3518047_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518048_37 = PRIM_CDR(_3518047_37);
-Obj _3518049_37 = PRIM_ISCONS(_3518048_37);
-if (True == _3518049_37) {
-Obj _3518050_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518051_37 = PRIM_CDR(_3518050_37);
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj b = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_CDR(_3518054_37);
-Obj _3518056_37 = PRIM_ISCONS(_3518055_37);
-if (True == _3518056_37) {
-Obj _3518057_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518058_37 = PRIM_CDR(_3518057_37);
-Obj _3518059_37 = PRIM_CDR(_3518058_37);
-Obj _3518060_37 = PRIM_CAR(_3518059_37);
-Obj c = _3518060_37;
-Obj _3518061_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518062_37 = PRIM_CDR(_3518061_37);
-Obj _3518063_37 = PRIM_CDR(_3518062_37);
-Obj _3518064_37 = PRIM_CDR(_3518063_37);
-Obj _3518065_37 = PRIM_EQ(Nil, _3518064_37);
-if (True == _3518065_37) {
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0], 5));
+Obj _3517763_37 = makeNative(co->gc, 3, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3519137_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3519137_37) {
+Obj _3519138_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3519139_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3519138_37);
+if (True == _3519139_37) {
+Obj _3519140_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519141_37 = PRIM_ISCONS(_3519140_37);
+if (True == _3519141_37) {
+Obj _3519142_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519143_37 = PRIM_CAR(_3519142_37);
+Obj _3517790_37 = _3519143_37;
+Obj _3519144_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519145_37 = PRIM_CDR(_3519144_37);
+Obj _3519146_37 = PRIM_ISCONS(_3519145_37);
+if (True == _3519146_37) {
+Obj _3519147_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519148_37 = PRIM_CDR(_3519147_37);
+Obj _3519149_37 = PRIM_CAR(_3519148_37);
+Obj _3517791_37 = _3519149_37;
+Obj _3519150_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519151_37 = PRIM_CDR(_3519150_37);
+Obj _3519152_37 = PRIM_CDR(_3519151_37);
+Obj _3519153_37 = PRIM_ISCONS(_3519152_37);
+if (True == _3519153_37) {
+Obj _3519154_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519155_37 = PRIM_CDR(_3519154_37);
+Obj _3519156_37 = PRIM_CDR(_3519155_37);
+Obj _3519157_37 = PRIM_CAR(_3519156_37);
+Obj _3517792_37 = _3519157_37;
+Obj _3519158_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519159_37 = PRIM_CDR(_3519158_37);
+Obj _3519160_37 = PRIM_CDR(_3519159_37);
+Obj _3519161_37 = PRIM_CDR(_3519160_37);
+Obj _3519162_37 = PRIM_EQ(Nil, _3519161_37);
+if (True == _3519162_37) {
+R[1] = _3517791_37;
+R[2] = _3517790_37;
+R[3] = _3517792_37;
+saveCont(co, clofun96, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517790_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3517763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3517763_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518073_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-Obj _3518074_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3519170_37= co->res;
+Obj _3517790_37 = R[1];
+Obj _3517792_37 = R[2];
+Obj _3519171_37 = makeCons(co->gc, _3517790_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518073_37, c, _3518074_37);
+coraCall2(co, _3519170_37, _3517792_37, _3519171_37);
 return;
 }
 case 2:
 {
-Obj _3518072_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun92, 1, R);
+Obj _3519169_37= co->res;
+Obj _3517790_37 = R[1];
+Obj _3517792_37 = R[2];
+R[1] = _3517790_37;
+R[2] = _3517792_37;
+saveCont(co, clofun96, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518071_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun92, 2, R);
+Obj _3519168_37= co->res;
+Obj _3517790_37 = R[1];
+Obj _3517792_37 = R[2];
+R[1] = _3517790_37;
+R[2] = _3517792_37;
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518070_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun92, 3, R);
-coraCall2(co, _3518070_37, b, closureRef(R[0], 5));
+Obj _3519167_37= co->res;
+Obj _3517791_37 = R[1];
+Obj _3517790_37 = R[2];
+Obj _3517792_37 = R[3];
+R[1] = _3517790_37;
+R[2] = _3517792_37;
+saveCont(co, clofun96, 3, R);
+coraCall2(co, _3519167_37, _3517791_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518069_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 4, R);
+Obj _3519166_37= co->res;
+Obj _3517791_37 = R[1];
+Obj _3517790_37 = R[2];
+Obj _3517792_37 = R[3];
+R[1] = _3517791_37;
+R[2] = _3517790_37;
+R[3] = _3517792_37;
+saveCont(co, clofun96, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518068_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 5, R);
+Obj _3519165_37= co->res;
+Obj _3517791_37 = R[1];
+Obj _3517790_37 = R[2];
+Obj _3517792_37 = R[3];
+R[1] = _3517791_37;
+R[2] = _3517790_37;
+R[3] = _3517792_37;
+saveCont(co, clofun96, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518067_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), a);
+Obj _3519164_37= co->res;
+Obj _3517791_37 = R[1];
+Obj _3517790_37 = R[2];
+Obj _3517792_37 = R[3];
+R[1] = _3517791_37;
+R[2] = _3517790_37;
+R[3] = _3517792_37;
+saveCont(co, clofun96, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), _3517790_37);
 return;
 }
 case 8:
 {
-Obj _3518066_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 7, R);
+Obj _3519163_37= co->res;
+Obj _3517791_37 = R[1];
+Obj _3517790_37 = R[2];
+Obj _3517792_37 = R[3];
+R[1] = _3517791_37;
+R[2] = _3517790_37;
+R[3] = _3517792_37;
+saveCont(co, clofun96, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516746_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518010_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518010_37) {
-Obj _3518011_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518012_37 = PRIM_ISCONS(_3518011_37);
-if (True == _3518012_37) {
-Obj _3518013_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518014_37 = PRIM_CAR(_3518013_37);
-Obj _3518015_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518014_37);
-if (True == _3518015_37) {
-Obj _3518016_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518017_37 = PRIM_CDR(_3518016_37);
-Obj _3518018_37 = PRIM_ISCONS(_3518017_37);
-if (True == _3518018_37) {
-Obj _3518019_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518020_37 = PRIM_CDR(_3518019_37);
-Obj _3518021_37 = PRIM_CAR(_3518020_37);
-Obj f = _3518021_37;
-Obj _3518022_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518023_37 = PRIM_CDR(_3518022_37);
-Obj _3518024_37 = PRIM_CDR(_3518023_37);
-Obj _3518025_37 = PRIM_EQ(Nil, _3518024_37);
-if (True == _3518025_37) {
-Obj _3518026_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3518026_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun91, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
+Obj _3517764_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3519107_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3519107_37) {
+Obj _3519108_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3519109_37 = PRIM_ISCONS(_3519108_37);
+if (True == _3519109_37) {
+Obj _3519110_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3519111_37 = PRIM_CAR(_3519110_37);
+Obj _3519112_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3519111_37);
+if (True == _3519112_37) {
+Obj _3519113_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3519114_37 = PRIM_CDR(_3519113_37);
+Obj _3519115_37 = PRIM_ISCONS(_3519114_37);
+if (True == _3519115_37) {
+Obj _3519116_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3519117_37 = PRIM_CDR(_3519116_37);
+Obj _3519118_37 = PRIM_CAR(_3519117_37);
+Obj _3517788_37 = _3519118_37;
+Obj _3519119_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3519120_37 = PRIM_CDR(_3519119_37);
+Obj _3519121_37 = PRIM_CDR(_3519120_37);
+Obj _3519122_37 = PRIM_EQ(Nil, _3519121_37);
+if (True == _3519122_37) {
+Obj _3519123_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517789_37 = _3519123_37;
+R[1] = _3517788_37;
+R[2] = _3517789_37;
+saveCont(co, clofun95, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), _3517788_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, _3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, _3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, _3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, _3517764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516746_37);
+coraCall0(co, _3517764_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518031_37= co->res;
+Obj _3519128_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518030_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3519127_37= co->res;
+Obj _3517789_37 = R[1];
+saveCont(co, clofun95, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518034_37= co->res;
+Obj _3519131_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518033_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3519130_37= co->res;
+Obj _3517789_37 = R[1];
+saveCont(co, clofun95, 3, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518037_37= co->res;
+Obj _3519134_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518036_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3519133_37= co->res;
+Obj _3517789_37 = R[1];
+saveCont(co, clofun95, 5, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518039_37= co->res;
+Obj _3519136_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518038_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3519135_37= co->res;
+Obj _3517789_37 = R[1];
+saveCont(co, clofun95, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518028_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3518029_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518029_37) {
-R[1] = args;
-saveCont(co, clofun91, 2, R);
+Obj _3519125_37= co->res;
+Obj _3517788_37 = R[1];
+Obj _3517789_37 = R[2];
+Obj _3519126_37 = PRIM_EQ(_3517788_37, getBinding(co, packageID, 121).name);
+if (True == _3519126_37) {
+R[1] = _3517789_37;
+saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518032_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518032_37) {
-R[1] = args;
-saveCont(co, clofun91, 4, R);
+Obj _3519129_37 = PRIM_EQ(_3517788_37, getBinding(co, packageID, 109).name);
+if (True == _3519129_37) {
+R[1] = _3517789_37;
+saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518035_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518035_37) {
-R[1] = args;
-saveCont(co, clofun91, 6, R);
+Obj _3519132_37 = PRIM_EQ(_3517788_37, getBinding(co, packageID, 118).name);
+if (True == _3519132_37) {
+R[1] = _3517789_37;
+saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = args;
-saveCont(co, clofun91, 8, R);
+R[1] = _3517789_37;
+saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3317,284 +3321,284 @@ return;
 }
 case 10:
 {
-Obj _3518027_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518027_37);
+Obj _3519124_37= co->res;
+Obj _3517788_37 = R[1];
+Obj _3517789_37 = R[2];
+R[1] = _3517788_37;
+R[2] = _3517789_37;
+saveCont(co, clofun95, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3519124_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516747_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517975_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517975_37) {
-Obj _3517976_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517977_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517976_37);
-if (True == _3517977_37) {
-Obj _3517978_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517979_37 = PRIM_ISCONS(_3517978_37);
-if (True == _3517979_37) {
-Obj _3517980_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517981_37 = PRIM_CAR(_3517980_37);
-Obj a = _3517981_37;
-Obj _3517982_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517983_37 = PRIM_CDR(_3517982_37);
-Obj _3517984_37 = PRIM_ISCONS(_3517983_37);
-if (True == _3517984_37) {
-Obj _3517985_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517986_37 = PRIM_CDR(_3517985_37);
-Obj _3517987_37 = PRIM_CAR(_3517986_37);
-Obj b = _3517987_37;
-Obj _3517988_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517989_37 = PRIM_CDR(_3517988_37);
-Obj _3517990_37 = PRIM_CDR(_3517989_37);
-Obj _3517991_37 = PRIM_ISCONS(_3517990_37);
-if (True == _3517991_37) {
-Obj _3517992_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517993_37 = PRIM_CDR(_3517992_37);
-Obj _3517994_37 = PRIM_CDR(_3517993_37);
-Obj _3517995_37 = PRIM_CAR(_3517994_37);
-Obj c = _3517995_37;
-Obj _3517996_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517997_37 = PRIM_CDR(_3517996_37);
-Obj _3517998_37 = PRIM_CDR(_3517997_37);
-Obj _3517999_37 = PRIM_CDR(_3517998_37);
-Obj _3518000_37 = PRIM_EQ(Nil, _3517999_37);
-if (True == _3518000_37) {
-R[1] = a;
-R[2] = b;
-R[3] = c;
-saveCont(co, clofun90, 9, R);
+Obj _3517765_37 = makeNative(co->gc, 5, clofun93, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3519072_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3519072_37) {
+Obj _3519073_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3519074_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3519073_37);
+if (True == _3519074_37) {
+Obj _3519075_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519076_37 = PRIM_ISCONS(_3519075_37);
+if (True == _3519076_37) {
+Obj _3519077_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519078_37 = PRIM_CAR(_3519077_37);
+Obj _3517785_37 = _3519078_37;
+Obj _3519079_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519080_37 = PRIM_CDR(_3519079_37);
+Obj _3519081_37 = PRIM_ISCONS(_3519080_37);
+if (True == _3519081_37) {
+Obj _3519082_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519083_37 = PRIM_CDR(_3519082_37);
+Obj _3519084_37 = PRIM_CAR(_3519083_37);
+Obj _3517786_37 = _3519084_37;
+Obj _3519085_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519086_37 = PRIM_CDR(_3519085_37);
+Obj _3519087_37 = PRIM_CDR(_3519086_37);
+Obj _3519088_37 = PRIM_ISCONS(_3519087_37);
+if (True == _3519088_37) {
+Obj _3519089_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519090_37 = PRIM_CDR(_3519089_37);
+Obj _3519091_37 = PRIM_CDR(_3519090_37);
+Obj _3519092_37 = PRIM_CAR(_3519091_37);
+Obj _3517787_37 = _3519092_37;
+Obj _3519093_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519094_37 = PRIM_CDR(_3519093_37);
+Obj _3519095_37 = PRIM_CDR(_3519094_37);
+Obj _3519096_37 = PRIM_CDR(_3519095_37);
+Obj _3519097_37 = PRIM_EQ(Nil, _3519096_37);
+if (True == _3519097_37) {
+R[1] = _3517785_37;
+R[2] = _3517786_37;
+R[3] = _3517787_37;
+saveCont(co, clofun94, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516747_37);
+coraCall0(co, _3517765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516747_37);
+coraCall0(co, _3517765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516747_37);
+coraCall0(co, _3517765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516747_37);
+coraCall0(co, _3517765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516747_37);
+coraCall0(co, _3517765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516747_37);
+coraCall0(co, _3517765_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518009_37= co->res;
+Obj _3519106_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3518008_37= co->res;
-Obj c = R[1];
-saveCont(co, clofun90, 1, R);
-coraCall2(co, _3518008_37, c, closureRef(R[0], 4));
+Obj _3519105_37= co->res;
+Obj _3517787_37 = R[1];
+saveCont(co, clofun94, 1, R);
+coraCall2(co, _3519105_37, _3517787_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518007_37= co->res;
-Obj c = R[1];
-R[1] = c;
-saveCont(co, clofun90, 2, R);
+Obj _3519104_37= co->res;
+Obj _3517787_37 = R[1];
+R[1] = _3517787_37;
+saveCont(co, clofun94, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518006_37= co->res;
-Obj c = R[1];
-R[1] = c;
-saveCont(co, clofun90, 3, R);
+Obj _3519103_37= co->res;
+Obj _3517787_37 = R[1];
+R[1] = _3517787_37;
+saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3518005_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = c;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, _3518005_37, b, closureRef(R[0], 4));
+Obj _3519102_37= co->res;
+Obj _3517786_37 = R[1];
+Obj _3517787_37 = R[2];
+R[1] = _3517787_37;
+saveCont(co, clofun94, 4, R);
+coraCall2(co, _3519102_37, _3517786_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518004_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun90, 5, R);
+Obj _3519101_37= co->res;
+Obj _3517786_37 = R[1];
+Obj _3517787_37 = R[2];
+R[1] = _3517786_37;
+R[2] = _3517787_37;
+saveCont(co, clofun94, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3518003_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun90, 6, R);
+Obj _3519100_37= co->res;
+Obj _3517786_37 = R[1];
+Obj _3517787_37 = R[2];
+R[1] = _3517786_37;
+R[2] = _3517787_37;
+saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3518002_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun90, 7, R);
-coraCall2(co, _3518002_37, a, closureRef(R[0], 4));
+Obj _3519099_37= co->res;
+Obj _3517785_37 = R[1];
+Obj _3517786_37 = R[2];
+Obj _3517787_37 = R[3];
+R[1] = _3517786_37;
+R[2] = _3517787_37;
+saveCont(co, clofun94, 7, R);
+coraCall2(co, _3519099_37, _3517785_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3518001_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = b;
-R[3] = c;
-saveCont(co, clofun90, 8, R);
+Obj _3519098_37= co->res;
+Obj _3517785_37 = R[1];
+Obj _3517786_37 = R[2];
+Obj _3517787_37 = R[3];
+R[1] = _3517785_37;
+R[2] = _3517786_37;
+R[3] = _3517787_37;
+saveCont(co, clofun94, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516748_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517937_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517937_37) {
-Obj _3517938_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517939_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517938_37);
-if (True == _3517939_37) {
-Obj _3517940_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517941_37 = PRIM_ISCONS(_3517940_37);
-if (True == _3517941_37) {
-Obj _3517942_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517943_37 = PRIM_CAR(_3517942_37);
-Obj label = _3517943_37;
-Obj _3517944_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517945_37 = PRIM_CDR(_3517944_37);
-Obj _3517946_37 = PRIM_ISCONS(_3517945_37);
-if (True == _3517946_37) {
-Obj _3517947_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517948_37 = PRIM_CDR(_3517947_37);
-Obj _3517949_37 = PRIM_CAR(_3517948_37);
-Obj nargs = _3517949_37;
-Obj _3517950_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517951_37 = PRIM_CDR(_3517950_37);
-Obj _3517952_37 = PRIM_CDR(_3517951_37);
-Obj _3517953_37 = PRIM_ISCONS(_3517952_37);
-if (True == _3517953_37) {
-Obj _3517954_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517955_37 = PRIM_CDR(_3517954_37);
-Obj _3517956_37 = PRIM_CDR(_3517955_37);
-Obj _3517957_37 = PRIM_CAR(_3517956_37);
-Obj nframe = _3517957_37;
-Obj _3517958_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517959_37 = PRIM_CDR(_3517958_37);
-Obj _3517960_37 = PRIM_CDR(_3517959_37);
-Obj _3517961_37 = PRIM_CDR(_3517960_37);
-Obj frees = _3517961_37;
-R[1] = nframe;
-R[2] = label;
-R[3] = nargs;
-R[4] = frees;
-saveCont(co, clofun89, 12, R);
+Obj _3517766_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3519034_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3519034_37) {
+Obj _3519035_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3519036_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3519035_37);
+if (True == _3519036_37) {
+Obj _3519037_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519038_37 = PRIM_ISCONS(_3519037_37);
+if (True == _3519038_37) {
+Obj _3519039_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519040_37 = PRIM_CAR(_3519039_37);
+Obj _3517781_37 = _3519040_37;
+Obj _3519041_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519042_37 = PRIM_CDR(_3519041_37);
+Obj _3519043_37 = PRIM_ISCONS(_3519042_37);
+if (True == _3519043_37) {
+Obj _3519044_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519045_37 = PRIM_CDR(_3519044_37);
+Obj _3519046_37 = PRIM_CAR(_3519045_37);
+Obj _3517782_37 = _3519046_37;
+Obj _3519047_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519048_37 = PRIM_CDR(_3519047_37);
+Obj _3519049_37 = PRIM_CDR(_3519048_37);
+Obj _3519050_37 = PRIM_ISCONS(_3519049_37);
+if (True == _3519050_37) {
+Obj _3519051_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519052_37 = PRIM_CDR(_3519051_37);
+Obj _3519053_37 = PRIM_CDR(_3519052_37);
+Obj _3519054_37 = PRIM_CAR(_3519053_37);
+Obj _3517783_37 = _3519054_37;
+Obj _3519055_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3519056_37 = PRIM_CDR(_3519055_37);
+Obj _3519057_37 = PRIM_CDR(_3519056_37);
+Obj _3519058_37 = PRIM_CDR(_3519057_37);
+Obj _3517784_37 = _3519058_37;
+R[1] = _3517783_37;
+R[2] = _3517781_37;
+R[3] = _3517782_37;
+R[4] = _3517784_37;
+saveCont(co, clofun93, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517766_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517766_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517974_37= co->res;
+Obj _3519071_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3517973_37= co->res;
-Obj frees = R[1];
-saveCont(co, clofun89, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
+Obj _3519070_37= co->res;
+Obj _3517784_37 = R[1];
+saveCont(co, clofun93, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517784_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3517971_37= co->res;
-Obj frees = R[1];
-Obj _3517972_37 = primNot(_3517971_37);
-if (True == _3517972_37) {
-R[1] = frees;
-saveCont(co, clofun89, 2, R);
+Obj _3519068_37= co->res;
+Obj _3517784_37 = R[1];
+Obj _3519069_37 = primNot(_3519068_37);
+if (True == _3519069_37) {
+R[1] = _3517784_37;
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3606,501 +3610,501 @@ return;
 }
 case 4:
 {
-Obj _3517970_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), frees);
+Obj _3519067_37= co->res;
+Obj _3517784_37 = R[1];
+R[1] = _3517784_37;
+saveCont(co, clofun93, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517784_37);
 return;
 }
 case 5:
 {
-Obj _3517969_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517969_37);
+Obj _3519066_37= co->res;
+Obj _3517784_37 = R[1];
+R[1] = _3517784_37;
+saveCont(co, clofun93, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3519066_37);
 return;
 }
 case 6:
 {
-Obj _3517968_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), frees);
+Obj _3519065_37= co->res;
+Obj _3517784_37 = R[1];
+R[1] = _3517784_37;
+saveCont(co, clofun93, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517784_37);
 return;
 }
 case 7:
 {
-Obj _3517967_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 6, R);
+Obj _3519064_37= co->res;
+Obj _3517784_37 = R[1];
+R[1] = _3517784_37;
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3517966_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = frees;
-saveCont(co, clofun89, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3519063_37= co->res;
+Obj _3517782_37 = R[1];
+Obj _3517784_37 = R[2];
+R[1] = _3517784_37;
+saveCont(co, clofun93, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517782_37);
 return;
 }
 case 9:
 {
-Obj _3517965_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = nargs;
-R[2] = frees;
-saveCont(co, clofun89, 8, R);
+Obj _3519062_37= co->res;
+Obj _3517782_37 = R[1];
+Obj _3517784_37 = R[2];
+R[1] = _3517782_37;
+R[2] = _3517784_37;
+saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3517964_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = nargs;
-R[2] = frees;
-saveCont(co, clofun89, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), label);
+Obj _3519061_37= co->res;
+Obj _3517781_37 = R[1];
+Obj _3517782_37 = R[2];
+Obj _3517784_37 = R[3];
+R[1] = _3517782_37;
+R[2] = _3517784_37;
+saveCont(co, clofun93, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), _3517781_37);
 return;
 }
 case 11:
 {
-Obj _3517963_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
-saveCont(co, clofun89, 10, R);
+Obj _3519060_37= co->res;
+Obj _3517781_37 = R[1];
+Obj _3517782_37 = R[2];
+Obj _3517784_37 = R[3];
+R[1] = _3517781_37;
+R[2] = _3517782_37;
+R[3] = _3517784_37;
+saveCont(co, clofun93, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3517962_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj nargs = R[3];
-Obj frees = R[4];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
-saveCont(co, clofun89, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nframe);
+Obj _3519059_37= co->res;
+Obj _3517783_37 = R[1];
+Obj _3517781_37 = R[2];
+Obj _3517782_37 = R[3];
+Obj _3517784_37 = R[4];
+R[1] = _3517781_37;
+R[2] = _3517782_37;
+R[3] = _3517784_37;
+saveCont(co, clofun93, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517783_37);
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516749_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517916_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517916_37) {
-Obj _3517917_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517918_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517917_37);
-if (True == _3517918_37) {
-Obj _3517919_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517920_37 = PRIM_ISCONS(_3517919_37);
-if (True == _3517920_37) {
-Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517922_37 = PRIM_CAR(_3517921_37);
-Obj a = _3517922_37;
-Obj _3517923_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517924_37 = PRIM_CDR(_3517923_37);
-Obj _3517925_37 = PRIM_ISCONS(_3517924_37);
-if (True == _3517925_37) {
-Obj _3517926_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517927_37 = PRIM_CDR(_3517926_37);
-Obj _3517928_37 = PRIM_CAR(_3517927_37);
-Obj b = _3517928_37;
-Obj _3517929_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517930_37 = PRIM_CDR(_3517929_37);
-Obj _3517931_37 = PRIM_CDR(_3517930_37);
-Obj _3517932_37 = PRIM_EQ(Nil, _3517931_37);
-if (True == _3517932_37) {
-R[1] = a;
-R[2] = b;
-saveCont(co, clofun88, 4, R);
+Obj _3517767_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3519013_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3519013_37) {
+Obj _3519014_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3519015_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3519014_37);
+if (True == _3519015_37) {
+Obj _3519016_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519017_37 = PRIM_ISCONS(_3519016_37);
+if (True == _3519017_37) {
+Obj _3519018_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519019_37 = PRIM_CAR(_3519018_37);
+Obj _3517779_37 = _3519019_37;
+Obj _3519020_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519021_37 = PRIM_CDR(_3519020_37);
+Obj _3519022_37 = PRIM_ISCONS(_3519021_37);
+if (True == _3519022_37) {
+Obj _3519023_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519024_37 = PRIM_CDR(_3519023_37);
+Obj _3519025_37 = PRIM_CAR(_3519024_37);
+Obj _3517780_37 = _3519025_37;
+Obj _3519026_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519027_37 = PRIM_CDR(_3519026_37);
+Obj _3519028_37 = PRIM_CDR(_3519027_37);
+Obj _3519029_37 = PRIM_EQ(Nil, _3519028_37);
+if (True == _3519029_37) {
+R[1] = _3517779_37;
+R[2] = _3517780_37;
+saveCont(co, clofun92, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517767_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517767_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517936_37= co->res;
-Obj b = R[1];
+Obj _3519033_37= co->res;
+Obj _3517780_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517936_37, b, closureRef(R[0], 5));
+coraCall2(co, _3519033_37, _3517780_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517935_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun88, 1, R);
+Obj _3519032_37= co->res;
+Obj _3517780_37 = R[1];
+R[1] = _3517780_37;
+saveCont(co, clofun92, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517934_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun88, 2, R);
+Obj _3519031_37= co->res;
+Obj _3517780_37 = R[1];
+R[1] = _3517780_37;
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3517933_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-R[1] = b;
-saveCont(co, clofun88, 3, R);
-coraCall2(co, _3517933_37, a, closureRef(R[0], 5));
+Obj _3519030_37= co->res;
+Obj _3517779_37 = R[1];
+Obj _3517780_37 = R[2];
+R[1] = _3517780_37;
+saveCont(co, clofun92, 3, R);
+coraCall2(co, _3519030_37, _3517779_37, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516750_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517902_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517902_37) {
-Obj _3517903_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517904_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517903_37);
-if (True == _3517904_37) {
-Obj _3517905_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517906_37 = PRIM_ISCONS(_3517905_37);
-if (True == _3517906_37) {
-Obj _3517907_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517908_37 = PRIM_CAR(_3517907_37);
-Obj x = _3517908_37;
-Obj _3517909_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517910_37 = PRIM_CDR(_3517909_37);
-Obj _3517911_37 = PRIM_EQ(Nil, _3517910_37);
-if (True == _3517911_37) {
-R[1] = x;
-saveCont(co, clofun87, 4, R);
+Obj _3517768_37 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518999_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518999_37) {
+Obj _3519000_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3519001_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3519000_37);
+if (True == _3519001_37) {
+Obj _3519002_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519003_37 = PRIM_ISCONS(_3519002_37);
+if (True == _3519003_37) {
+Obj _3519004_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519005_37 = PRIM_CAR(_3519004_37);
+Obj _3517778_37 = _3519005_37;
+Obj _3519006_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3519007_37 = PRIM_CDR(_3519006_37);
+Obj _3519008_37 = PRIM_EQ(Nil, _3519007_37);
+if (True == _3519008_37) {
+R[1] = _3517778_37;
+saveCont(co, clofun91, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517768_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517915_37= co->res;
+Obj _3519012_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517914_37= co->res;
-saveCont(co, clofun87, 1, R);
+Obj _3519011_37= co->res;
+saveCont(co, clofun91, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517913_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun87, 2, R);
-coraCall2(co, _3517913_37, x, closureRef(R[0], 4));
+Obj _3519010_37= co->res;
+Obj _3517778_37 = R[1];
+saveCont(co, clofun91, 2, R);
+coraCall2(co, _3519010_37, _3517778_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517912_37= co->res;
-Obj x = R[1];
-R[1] = x;
-saveCont(co, clofun87, 3, R);
+Obj _3519009_37= co->res;
+Obj _3517778_37 = R[1];
+R[1] = _3517778_37;
+saveCont(co, clofun91, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516751_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517889_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517889_37) {
-Obj _3517890_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517891_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517890_37);
-if (True == _3517891_37) {
-Obj _3517892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517893_37 = PRIM_ISCONS(_3517892_37);
-if (True == _3517893_37) {
-Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517895_37 = PRIM_CAR(_3517894_37);
-Obj exp = _3517895_37;
-Obj _3517896_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517897_37 = PRIM_CDR(_3517896_37);
-Obj _3517898_37 = PRIM_EQ(Nil, _3517897_37);
-if (True == _3517898_37) {
-R[1] = exp;
-saveCont(co, clofun86, 3, R);
+Obj _3517769_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518986_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518986_37) {
+Obj _3518987_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518988_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518987_37);
+if (True == _3518988_37) {
+Obj _3518989_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518990_37 = PRIM_ISCONS(_3518989_37);
+if (True == _3518990_37) {
+Obj _3518991_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518992_37 = PRIM_CAR(_3518991_37);
+Obj _3517777_37 = _3518992_37;
+Obj _3518993_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518994_37 = PRIM_CDR(_3518993_37);
+Obj _3518995_37 = PRIM_EQ(Nil, _3518994_37);
+if (True == _3518995_37) {
+R[1] = _3517777_37;
+saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517769_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517901_37= co->res;
+Obj _3518998_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517900_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517900_37, exp, closureRef(R[0], 4));
+Obj _3518997_37= co->res;
+Obj _3517777_37 = R[1];
+saveCont(co, clofun90, 1, R);
+coraCall2(co, _3518997_37, _3517777_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517899_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun86, 2, R);
+Obj _3518996_37= co->res;
+Obj _3517777_37 = R[1];
+R[1] = _3517777_37;
+saveCont(co, clofun90, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516752_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517865_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517865_37) {
-Obj _3517866_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517867_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517866_37);
-if (True == _3517867_37) {
-Obj _3517868_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517869_37 = PRIM_ISCONS(_3517868_37);
-if (True == _3517869_37) {
-Obj _3517870_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517871_37 = PRIM_CAR(_3517870_37);
-Obj exp = _3517871_37;
-Obj _3517872_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517873_37 = PRIM_CDR(_3517872_37);
-Obj _3517874_37 = PRIM_ISCONS(_3517873_37);
-if (True == _3517874_37) {
-Obj _3517875_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517876_37 = PRIM_CDR(_3517875_37);
-Obj _3517877_37 = PRIM_CAR(_3517876_37);
-Obj label = _3517877_37;
-Obj _3517878_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517879_37 = PRIM_CDR(_3517878_37);
-Obj _3517880_37 = PRIM_CDR(_3517879_37);
-Obj fvs = _3517880_37;
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), fvs};
+Obj _3517770_37 = makeNative(co->gc, 4, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518962_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518962_37) {
+Obj _3518963_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518964_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518963_37);
+if (True == _3518964_37) {
+Obj _3518965_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518966_37 = PRIM_ISCONS(_3518965_37);
+if (True == _3518966_37) {
+Obj _3518967_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518968_37 = PRIM_CAR(_3518967_37);
+Obj _3517774_37 = _3518968_37;
+Obj _3518969_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518970_37 = PRIM_CDR(_3518969_37);
+Obj _3518971_37 = PRIM_ISCONS(_3518970_37);
+if (True == _3518971_37) {
+Obj _3518972_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518973_37 = PRIM_CDR(_3518972_37);
+Obj _3518974_37 = PRIM_CAR(_3518973_37);
+Obj _3517775_37 = _3518974_37;
+Obj _3518975_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518976_37 = PRIM_CDR(_3518975_37);
+Obj _3518977_37 = PRIM_CDR(_3518976_37);
+Obj _3517776_37 = _3518977_37;
+R[1] = _3517775_37;
+R[2] = _3517774_37;
+saveCont(co, clofun89, 8, R);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), _3517776_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3517770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3517770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3517770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3517770_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517888_37= co->res;
+Obj _3518985_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517887_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun85, 1, R);
-coraCall2(co, _3517887_37, exp, closureRef(R[0], 4));
+Obj _3518984_37= co->res;
+Obj _3517774_37 = R[1];
+saveCont(co, clofun89, 1, R);
+coraCall2(co, _3518984_37, _3517774_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517886_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun85, 2, R);
+Obj _3518983_37= co->res;
+Obj _3517774_37 = R[1];
+R[1] = _3517774_37;
+saveCont(co, clofun89, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517885_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun85, 3, R);
+Obj _3518982_37= co->res;
+Obj _3517774_37 = R[1];
+R[1] = _3517774_37;
+saveCont(co, clofun89, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3517884_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = exp;
-saveCont(co, clofun85, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), label);
+Obj _3518981_37= co->res;
+Obj _3517775_37 = R[1];
+Obj _3517774_37 = R[2];
+R[1] = _3517774_37;
+saveCont(co, clofun89, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517775_37);
 return;
 }
 case 6:
 {
-Obj _3517883_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 5, R);
+Obj _3518980_37= co->res;
+Obj _3517775_37 = R[1];
+Obj _3517774_37 = R[2];
+R[1] = _3517775_37;
+R[2] = _3517774_37;
+saveCont(co, clofun89, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3517882_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 6, R);
+Obj _3518979_37= co->res;
+Obj _3517775_37 = R[1];
+Obj _3517774_37 = R[2];
+R[1] = _3517775_37;
+R[2] = _3517774_37;
+saveCont(co, clofun89, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3517881_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 7, R);
+Obj _3518978_37= co->res;
+Obj _3517775_37 = R[1];
+Obj _3517774_37 = R[2];
+R[1] = _3517775_37;
+R[2] = _3517774_37;
+saveCont(co, clofun89, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517842_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517842_37) {
-Obj _3517843_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517843_37;
-Obj _3517844_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517844_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun84, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+Obj _3518939_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518939_37) {
+Obj _3518940_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517771_37 = _3518940_37;
+Obj _3518941_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517772_37 = _3518941_37;
+R[1] = _3517771_37;
+R[2] = _3517772_37;
+saveCont(co, clofun88, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517772_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4110,135 +4114,135 @@ return;
 }
 case 1:
 {
-Obj _3517856_37= co->res;
+Obj _3518953_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517855_37= co->res;
-Obj nargs = R[1];
-saveCont(co, clofun84, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518952_37= co->res;
+Obj _3517773_37 = R[1];
+saveCont(co, clofun88, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517773_37);
 return;
 }
 case 3:
 {
-Obj _3517854_37= co->res;
-Obj nargs = R[1];
-R[1] = nargs;
-saveCont(co, clofun84, 2, R);
+Obj _3518951_37= co->res;
+Obj _3517773_37 = R[1];
+R[1] = _3517773_37;
+saveCont(co, clofun88, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3517853_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = nargs;
-saveCont(co, clofun84, 3, R);
-coraCall2(co, _3517853_37, f, closureRef(R[0], 4));
+Obj _3518950_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+R[1] = _3517773_37;
+saveCont(co, clofun88, 3, R);
+coraCall2(co, _3518950_37, _3517771_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517852_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 4, R);
+Obj _3518949_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+saveCont(co, clofun88, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3517851_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 5, R);
+Obj _3518948_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+saveCont(co, clofun88, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3517850_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 6, R);
+Obj _3518947_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+saveCont(co, clofun88, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3517849_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518946_37= co->res;
+Obj _3517772_37 = R[1];
+Obj _3517771_37 = R[2];
+Obj _3517773_37 = R[3];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+saveCont(co, clofun88, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517772_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517848_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun84, 8, R);
+Obj _3518945_37= co->res;
+Obj _3517772_37 = R[1];
+Obj _3517771_37 = R[2];
+Obj _3517773_37 = R[3];
+R[1] = _3517772_37;
+R[2] = _3517771_37;
+R[3] = _3517773_37;
+saveCont(co, clofun88, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3517847_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun84, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518944_37= co->res;
+Obj _3517772_37 = R[1];
+Obj _3517771_37 = R[2];
+Obj _3517773_37 = R[3];
+R[1] = _3517772_37;
+R[2] = _3517771_37;
+R[3] = _3517773_37;
+saveCont(co, clofun88, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517773_37);
 return;
 }
 case 11:
 {
-Obj _3517864_37= co->res;
+Obj _3518961_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517863_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun84, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518960_37= co->res;
+Obj _3517772_37 = R[1];
+saveCont(co, clofun88, 11, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517772_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3517861_37= co->res;
-Obj nargs = R[1];
-Obj args = R[2];
-Obj _3517862_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517862_37) {
-R[1] = args;
-saveCont(co, clofun84, 12, R);
+Obj _3518958_37= co->res;
+Obj _3517773_37 = R[1];
+Obj _3517772_37 = R[2];
+Obj _3518959_37 = PRIM_GT(_3517773_37, MAKE_NUMBER(0));
+if (True == _3518959_37) {
+R[1] = _3517772_37;
+saveCont(co, clofun88, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4250,74 +4254,74 @@ return;
 }
 case 14:
 {
-Obj _3517860_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = nargs;
-R[2] = args;
-saveCont(co, clofun84, 13, R);
-coraCall2(co, _3517860_37, f, closureRef(R[0], 4));
+Obj _3518957_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+Obj _3517772_37 = R[3];
+R[1] = _3517773_37;
+R[2] = _3517772_37;
+saveCont(co, clofun88, 13, R);
+coraCall2(co, _3518957_37, _3517771_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517859_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 14, R);
+Obj _3518956_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+Obj _3517772_37 = R[3];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+R[3] = _3517772_37;
+saveCont(co, clofun88, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3517858_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 15, R);
+Obj _3518955_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+Obj _3517772_37 = R[3];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+R[3] = _3517772_37;
+saveCont(co, clofun88, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3517857_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518954_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517773_37 = R[2];
+Obj _3517772_37 = R[3];
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+R[3] = _3517772_37;
+saveCont(co, clofun88, 16, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517773_37);
 return;
 }
 case 18:
 {
-Obj _3517845_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj nargs = _3517845_37;
-Obj _3517846_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517846_37) {
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun84, 10, R);
+Obj _3518942_37= co->res;
+Obj _3517771_37 = R[1];
+Obj _3517772_37 = R[2];
+Obj _3517773_37 = _3518942_37;
+Obj _3518943_37 = PRIM_GT(_3517773_37, MAKE_NUMBER(4));
+if (True == _3518943_37) {
+R[1] = _3517772_37;
+R[2] = _3517771_37;
+R[3] = _3517773_37;
+saveCont(co, clofun88, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 17, R);
+R[1] = _3517771_37;
+R[2] = _3517773_37;
+R[3] = _3517772_37;
+saveCont(co, clofun88, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4325,7 +4329,7 @@ return;
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4335,13 +4339,13 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun86, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4349,52 +4353,52 @@ Obj acc = R[1];
 Obj v = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun82, 5, R);
+saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3517837_37= co->res;
+Obj _3518934_37= co->res;
 Obj acc = R[1];
-Obj _3517838_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517838_37);
+Obj _3518935_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518935_37);
 return;
 }
 case 2:
 {
-Obj _3517836_37= co->res;
+Obj _3518933_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 1, R);
+saveCont(co, clofun86, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3517835_37= co->res;
+Obj _3518932_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 2, R);
+saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 case 4:
 {
-Obj _3517834_37= co->res;
+Obj _3518931_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 3, R);
+saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3517833_37= co->res;
+Obj _3518930_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun82, 4, R);
+saveCont(co, clofun86, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
@@ -4402,7 +4406,7 @@ return;
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4412,13 +4416,13 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun80, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun84, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4426,64 +4430,64 @@ Obj acc = R[1];
 Obj v = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 5, R);
+saveCont(co, clofun84, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3517830_37= co->res;
+Obj _3518927_37= co->res;
 Obj acc = R[1];
-Obj _3517831_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517831_37);
+Obj _3518928_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518928_37);
 return;
 }
 case 2:
 {
-Obj _3517829_37= co->res;
+Obj _3518926_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun80, 1, R);
+saveCont(co, clofun84, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3517828_37= co->res;
+Obj _3518925_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun80, 2, R);
+saveCont(co, clofun84, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3517827_37= co->res;
+Obj _3518924_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 3, R);
+saveCont(co, clofun84, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3517826_37= co->res;
+Obj _3518923_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 4, R);
+saveCont(co, clofun84, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4496,7 +4500,7 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4506,30 +4510,30 @@ Obj globals = R[3];
 R[1] = idx;
 R[2] = globals;
 R[3] = sym;
-saveCont(co, clofun78, 1, R);
+saveCont(co, clofun82, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
 return;
 }
 case 1:
 {
-Obj _3517819_37= co->res;
+Obj _3518916_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517819_37) {
+if (True == _3518916_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517820_37 = PRIM_CAR(globals);
-Obj _3517821_37 = PRIM_EQ(sym, _3517820_37);
-if (True == _3517821_37) {
+Obj _3518917_37 = PRIM_CAR(globals);
+Obj _3518918_37 = PRIM_EQ(sym, _3518917_37);
+if (True == _3518918_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517822_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517823_37 = PRIM_CDR(globals);
+Obj _3518919_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3518920_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517822_37, sym, _3517823_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3518919_37, sym, _3518920_37);
 return;
 }
 }
@@ -4537,7 +4541,7 @@ return;
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4545,72 +4549,72 @@ Obj sym = R[1];
 Obj globals = R[2];
 R[1] = sym;
 R[2] = globals;
-saveCont(co, clofun77, 2, R);
+saveCont(co, clofun81, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
 return;
 }
 case 1:
 {
-Obj _3517815_37= co->res;
+Obj _3518912_37= co->res;
 Obj sym = R[1];
-Obj val = R[2];
+Obj _3517758_37 = R[2];
 Obj globals = R[3];
-if (True == _3517815_37) {
+if (True == _3518912_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517816_37 = makeCons(co->gc, sym, val);
-Obj _3517817_37 = primSet(co, globals, _3517816_37);
-coraReturn(co, _3517817_37);
+Obj _3518913_37 = makeCons(co->gc, sym, _3517758_37);
+Obj _3518914_37 = primSet(co, globals, _3518913_37);
+coraReturn(co, _3518914_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517814_37= co->res;
+Obj _3518911_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517814_37;
+Obj _3517758_37 = _3518911_37;
 R[1] = sym;
-R[2] = val;
+R[2] = _3517758_37;
 R[3] = globals;
-saveCont(co, clofun77, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), sym, val);
+saveCont(co, clofun81, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), sym, _3517758_37);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517807_37 = primGenSym(co);
-Obj tmp = _3517807_37;
+Obj _3518904_37 = primGenSym(co);
+Obj _3517757_37 = _3518904_37;
 R[1] = x;
-R[2] = tmp;
-saveCont(co, clofun76, 1, R);
-coraCall1(co, k, tmp);
+R[2] = _3517757_37;
+saveCont(co, clofun80, 1, R);
+coraCall1(co, k, _3517757_37);
 return;
 }
 case 1:
 {
-Obj _3517808_37= co->res;
+Obj _3518905_37= co->res;
 Obj x = R[1];
-Obj tmp = R[2];
-Obj _3517809_37 = makeCons(co->gc, _3517808_37, Nil);
-Obj _3517810_37 = makeCons(co->gc, x, _3517809_37);
-Obj _3517811_37 = makeCons(co->gc, tmp, _3517810_37);
-Obj _3517812_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517811_37);
-coraReturn(co, _3517812_37);
+Obj _3517757_37 = R[2];
+Obj _3518906_37 = makeCons(co->gc, _3518905_37, Nil);
+Obj _3518907_37 = makeCons(co->gc, x, _3518906_37);
+Obj _3518908_37 = makeCons(co->gc, _3517757_37, _3518907_37);
+Obj _3518909_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518908_37);
+coraReturn(co, _3518909_37);
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4618,258 +4622,258 @@ Obj v = R[1];
 Obj val = R[2];
 R[1] = val;
 R[2] = v;
-saveCont(co, clofun75, 3, R);
+saveCont(co, clofun79, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3517805_37= co->res;
+Obj _3518902_37= co->res;
 Obj v = R[1];
-Obj cur1 = R[2];
+Obj _3517756_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), _3517756_37);
 return;
 }
 case 2:
 {
-Obj _3517800_37= co->res;
+Obj _3518897_37= co->res;
 Obj val = R[1];
-Obj idx = R[2];
+Obj _3517754_37 = R[2];
 Obj v = R[3];
-Obj cur = _3517800_37;
-Obj _3517801_37 = makeCons(co->gc, val, Nil);
-Obj _3517802_37 = makeCons(co->gc, idx, _3517801_37);
-Obj _3517803_37 = makeCons(co->gc, _3517802_37, cur);
-Obj cur1 = _3517803_37;
-Obj _3517804_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517755_37 = _3518897_37;
+Obj _3518898_37 = makeCons(co->gc, val, Nil);
+Obj _3518899_37 = makeCons(co->gc, _3517754_37, _3518898_37);
+Obj _3518900_37 = makeCons(co->gc, _3518899_37, _3517755_37);
+Obj _3517756_37 = _3518900_37;
+Obj _3518901_37 = PRIM_ADD(_3517754_37, MAKE_NUMBER(1));
 R[1] = v;
-R[2] = cur1;
-saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517804_37);
+R[2] = _3517756_37;
+saveCont(co, clofun79, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3518901_37);
 return;
 }
 case 3:
 {
-Obj _3517799_37= co->res;
+Obj _3518896_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517799_37;
+Obj _3517754_37 = _3518896_37;
 R[1] = val;
-R[2] = idx;
+R[2] = _3517754_37;
 R[3] = v;
-saveCont(co, clofun75, 2, R);
+saveCont(co, clofun79, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = R[1];
-Obj _3516738_37 = R[2];
-Obj _3516739_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516737_37, _3516738_37);
-Obj _3517750_37 = PRIM_ISCONS(_3516738_37);
-if (True == _3517750_37) {
-Obj _3517751_37 = PRIM_CAR(_3516738_37);
-Obj _3517752_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517751_37);
-if (True == _3517752_37) {
-Obj _3517753_37 = PRIM_CDR(_3516738_37);
-Obj _3517754_37 = PRIM_ISCONS(_3517753_37);
-if (True == _3517754_37) {
-Obj _3517755_37 = PRIM_CDR(_3516738_37);
-Obj _3517756_37 = PRIM_CAR(_3517755_37);
-Obj _3517757_37 = PRIM_ISCONS(_3517756_37);
-if (True == _3517757_37) {
-Obj _3517758_37 = PRIM_CDR(_3516738_37);
-Obj _3517759_37 = PRIM_CAR(_3517758_37);
-Obj _3517760_37 = PRIM_CAR(_3517759_37);
-Obj _3517761_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517760_37);
-if (True == _3517761_37) {
-Obj _3517762_37 = PRIM_CDR(_3516738_37);
-Obj _3517763_37 = PRIM_CAR(_3517762_37);
-Obj _3517764_37 = PRIM_CDR(_3517763_37);
-Obj _3517765_37 = PRIM_ISCONS(_3517764_37);
-if (True == _3517765_37) {
-Obj _3517766_37 = PRIM_CDR(_3516738_37);
-Obj _3517767_37 = PRIM_CAR(_3517766_37);
-Obj _3517768_37 = PRIM_CDR(_3517767_37);
-Obj _3517769_37 = PRIM_CAR(_3517768_37);
-Obj params = _3517769_37;
-Obj _3517770_37 = PRIM_CDR(_3516738_37);
-Obj _3517771_37 = PRIM_CAR(_3517770_37);
-Obj _3517772_37 = PRIM_CDR(_3517771_37);
-Obj _3517773_37 = PRIM_CDR(_3517772_37);
-Obj _3517774_37 = PRIM_ISCONS(_3517773_37);
-if (True == _3517774_37) {
-Obj _3517775_37 = PRIM_CDR(_3516738_37);
-Obj _3517776_37 = PRIM_CAR(_3517775_37);
-Obj _3517777_37 = PRIM_CDR(_3517776_37);
-Obj _3517778_37 = PRIM_CDR(_3517777_37);
-Obj _3517779_37 = PRIM_CAR(_3517778_37);
-Obj body = _3517779_37;
-Obj _3517780_37 = PRIM_CDR(_3516738_37);
-Obj _3517781_37 = PRIM_CAR(_3517780_37);
-Obj _3517782_37 = PRIM_CDR(_3517781_37);
-Obj _3517783_37 = PRIM_CDR(_3517782_37);
-Obj _3517784_37 = PRIM_CDR(_3517783_37);
-Obj _3517785_37 = PRIM_EQ(Nil, _3517784_37);
-if (True == _3517785_37) {
-Obj _3517786_37 = PRIM_CDR(_3516738_37);
-Obj _3517787_37 = PRIM_CDR(_3517786_37);
-Obj fvs = _3517787_37;
-R[1] = _3516737_37;
-R[2] = params;
-R[3] = fvs;
-saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516737_37, body);
+Obj _3517523_37 = R[1];
+Obj _3517524_37 = R[2];
+Obj _3517746_37 = makeNative(co->gc, 1, clofun77, 0, 2, _3517523_37, _3517524_37);
+Obj _3518847_37 = PRIM_ISCONS(_3517524_37);
+if (True == _3518847_37) {
+Obj _3518848_37 = PRIM_CAR(_3517524_37);
+Obj _3518849_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518848_37);
+if (True == _3518849_37) {
+Obj _3518850_37 = PRIM_CDR(_3517524_37);
+Obj _3518851_37 = PRIM_ISCONS(_3518850_37);
+if (True == _3518851_37) {
+Obj _3518852_37 = PRIM_CDR(_3517524_37);
+Obj _3518853_37 = PRIM_CAR(_3518852_37);
+Obj _3518854_37 = PRIM_ISCONS(_3518853_37);
+if (True == _3518854_37) {
+Obj _3518855_37 = PRIM_CDR(_3517524_37);
+Obj _3518856_37 = PRIM_CAR(_3518855_37);
+Obj _3518857_37 = PRIM_CAR(_3518856_37);
+Obj _3518858_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518857_37);
+if (True == _3518858_37) {
+Obj _3518859_37 = PRIM_CDR(_3517524_37);
+Obj _3518860_37 = PRIM_CAR(_3518859_37);
+Obj _3518861_37 = PRIM_CDR(_3518860_37);
+Obj _3518862_37 = PRIM_ISCONS(_3518861_37);
+if (True == _3518862_37) {
+Obj _3518863_37 = PRIM_CDR(_3517524_37);
+Obj _3518864_37 = PRIM_CAR(_3518863_37);
+Obj _3518865_37 = PRIM_CDR(_3518864_37);
+Obj _3518866_37 = PRIM_CAR(_3518865_37);
+Obj _3517747_37 = _3518866_37;
+Obj _3518867_37 = PRIM_CDR(_3517524_37);
+Obj _3518868_37 = PRIM_CAR(_3518867_37);
+Obj _3518869_37 = PRIM_CDR(_3518868_37);
+Obj _3518870_37 = PRIM_CDR(_3518869_37);
+Obj _3518871_37 = PRIM_ISCONS(_3518870_37);
+if (True == _3518871_37) {
+Obj _3518872_37 = PRIM_CDR(_3517524_37);
+Obj _3518873_37 = PRIM_CAR(_3518872_37);
+Obj _3518874_37 = PRIM_CDR(_3518873_37);
+Obj _3518875_37 = PRIM_CDR(_3518874_37);
+Obj _3518876_37 = PRIM_CAR(_3518875_37);
+Obj _3517748_37 = _3518876_37;
+Obj _3518877_37 = PRIM_CDR(_3517524_37);
+Obj _3518878_37 = PRIM_CAR(_3518877_37);
+Obj _3518879_37 = PRIM_CDR(_3518878_37);
+Obj _3518880_37 = PRIM_CDR(_3518879_37);
+Obj _3518881_37 = PRIM_CDR(_3518880_37);
+Obj _3518882_37 = PRIM_EQ(Nil, _3518881_37);
+if (True == _3518882_37) {
+Obj _3518883_37 = PRIM_CDR(_3517524_37);
+Obj _3518884_37 = PRIM_CDR(_3518883_37);
+Obj _3517749_37 = _3518884_37;
+R[1] = _3517523_37;
+R[2] = _3517747_37;
+R[3] = _3517749_37;
+saveCont(co, clofun78, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517523_37, _3517748_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516739_37);
+coraCall0(co, _3517746_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517793_37= co->res;
-Obj nframe = R[1];
-Obj fvs = R[2];
-Obj cur = R[3];
-Obj _3517794_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517795_37 = makeCons(co->gc, _3517793_37, _3517794_37);
-Obj _3517796_37 = makeCons(co->gc, cur, _3517795_37);
-Obj _3517797_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517796_37);
-coraReturn(co, _3517797_37);
+Obj _3518890_37= co->res;
+Obj _3517753_37 = R[1];
+Obj _3517749_37 = R[2];
+Obj _3517751_37 = R[3];
+Obj _3518891_37 = makeCons(co->gc, _3517753_37, _3517749_37);
+Obj _3518892_37 = makeCons(co->gc, _3518890_37, _3518891_37);
+Obj _3518893_37 = makeCons(co->gc, _3517751_37, _3518892_37);
+Obj _3518894_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518893_37);
+coraReturn(co, _3518894_37);
 return;
 }
 case 2:
 {
-Obj _3517792_37= co->res;
-Obj params = R[1];
-Obj nframe = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-R[1] = nframe;
-R[2] = fvs;
-R[3] = cur;
-saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), params);
+Obj _3518889_37= co->res;
+Obj _3517747_37 = R[1];
+Obj _3517753_37 = R[2];
+Obj _3517749_37 = R[3];
+Obj _3517751_37 = R[4];
+R[1] = _3517753_37;
+R[2] = _3517749_37;
+R[3] = _3517751_37;
+saveCont(co, clofun78, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517747_37);
 return;
 }
 case 3:
 {
-Obj _3517791_37= co->res;
-Obj _3516737_37 = R[1];
-Obj body2 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = R[5];
-Obj nframe = _3517791_37;
-R[1] = params;
-R[2] = nframe;
-R[3] = fvs;
-R[4] = cur;
-saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516737_37, body2);
+Obj _3518888_37= co->res;
+Obj _3517523_37 = R[1];
+Obj _3517752_37 = R[2];
+Obj _3517747_37 = R[3];
+Obj _3517749_37 = R[4];
+Obj _3517751_37 = R[5];
+Obj _3517753_37 = _3518888_37;
+R[1] = _3517747_37;
+R[2] = _3517753_37;
+R[3] = _3517749_37;
+R[4] = _3517751_37;
+saveCont(co, clofun78, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517523_37, _3517752_37);
 return;
 }
 case 4:
 {
-Obj _3517790_37= co->res;
-Obj _3516737_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-Obj body2 = _3517790_37;
-R[1] = _3516737_37;
-R[2] = body2;
-R[3] = params;
-R[4] = fvs;
-R[5] = cur;
-saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), body2);
+Obj _3518887_37= co->res;
+Obj _3517523_37 = R[1];
+Obj _3517747_37 = R[2];
+Obj _3517749_37 = R[3];
+Obj _3517751_37 = R[4];
+Obj _3517752_37 = _3518887_37;
+R[1] = _3517523_37;
+R[2] = _3517752_37;
+R[3] = _3517747_37;
+R[4] = _3517749_37;
+R[5] = _3517751_37;
+saveCont(co, clofun78, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), _3517752_37);
 return;
 }
 case 5:
 {
-Obj _3517789_37= co->res;
-Obj body1 = R[1];
-Obj _3516737_37 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = _3517789_37;
-R[1] = _3516737_37;
-R[2] = params;
-R[3] = fvs;
-R[4] = cur;
-saveCont(co, clofun74, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), params, body1);
+Obj _3518886_37= co->res;
+Obj _3517750_37 = R[1];
+Obj _3517523_37 = R[2];
+Obj _3517747_37 = R[3];
+Obj _3517749_37 = R[4];
+Obj _3517751_37 = _3518886_37;
+R[1] = _3517523_37;
+R[2] = _3517747_37;
+R[3] = _3517749_37;
+R[4] = _3517751_37;
+saveCont(co, clofun78, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), _3517747_37, _3517750_37);
 return;
 }
 case 6:
 {
-Obj _3517788_37= co->res;
-Obj _3516737_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj body1 = _3517788_37;
-R[1] = body1;
-R[2] = _3516737_37;
-R[3] = params;
-R[4] = fvs;
-saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516737_37, MAKE_NUMBER(0));
+Obj _3518885_37= co->res;
+Obj _3517523_37 = R[1];
+Obj _3517747_37 = R[2];
+Obj _3517749_37 = R[3];
+Obj _3517750_37 = _3518885_37;
+R[1] = _3517750_37;
+R[2] = _3517523_37;
+R[3] = _3517747_37;
+R[4] = _3517749_37;
+saveCont(co, clofun78, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517523_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517748_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517748_37) {
-saveCont(co, clofun73, 1, R);
+Obj _3518845_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518845_37) {
+saveCont(co, clofun77, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
@@ -4879,75 +4883,75 @@ return;
 }
 case 1:
 {
-Obj _3517749_37= co->res;
+Obj _3518846_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517749_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518846_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj lam = R[1];
 R[1] = lam;
-saveCont(co, clofun72, 3, R);
+saveCont(co, clofun76, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
 return;
 }
 case 1:
 {
-Obj _3517746_37= co->res;
-Obj _3517745_37 = R[1];
+Obj _3518843_37= co->res;
+Obj _3518842_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517745_37, _3517746_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun75, 2, 0), _3518842_37, _3518843_37);
 return;
 }
 case 2:
 {
-Obj _3517740_37= co->res;
+Obj _3518837_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517740_37;
-Obj _3517745_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517745_37;
-saveCont(co, clofun72, 1, R);
+Obj _3517744_37 = _3518837_37;
+Obj _3518842_37 = PRIM_ADD(_3517744_37, MAKE_NUMBER(1));
+R[1] = _3518842_37;
+saveCont(co, clofun76, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 3:
 {
-Obj _3517739_37= co->res;
+Obj _3518836_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517739_37);
+saveCont(co, clofun76, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518836_37);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj acc = R[1];
 Obj x = R[2];
 R[1] = acc;
-saveCont(co, clofun71, 2, R);
+saveCont(co, clofun75, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
 return;
 }
 case 1:
 {
-Obj _3517742_37= co->res;
+Obj _3518839_37= co->res;
 Obj acc = R[1];
-Obj _3517743_37 = PRIM_ADD(_3517742_37, MAKE_NUMBER(1));
-Obj len = _3517743_37;
-Obj _3517744_37 = PRIM_GT(len, acc);
-if (True == _3517744_37) {
-coraReturn(co, len);
+Obj _3518840_37 = PRIM_ADD(_3518839_37, MAKE_NUMBER(1));
+Obj _3517745_37 = _3518840_37;
+Obj _3518841_37 = PRIM_GT(_3517745_37, acc);
+if (True == _3518841_37) {
+coraReturn(co, _3517745_37);
 return;
 } else {
 coraReturn(co, acc);
@@ -4956,75 +4960,75 @@ return;
 }
 case 2:
 {
-Obj _3517741_37= co->res;
+Obj _3518838_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517741_37);
+saveCont(co, clofun75, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518838_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj params = R[1];
 Obj body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun73, 2, 1, params));
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body1 = R[1];
 Obj conts = R[2];
 R[1] = body1;
-saveCont(co, clofun69, 1, R);
+saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
 return;
 }
 case 1:
 {
-Obj _3517734_37= co->res;
+Obj _3518831_37= co->res;
 Obj body1 = R[1];
-Obj _3517735_37 = makeCons(co->gc, body1, _3517734_37);
-Obj _3517736_37 = makeCons(co->gc, closureRef(R[0], 0), _3517735_37);
-Obj _3517737_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517736_37);
-coraReturn(co, _3517737_37);
+Obj _3518832_37 = makeCons(co->gc, body1, _3518831_37);
+Obj _3518833_37 = makeCons(co->gc, closureRef(R[0], 0), _3518832_37);
+Obj _3518834_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518833_37);
+coraReturn(co, _3518834_37);
 return;
 }
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516731_37 = R[1];
-Obj _3516732_37 = R[2];
-Obj _3516733_37 = R[3];
-Obj _3516734_37 = R[4];
-Obj _3517728_37 = PRIM_EQ(Nil, _3516731_37);
-if (True == _3517728_37) {
+Obj _3517517_37 = R[1];
+Obj _3517518_37 = R[2];
+Obj _3517519_37 = R[3];
+Obj _3517520_37 = R[4];
+Obj _3518825_37 = PRIM_EQ(Nil, _3517517_37);
+if (True == _3518825_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516734_37, _3516733_37, _3516732_37);
+coraCall2(co, _3517520_37, _3517519_37, _3517518_37);
 return;
 } else {
-Obj _3517729_37 = PRIM_ISCONS(_3516731_37);
-if (True == _3517729_37) {
-Obj _3517730_37 = PRIM_CAR(_3516731_37);
-Obj f = _3517730_37;
-Obj _3517731_37 = PRIM_CDR(_3516731_37);
-Obj args = _3517731_37;
+Obj _3518826_37 = PRIM_ISCONS(_3517517_37);
+if (True == _3518826_37) {
+Obj _3518827_37 = PRIM_CAR(_3517517_37);
+Obj _3517742_37 = _3518827_37;
+Obj _3518828_37 = PRIM_CDR(_3517517_37);
+Obj _3517743_37 = _3518828_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516732_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516733_37, _3516734_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517742_37, _3517518_37, makeNative(co->gc, 3, clofun71, 2, 3, _3517743_37, _3517519_37, _3517520_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5036,131 +5040,131 @@ return;
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj f1 = R[1];
 Obj conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun70, 2, 2, closureRef(R[0], 2), f1));
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517732_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3518829_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517732_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3518829_37, conts2);
 return;
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516725_37 = R[1];
-Obj _3516726_37 = R[2];
-Obj _3516727_37 = R[3];
-Obj _3516801_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516725_37, _3516726_37, _3516727_37);
-Obj _3517725_37 = primIsSymbol(_3516725_37);
-if (True == _3517725_37) {
+Obj _3517511_37 = R[1];
+Obj _3517512_37 = R[2];
+Obj _3517513_37 = R[3];
+Obj _3517735_37 = makeNative(co->gc, 2, clofun68, 1, 3, _3517511_37, _3517512_37, _3517513_37);
+Obj _3518822_37 = primIsSymbol(_3517511_37);
+if (True == _3518822_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516801_37, True);
+coraCall1(co, _3517735_37, True);
 return;
 } else {
-R[1] = _3516801_37;
-saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516725_37);
+R[1] = _3517735_37;
+saveCont(co, clofun69, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517511_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517726_37= co->res;
-Obj _3516801_37 = R[1];
-if (True == _3517726_37) {
+Obj _3518823_37= co->res;
+Obj _3517735_37 = R[1];
+if (True == _3518823_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516801_37, True);
+coraCall1(co, _3517735_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516801_37, False);
+coraCall1(co, _3517735_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516802_37 = R[1];
-if (True == _3516802_37) {
+Obj _3517734_37 = R[1];
+if (True == _3517734_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516729_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517701_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517701_37) {
-Obj _3517702_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517703_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517702_37);
-if (True == _3517703_37) {
-Obj _3517704_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517705_37 = PRIM_ISCONS(_3517704_37);
-if (True == _3517705_37) {
-Obj _3517706_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517707_37 = PRIM_CAR(_3517706_37);
-Obj exp = _3517707_37;
-Obj _3517708_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517709_37 = PRIM_CDR(_3517708_37);
-Obj _3517710_37 = PRIM_ISCONS(_3517709_37);
-if (True == _3517710_37) {
-Obj _3517711_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517712_37 = PRIM_CDR(_3517711_37);
-Obj _3517713_37 = PRIM_CAR(_3517712_37);
-Obj cont = _3517713_37;
-Obj _3517714_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517715_37 = PRIM_CDR(_3517714_37);
-Obj _3517716_37 = PRIM_CDR(_3517715_37);
-Obj _3517717_37 = PRIM_EQ(Nil, _3517716_37);
-if (True == _3517717_37) {
+Obj _3517736_37 = makeNative(co->gc, 1, clofun66, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518798_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518798_37) {
+Obj _3518799_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518800_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518799_37);
+if (True == _3518800_37) {
+Obj _3518801_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518802_37 = PRIM_ISCONS(_3518801_37);
+if (True == _3518802_37) {
+Obj _3518803_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518804_37 = PRIM_CAR(_3518803_37);
+Obj _3517739_37 = _3518804_37;
+Obj _3518805_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518806_37 = PRIM_CDR(_3518805_37);
+Obj _3518807_37 = PRIM_ISCONS(_3518806_37);
+if (True == _3518807_37) {
+Obj _3518808_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518809_37 = PRIM_CDR(_3518808_37);
+Obj _3518810_37 = PRIM_CAR(_3518809_37);
+Obj _3517740_37 = _3518810_37;
+Obj _3518811_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518812_37 = PRIM_CDR(_3518811_37);
+Obj _3518813_37 = PRIM_CDR(_3518812_37);
+Obj _3518814_37 = PRIM_EQ(Nil, _3518813_37);
+if (True == _3518814_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517740_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun67, 2, 2, closureRef(R[0], 2), _3517739_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517736_37);
 return;
 }
 }
@@ -5168,7 +5172,7 @@ return;
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5176,54 +5180,54 @@ Obj cont1 = R[1];
 Obj conts1 = R[2];
 R[1] = cont1;
 R[2] = conts1;
-saveCont(co, clofun63, 2, R);
+saveCont(co, clofun67, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
 return;
 }
 case 1:
 {
-Obj _3517719_37= co->res;
-Obj fvs = R[1];
+Obj _3518816_37= co->res;
+Obj _3517741_37 = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517720_37 = PRIM_ADD(_3517719_37, MAKE_NUMBER(1));
-Obj _3517721_37 = makeCons(co->gc, _3517720_37, fvs);
-Obj _3517722_37 = makeCons(co->gc, closureRef(R[0], 1), _3517721_37);
-Obj _3517723_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517722_37);
-Obj _3517724_37 = makeCons(co->gc, cont1, conts1);
+Obj _3518817_37 = PRIM_ADD(_3518816_37, MAKE_NUMBER(1));
+Obj _3518818_37 = makeCons(co->gc, _3518817_37, _3517741_37);
+Obj _3518819_37 = makeCons(co->gc, closureRef(R[0], 1), _3518818_37);
+Obj _3518820_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518819_37);
+Obj _3518821_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517723_37, _3517724_37);
+coraCall2(co, closureRef(R[0], 0), _3518820_37, _3518821_37);
 return;
 }
 case 2:
 {
-Obj _3517718_37= co->res;
+Obj _3518815_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517718_37;
-R[1] = fvs;
+Obj _3517741_37 = _3518815_37;
+R[1] = _3517741_37;
 R[2] = cont1;
 R[3] = conts1;
-saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), conts1);
+saveCont(co, clofun67, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), conts1);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517697_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517697_37) {
-Obj _3517698_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517698_37;
-Obj _3517699_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517699_37;
-Obj _3517700_37 = makeCons(co->gc, f, args);
+Obj _3518794_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518794_37) {
+Obj _3518795_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517737_37 = _3518795_37;
+Obj _3518796_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517738_37 = _3518796_37;
+Obj _3518797_37 = makeCons(co->gc, _3517737_37, _3517738_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517700_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3518797_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5234,94 +5238,94 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516717_37 = R[1];
-Obj _3516718_37 = R[2];
-R[1] = _3516718_37;
-R[2] = _3516717_37;
-saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516718_37);
+Obj _3517503_37 = R[1];
+Obj _3517504_37 = R[2];
+R[1] = _3517504_37;
+R[2] = _3517503_37;
+saveCont(co, clofun65, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517504_37);
 return;
 }
 case 1:
 {
-Obj _3517692_37= co->res;
-Obj args = R[1];
-Obj _3517693_37 = makeCons(co->gc, _3517692_37, Nil);
-Obj _3517694_37 = makeCons(co->gc, args, _3517693_37);
-Obj _3517695_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517694_37);
-coraReturn(co, _3517695_37);
+Obj _3518789_37= co->res;
+Obj _3517731_37 = R[1];
+Obj _3518790_37 = makeCons(co->gc, _3518789_37, Nil);
+Obj _3518791_37 = makeCons(co->gc, _3517731_37, _3518790_37);
+Obj _3518792_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518791_37);
+coraReturn(co, _3518792_37);
 return;
 }
 case 2:
 {
-Obj _3517620_37= co->res;
-Obj _3516718_37 = R[1];
-Obj _3516717_37 = R[2];
-if (True == _3517620_37) {
-coraReturn(co, _3516718_37);
-return;
-} else {
-Obj _3517621_37 = primIsSymbol(_3516718_37);
-if (True == _3517621_37) {
-coraReturn(co, _3516718_37);
-return;
-} else {
-Obj _3516721_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516718_37, _3516717_37);
-Obj _3517675_37 = PRIM_ISCONS(_3516718_37);
-if (True == _3517675_37) {
-Obj _3517676_37 = PRIM_CAR(_3516718_37);
-Obj _3517677_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517676_37);
-if (True == _3517677_37) {
-Obj _3517678_37 = PRIM_CDR(_3516718_37);
-Obj _3517679_37 = PRIM_ISCONS(_3517678_37);
-if (True == _3517679_37) {
-Obj _3517680_37 = PRIM_CDR(_3516718_37);
-Obj _3517681_37 = PRIM_CAR(_3517680_37);
-Obj args = _3517681_37;
-Obj _3517682_37 = PRIM_CDR(_3516718_37);
-Obj _3517683_37 = PRIM_CDR(_3517682_37);
-Obj _3517684_37 = PRIM_ISCONS(_3517683_37);
-if (True == _3517684_37) {
-Obj _3517685_37 = PRIM_CDR(_3516718_37);
-Obj _3517686_37 = PRIM_CDR(_3517685_37);
-Obj _3517687_37 = PRIM_CAR(_3517686_37);
-Obj body = _3517687_37;
-Obj _3517688_37 = PRIM_CDR(_3516718_37);
-Obj _3517689_37 = PRIM_CDR(_3517688_37);
-Obj _3517690_37 = PRIM_CDR(_3517689_37);
-Obj _3517691_37 = PRIM_EQ(Nil, _3517690_37);
-if (True == _3517691_37) {
-R[1] = args;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516717_37, body);
+Obj _3518717_37= co->res;
+Obj _3517504_37 = R[1];
+Obj _3517503_37 = R[2];
+if (True == _3518717_37) {
+coraReturn(co, _3517504_37);
+return;
+} else {
+Obj _3518718_37 = primIsSymbol(_3517504_37);
+if (True == _3518718_37) {
+coraReturn(co, _3517504_37);
+return;
+} else {
+Obj _3517720_37 = makeNative(co->gc, 4, clofun64, 0, 2, _3517504_37, _3517503_37);
+Obj _3518772_37 = PRIM_ISCONS(_3517504_37);
+if (True == _3518772_37) {
+Obj _3518773_37 = PRIM_CAR(_3517504_37);
+Obj _3518774_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518773_37);
+if (True == _3518774_37) {
+Obj _3518775_37 = PRIM_CDR(_3517504_37);
+Obj _3518776_37 = PRIM_ISCONS(_3518775_37);
+if (True == _3518776_37) {
+Obj _3518777_37 = PRIM_CDR(_3517504_37);
+Obj _3518778_37 = PRIM_CAR(_3518777_37);
+Obj _3517731_37 = _3518778_37;
+Obj _3518779_37 = PRIM_CDR(_3517504_37);
+Obj _3518780_37 = PRIM_CDR(_3518779_37);
+Obj _3518781_37 = PRIM_ISCONS(_3518780_37);
+if (True == _3518781_37) {
+Obj _3518782_37 = PRIM_CDR(_3517504_37);
+Obj _3518783_37 = PRIM_CDR(_3518782_37);
+Obj _3518784_37 = PRIM_CAR(_3518783_37);
+Obj _3517732_37 = _3518784_37;
+Obj _3518785_37 = PRIM_CDR(_3517504_37);
+Obj _3518786_37 = PRIM_CDR(_3518785_37);
+Obj _3518787_37 = PRIM_CDR(_3518786_37);
+Obj _3518788_37 = PRIM_EQ(Nil, _3518787_37);
+if (True == _3518788_37) {
+R[1] = _3517731_37;
+saveCont(co, clofun65, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517503_37, _3517732_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517720_37);
 return;
 }
 }
@@ -5330,235 +5334,235 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517650_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517650_37) {
-Obj _3517651_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517652_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517651_37);
-if (True == _3517652_37) {
-Obj _3517653_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517654_37 = PRIM_ISCONS(_3517653_37);
-if (True == _3517654_37) {
-Obj _3517655_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517656_37 = PRIM_CAR(_3517655_37);
-Obj val = _3517656_37;
-Obj _3517657_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517658_37 = PRIM_CDR(_3517657_37);
-Obj _3517659_37 = PRIM_ISCONS(_3517658_37);
-if (True == _3517659_37) {
-Obj _3517660_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517661_37 = PRIM_CDR(_3517660_37);
-Obj _3517662_37 = PRIM_CAR(_3517661_37);
-Obj body = _3517662_37;
-Obj _3517663_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517664_37 = PRIM_CDR(_3517663_37);
-Obj _3517665_37 = PRIM_CDR(_3517664_37);
-Obj _3517666_37 = PRIM_EQ(Nil, _3517665_37);
-if (True == _3517666_37) {
-R[1] = body;
-R[2] = val;
-saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+Obj _3517721_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518747_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518747_37) {
+Obj _3518748_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518749_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518748_37);
+if (True == _3518749_37) {
+Obj _3518750_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518751_37 = PRIM_ISCONS(_3518750_37);
+if (True == _3518751_37) {
+Obj _3518752_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518753_37 = PRIM_CAR(_3518752_37);
+Obj _3517727_37 = _3518753_37;
+Obj _3518754_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518755_37 = PRIM_CDR(_3518754_37);
+Obj _3518756_37 = PRIM_ISCONS(_3518755_37);
+if (True == _3518756_37) {
+Obj _3518757_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518758_37 = PRIM_CDR(_3518757_37);
+Obj _3518759_37 = PRIM_CAR(_3518758_37);
+Obj _3517728_37 = _3518759_37;
+Obj _3518760_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518761_37 = PRIM_CDR(_3518760_37);
+Obj _3518762_37 = PRIM_CDR(_3518761_37);
+Obj _3518763_37 = PRIM_EQ(Nil, _3518762_37);
+if (True == _3518763_37) {
+R[1] = _3517728_37;
+R[2] = _3517727_37;
+saveCont(co, clofun64, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517728_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517721_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517671_37= co->res;
-Obj fvs2 = R[1];
-Obj val = R[2];
-Obj _3517672_37 = makeCons(co->gc, _3517671_37, fvs2);
-Obj _3517673_37 = makeCons(co->gc, val, _3517672_37);
-Obj _3517674_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517673_37);
-coraReturn(co, _3517674_37);
+Obj _3518768_37= co->res;
+Obj _3517730_37 = R[1];
+Obj _3517727_37 = R[2];
+Obj _3518769_37 = makeCons(co->gc, _3518768_37, _3517730_37);
+Obj _3518770_37 = makeCons(co->gc, _3517727_37, _3518769_37);
+Obj _3518771_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3518770_37);
+coraReturn(co, _3518771_37);
 return;
 }
 case 2:
 {
-Obj _3517670_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-Obj fvs2 = _3517670_37;
-R[1] = fvs2;
-R[2] = val;
-saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), fvs1, body);
+Obj _3518767_37= co->res;
+Obj _3517729_37 = R[1];
+Obj _3517728_37 = R[2];
+Obj _3517727_37 = R[3];
+Obj _3517730_37 = _3518767_37;
+R[1] = _3517730_37;
+R[2] = _3517727_37;
+saveCont(co, clofun64, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517729_37, _3517728_37);
 return;
 }
 case 3:
 {
-Obj _3517669_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517669_37, fvs1);
+Obj _3518766_37= co->res;
+Obj _3517729_37 = R[1];
+Obj _3517728_37 = R[2];
+Obj _3517727_37 = R[3];
+R[1] = _3517729_37;
+R[2] = _3517728_37;
+R[3] = _3517727_37;
+saveCont(co, clofun64, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518766_37, _3517729_37);
 return;
 }
 case 4:
 {
-Obj _3517668_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-Obj fvs1 = _3517668_37;
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
-saveCont(co, clofun60, 3, R);
+Obj _3518765_37= co->res;
+Obj _3517728_37 = R[1];
+Obj _3517727_37 = R[2];
+Obj _3517729_37 = _3518765_37;
+R[1] = _3517729_37;
+R[2] = _3517728_37;
+R[3] = _3517727_37;
+saveCont(co, clofun64, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3517667_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-R[1] = body;
-R[2] = val;
-saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517667_37, val);
+Obj _3518764_37= co->res;
+Obj _3517728_37 = R[1];
+Obj _3517727_37 = R[2];
+R[1] = _3517728_37;
+R[2] = _3517727_37;
+saveCont(co, clofun64, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518764_37, _3517727_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517627_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517627_37) {
-Obj _3517628_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517629_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517628_37);
-if (True == _3517629_37) {
-Obj _3517630_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517631_37 = PRIM_ISCONS(_3517630_37);
-if (True == _3517631_37) {
-Obj _3517632_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517633_37 = PRIM_CAR(_3517632_37);
-Obj exp = _3517633_37;
-Obj _3517634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517635_37 = PRIM_CDR(_3517634_37);
-Obj _3517636_37 = PRIM_ISCONS(_3517635_37);
-if (True == _3517636_37) {
-Obj _3517637_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517638_37 = PRIM_CDR(_3517637_37);
-Obj _3517639_37 = PRIM_CAR(_3517638_37);
-Obj cont = _3517639_37;
-Obj _3517640_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517641_37 = PRIM_CDR(_3517640_37);
-Obj _3517642_37 = PRIM_CDR(_3517641_37);
-Obj _3517643_37 = PRIM_EQ(Nil, _3517642_37);
-if (True == _3517643_37) {
-R[1] = exp;
-R[2] = cont;
-saveCont(co, clofun59, 3, R);
+Obj _3517722_37 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518724_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518724_37) {
+Obj _3518725_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518726_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518725_37);
+if (True == _3518726_37) {
+Obj _3518727_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518728_37 = PRIM_ISCONS(_3518727_37);
+if (True == _3518728_37) {
+Obj _3518729_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518730_37 = PRIM_CAR(_3518729_37);
+Obj _3517725_37 = _3518730_37;
+Obj _3518731_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518732_37 = PRIM_CDR(_3518731_37);
+Obj _3518733_37 = PRIM_ISCONS(_3518732_37);
+if (True == _3518733_37) {
+Obj _3518734_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518735_37 = PRIM_CDR(_3518734_37);
+Obj _3518736_37 = PRIM_CAR(_3518735_37);
+Obj _3517726_37 = _3518736_37;
+Obj _3518737_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518738_37 = PRIM_CDR(_3518737_37);
+Obj _3518739_37 = PRIM_CDR(_3518738_37);
+Obj _3518740_37 = PRIM_EQ(Nil, _3518739_37);
+if (True == _3518740_37) {
+R[1] = _3517725_37;
+R[2] = _3517726_37;
+saveCont(co, clofun63, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3517722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3517722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3517722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3517722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3517722_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517646_37= co->res;
-Obj _3517645_37 = R[1];
-Obj _3517647_37 = makeCons(co->gc, _3517646_37, Nil);
-Obj _3517648_37 = makeCons(co->gc, _3517645_37, _3517647_37);
-Obj _3517649_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517648_37);
-coraReturn(co, _3517649_37);
+Obj _3518743_37= co->res;
+Obj _3518742_37 = R[1];
+Obj _3518744_37 = makeCons(co->gc, _3518743_37, Nil);
+Obj _3518745_37 = makeCons(co->gc, _3518742_37, _3518744_37);
+Obj _3518746_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518745_37);
+coraReturn(co, _3518746_37);
 return;
 }
 case 2:
 {
-Obj _3517645_37= co->res;
-Obj cont = R[1];
-R[1] = _3517645_37;
-saveCont(co, clofun59, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
+Obj _3518742_37= co->res;
+Obj _3517726_37 = R[1];
+R[1] = _3518742_37;
+saveCont(co, clofun63, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), _3517726_37);
 return;
 }
 case 3:
 {
-Obj _3517644_37= co->res;
-Obj exp = R[1];
-Obj cont = R[2];
-R[1] = cont;
-saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517644_37, exp);
+Obj _3518741_37= co->res;
+Obj _3517725_37 = R[1];
+Obj _3517726_37 = R[2];
+R[1] = _3517726_37;
+saveCont(co, clofun63, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518741_37, _3517725_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517622_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517622_37) {
-Obj _3517623_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517623_37;
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517624_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun58, 1, R);
+Obj _3518719_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518719_37) {
+Obj _3518720_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517723_37 = _3518720_37;
+Obj _3518721_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517724_37 = _3518721_37;
+R[1] = _3517723_37;
+R[2] = _3517724_37;
+saveCont(co, clofun62, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
@@ -5569,39 +5573,39 @@ return;
 }
 case 1:
 {
-Obj _3517625_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517626_37 = makeCons(co->gc, f, args);
+Obj _3518722_37= co->res;
+Obj _3517723_37 = R[1];
+Obj _3517724_37 = R[2];
+Obj _3518723_37 = makeCons(co->gc, _3517723_37, _3517724_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517625_37, _3517626_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518722_37, _3518723_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516712_37 = R[1];
-Obj _3516713_37 = R[2];
-Obj _3516714_37 = R[3];
-Obj _3517597_37 = PRIM_EQ(Nil, _3516712_37);
-if (True == _3517597_37) {
-R[1] = _3516714_37;
-saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516713_37);
+Obj _3517498_37 = R[1];
+Obj _3517499_37 = R[2];
+Obj _3517500_37 = R[3];
+Obj _3518694_37 = PRIM_EQ(Nil, _3517498_37);
+if (True == _3518694_37) {
+R[1] = _3517500_37;
+saveCont(co, clofun61, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517499_37);
 return;
 } else {
-Obj _3517615_37 = PRIM_ISCONS(_3516712_37);
-if (True == _3517615_37) {
-Obj _3517616_37 = PRIM_CAR(_3516712_37);
-Obj hd = _3517616_37;
-Obj _3517617_37 = PRIM_CDR(_3516712_37);
-Obj tl = _3517617_37;
+Obj _3518712_37 = PRIM_ISCONS(_3517498_37);
+if (True == _3518712_37) {
+Obj _3518713_37 = PRIM_CAR(_3517498_37);
+Obj _3517718_37 = _3518713_37;
+Obj _3518714_37 = PRIM_CDR(_3517498_37);
+Obj _3517719_37 = _3518714_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516713_37, _3516714_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517718_37, makeNative(co->gc, 2, clofun60, 1, 3, _3517719_37, _3517499_37, _3517500_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5612,232 +5616,232 @@ return;
 }
 case 1:
 {
-Obj _3517613_37= co->res;
-Obj _3516799_37 = R[1];
-Obj _3517614_37 = PRIM_EQ(_3517613_37, getBinding(co, packageID, 90).name);
-if (True == _3517614_37) {
+Obj _3518710_37= co->res;
+Obj _3517716_37 = R[1];
+Obj _3518711_37 = PRIM_EQ(_3518710_37, getBinding(co, packageID, 91).name);
+if (True == _3518711_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516799_37, True);
+coraCall1(co, _3517716_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516799_37, False);
+coraCall1(co, _3517716_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517612_37= co->res;
-Obj exp = R[1];
-Obj _3516799_37 = R[2];
-if (True == _3517612_37) {
-R[1] = _3516799_37;
-saveCont(co, clofun57, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
+Obj _3518709_37= co->res;
+Obj _3517713_37 = R[1];
+Obj _3517716_37 = R[2];
+if (True == _3518709_37) {
+R[1] = _3517716_37;
+saveCont(co, clofun61, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), _3517713_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516799_37, False);
+coraCall1(co, _3517716_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517598_37= co->res;
-Obj _3516714_37 = R[1];
-Obj exp = _3517598_37;
-Obj _3516799_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516714_37);
-Obj _3517611_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3516799_37;
-saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517611_37);
+Obj _3518695_37= co->res;
+Obj _3517500_37 = R[1];
+Obj _3517713_37 = _3518695_37;
+Obj _3517716_37 = makeNative(co->gc, 2, clofun59, 1, 2, _3517713_37, _3517500_37);
+Obj _3518708_37 = PRIM_CAR(_3517713_37);
+R[1] = _3517713_37;
+R[2] = _3517716_37;
+saveCont(co, clofun61, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3518708_37);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517618_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3518715_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517618_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3518715_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516800_37 = R[1];
-if (True == _3516800_37) {
+Obj _3517715_37 = R[1];
+if (True == _3517715_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517599_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517599_37) {
-Obj _3517600_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517601_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517600_37);
-coraReturn(co, _3517601_37);
+Obj _3518696_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == _3518696_37) {
+Obj _3518697_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518698_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3518697_37);
+coraReturn(co, _3518698_37);
 return;
 } else {
-Obj _3517602_37 = primGenSym(co);
-Obj val = _3517602_37;
-Obj _3517603_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517603_37;
-saveCont(co, clofun55, 1, R);
-coraCall1(co, closureRef(R[0], 1), val);
+Obj _3518699_37 = primGenSym(co);
+Obj _3517717_37 = _3518699_37;
+Obj _3518700_37 = makeCons(co->gc, _3517717_37, Nil);
+R[1] = _3518700_37;
+saveCont(co, clofun59, 1, R);
+coraCall1(co, closureRef(R[0], 1), _3517717_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517604_37= co->res;
-Obj _3517603_37 = R[1];
-Obj _3517605_37 = makeCons(co->gc, _3517604_37, Nil);
-Obj _3517606_37 = makeCons(co->gc, _3517603_37, _3517605_37);
-Obj _3517607_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517606_37);
-Obj _3517608_37 = makeCons(co->gc, _3517607_37, Nil);
-Obj _3517609_37 = makeCons(co->gc, closureRef(R[0], 0), _3517608_37);
-Obj _3517610_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517609_37);
-coraReturn(co, _3517610_37);
+Obj _3518701_37= co->res;
+Obj _3518700_37 = R[1];
+Obj _3518702_37 = makeCons(co->gc, _3518701_37, Nil);
+Obj _3518703_37 = makeCons(co->gc, _3518700_37, _3518702_37);
+Obj _3518704_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3518703_37);
+Obj _3518705_37 = makeCons(co->gc, _3518704_37, Nil);
+Obj _3518706_37 = makeCons(co->gc, closureRef(R[0], 0), _3518705_37);
+Obj _3518707_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518706_37);
+coraReturn(co, _3518707_37);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516703_37 = R[1];
-Obj _3516704_37 = R[2];
-Obj _3516797_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516703_37, _3516704_37);
-Obj _3517594_37 = primIsSymbol(_3516703_37);
-if (True == _3517594_37) {
+Obj _3517489_37 = R[1];
+Obj _3517490_37 = R[2];
+Obj _3517695_37 = makeNative(co->gc, 2, clofun57, 1, 2, _3517489_37, _3517490_37);
+Obj _3518691_37 = primIsSymbol(_3517489_37);
+if (True == _3518691_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516797_37, True);
+coraCall1(co, _3517695_37, True);
 return;
 } else {
-R[1] = _3516797_37;
-saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516703_37);
+R[1] = _3517695_37;
+saveCont(co, clofun58, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517489_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517595_37= co->res;
-Obj _3516797_37 = R[1];
-if (True == _3517595_37) {
+Obj _3518692_37= co->res;
+Obj _3517695_37 = R[1];
+if (True == _3518692_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516797_37, True);
+coraCall1(co, _3517695_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516797_37, False);
+coraCall1(co, _3517695_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516798_37 = R[1];
-if (True == _3516798_37) {
+Obj _3517694_37 = R[1];
+if (True == _3517694_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun53, 1, R);
+saveCont(co, clofun57, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj _3517460_37= co->res;
-if (True == _3517460_37) {
+Obj _3518557_37= co->res;
+if (True == _3518557_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516707_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517562_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517562_37) {
-Obj _3517563_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517564_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517563_37);
-if (True == _3517564_37) {
-Obj _3517565_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517566_37 = PRIM_ISCONS(_3517565_37);
-if (True == _3517566_37) {
-Obj _3517567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517568_37 = PRIM_CAR(_3517567_37);
-Obj a = _3517568_37;
-Obj _3517569_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517570_37 = PRIM_CDR(_3517569_37);
-Obj _3517571_37 = PRIM_ISCONS(_3517570_37);
-if (True == _3517571_37) {
-Obj _3517572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517573_37 = PRIM_CDR(_3517572_37);
-Obj _3517574_37 = PRIM_CAR(_3517573_37);
-Obj b = _3517574_37;
-Obj _3517575_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517576_37 = PRIM_CDR(_3517575_37);
-Obj _3517577_37 = PRIM_CDR(_3517576_37);
-Obj _3517578_37 = PRIM_ISCONS(_3517577_37);
-if (True == _3517578_37) {
-Obj _3517579_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517580_37 = PRIM_CDR(_3517579_37);
-Obj _3517581_37 = PRIM_CDR(_3517580_37);
-Obj _3517582_37 = PRIM_CAR(_3517581_37);
-Obj c = _3517582_37;
-Obj _3517583_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517584_37 = PRIM_CDR(_3517583_37);
-Obj _3517585_37 = PRIM_CDR(_3517584_37);
-Obj _3517586_37 = PRIM_CDR(_3517585_37);
-Obj _3517587_37 = PRIM_EQ(Nil, _3517586_37);
-if (True == _3517587_37) {
+Obj _3517696_37 = makeNative(co->gc, 1, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518659_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518659_37) {
+Obj _3518660_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518661_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518660_37);
+if (True == _3518661_37) {
+Obj _3518662_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518663_37 = PRIM_ISCONS(_3518662_37);
+if (True == _3518663_37) {
+Obj _3518664_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518665_37 = PRIM_CAR(_3518664_37);
+Obj _3517710_37 = _3518665_37;
+Obj _3518666_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518667_37 = PRIM_CDR(_3518666_37);
+Obj _3518668_37 = PRIM_ISCONS(_3518667_37);
+if (True == _3518668_37) {
+Obj _3518669_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518670_37 = PRIM_CDR(_3518669_37);
+Obj _3518671_37 = PRIM_CAR(_3518670_37);
+Obj _3517711_37 = _3518671_37;
+Obj _3518672_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518673_37 = PRIM_CDR(_3518672_37);
+Obj _3518674_37 = PRIM_CDR(_3518673_37);
+Obj _3518675_37 = PRIM_ISCONS(_3518674_37);
+if (True == _3518675_37) {
+Obj _3518676_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518677_37 = PRIM_CDR(_3518676_37);
+Obj _3518678_37 = PRIM_CDR(_3518677_37);
+Obj _3518679_37 = PRIM_CAR(_3518678_37);
+Obj _3517712_37 = _3518679_37;
+Obj _3518680_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518681_37 = PRIM_CDR(_3518680_37);
+Obj _3518682_37 = PRIM_CDR(_3518681_37);
+Obj _3518683_37 = PRIM_CDR(_3518682_37);
+Obj _3518684_37 = PRIM_EQ(Nil, _3518683_37);
+if (True == _3518684_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun52, 1, 3, b, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517710_37, makeNative(co->gc, 3, clofun56, 1, 3, _3517711_37, _3517712_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516707_37);
+coraCall0(co, _3517696_37);
 return;
 }
 }
@@ -5845,363 +5849,363 @@ return;
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj ra = R[1];
 R[1] = ra;
-saveCont(co, clofun52, 2, R);
+saveCont(co, clofun56, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517589_37= co->res;
-Obj _3517588_37 = R[1];
+Obj _3518686_37= co->res;
+Obj _3518685_37 = R[1];
 Obj ra = R[2];
-Obj _3517590_37 = makeCons(co->gc, _3517589_37, Nil);
-Obj _3517591_37 = makeCons(co->gc, _3517588_37, _3517590_37);
-Obj _3517592_37 = makeCons(co->gc, ra, _3517591_37);
-Obj _3517593_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517592_37);
-coraReturn(co, _3517593_37);
+Obj _3518687_37 = makeCons(co->gc, _3518686_37, Nil);
+Obj _3518688_37 = makeCons(co->gc, _3518685_37, _3518687_37);
+Obj _3518689_37 = makeCons(co->gc, ra, _3518688_37);
+Obj _3518690_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518689_37);
+coraReturn(co, _3518690_37);
 return;
 }
 case 2:
 {
-Obj _3517588_37= co->res;
+Obj _3518685_37= co->res;
 Obj ra = R[1];
-R[1] = _3517588_37;
+R[1] = _3518685_37;
 R[2] = ra;
-saveCont(co, clofun52, 1, R);
+saveCont(co, clofun56, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517540_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517540_37) {
-Obj _3517541_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517542_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517541_37);
-if (True == _3517542_37) {
-Obj _3517543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517544_37 = PRIM_ISCONS(_3517543_37);
-if (True == _3517544_37) {
-Obj _3517545_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517546_37 = PRIM_CAR(_3517545_37);
-Obj a = _3517546_37;
-Obj _3517547_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517548_37 = PRIM_CDR(_3517547_37);
-Obj _3517549_37 = PRIM_ISCONS(_3517548_37);
-if (True == _3517549_37) {
-Obj _3517550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517551_37 = PRIM_CDR(_3517550_37);
-Obj _3517552_37 = PRIM_CAR(_3517551_37);
-Obj b = _3517552_37;
-Obj _3517553_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517554_37 = PRIM_CDR(_3517553_37);
-Obj _3517555_37 = PRIM_CDR(_3517554_37);
-Obj _3517556_37 = PRIM_EQ(Nil, _3517555_37);
-if (True == _3517556_37) {
+Obj _3517697_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518637_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518637_37) {
+Obj _3518638_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518639_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518638_37);
+if (True == _3518639_37) {
+Obj _3518640_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518641_37 = PRIM_ISCONS(_3518640_37);
+if (True == _3518641_37) {
+Obj _3518642_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518643_37 = PRIM_CAR(_3518642_37);
+Obj _3517708_37 = _3518643_37;
+Obj _3518644_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518645_37 = PRIM_CDR(_3518644_37);
+Obj _3518646_37 = PRIM_ISCONS(_3518645_37);
+if (True == _3518646_37) {
+Obj _3518647_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518648_37 = PRIM_CDR(_3518647_37);
+Obj _3518649_37 = PRIM_CAR(_3518648_37);
+Obj _3517709_37 = _3518649_37;
+Obj _3518650_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518651_37 = PRIM_CDR(_3518650_37);
+Obj _3518652_37 = PRIM_CDR(_3518651_37);
+Obj _3518653_37 = PRIM_EQ(Nil, _3518652_37);
+if (True == _3518653_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun50, 1, 2, b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517708_37, makeNative(co->gc, 2, clofun54, 1, 2, _3517709_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3517697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3517697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3517697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3517697_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516708_37);
+coraCall0(co, _3517697_37);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517557_37 = primIsSymbol(ra);
-if (True == _3517557_37) {
+Obj _3518654_37 = primIsSymbol(ra);
+if (True == _3518654_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = ra;
-saveCont(co, clofun50, 1, R);
+saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3517558_37= co->res;
+Obj _3518655_37= co->res;
 Obj ra = R[1];
-Obj _3517559_37 = makeCons(co->gc, _3517558_37, Nil);
-Obj _3517560_37 = makeCons(co->gc, ra, _3517559_37);
-Obj _3517561_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517560_37);
-coraReturn(co, _3517561_37);
+Obj _3518656_37 = makeCons(co->gc, _3518655_37, Nil);
+Obj _3518657_37 = makeCons(co->gc, ra, _3518656_37);
+Obj _3518658_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3518657_37);
+coraReturn(co, _3518658_37);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516709_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517509_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517509_37) {
-Obj _3517510_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517511_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517510_37);
-if (True == _3517511_37) {
-Obj _3517512_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517513_37 = PRIM_ISCONS(_3517512_37);
-if (True == _3517513_37) {
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_CAR(_3517514_37);
-Obj a = _3517515_37;
-Obj _3517516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517517_37 = PRIM_CDR(_3517516_37);
-Obj _3517518_37 = PRIM_ISCONS(_3517517_37);
-if (True == _3517518_37) {
-Obj _3517519_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517520_37 = PRIM_CDR(_3517519_37);
-Obj _3517521_37 = PRIM_CAR(_3517520_37);
-Obj b = _3517521_37;
-Obj _3517522_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517523_37 = PRIM_CDR(_3517522_37);
-Obj _3517524_37 = PRIM_CDR(_3517523_37);
-Obj _3517525_37 = PRIM_ISCONS(_3517524_37);
-if (True == _3517525_37) {
-Obj _3517526_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517527_37 = PRIM_CDR(_3517526_37);
-Obj _3517528_37 = PRIM_CDR(_3517527_37);
-Obj _3517529_37 = PRIM_CAR(_3517528_37);
-Obj c = _3517529_37;
-Obj _3517530_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517531_37 = PRIM_CDR(_3517530_37);
-Obj _3517532_37 = PRIM_CDR(_3517531_37);
-Obj _3517533_37 = PRIM_CDR(_3517532_37);
-Obj _3517534_37 = PRIM_EQ(Nil, _3517533_37);
-if (True == _3517534_37) {
+Obj _3517698_37 = makeNative(co->gc, 3, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518606_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518606_37) {
+Obj _3518607_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518608_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518607_37);
+if (True == _3518608_37) {
+Obj _3518609_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518610_37 = PRIM_ISCONS(_3518609_37);
+if (True == _3518610_37) {
+Obj _3518611_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518612_37 = PRIM_CAR(_3518611_37);
+Obj _3517705_37 = _3518612_37;
+Obj _3518613_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518614_37 = PRIM_CDR(_3518613_37);
+Obj _3518615_37 = PRIM_ISCONS(_3518614_37);
+if (True == _3518615_37) {
+Obj _3518616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518617_37 = PRIM_CDR(_3518616_37);
+Obj _3518618_37 = PRIM_CAR(_3518617_37);
+Obj _3517706_37 = _3518618_37;
+Obj _3518619_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518620_37 = PRIM_CDR(_3518619_37);
+Obj _3518621_37 = PRIM_CDR(_3518620_37);
+Obj _3518622_37 = PRIM_ISCONS(_3518621_37);
+if (True == _3518622_37) {
+Obj _3518623_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518624_37 = PRIM_CDR(_3518623_37);
+Obj _3518625_37 = PRIM_CDR(_3518624_37);
+Obj _3518626_37 = PRIM_CAR(_3518625_37);
+Obj _3517707_37 = _3518626_37;
+Obj _3518627_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518628_37 = PRIM_CDR(_3518627_37);
+Obj _3518629_37 = PRIM_CDR(_3518628_37);
+Obj _3518630_37 = PRIM_CDR(_3518629_37);
+Obj _3518631_37 = PRIM_EQ(Nil, _3518630_37);
+if (True == _3518631_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun48, 1, 3, a, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517706_37, makeNative(co->gc, 2, clofun52, 1, 3, _3517705_37, _3517707_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517698_37);
 return;
 }
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj rb = R[1];
 R[1] = rb;
-saveCont(co, clofun48, 1, R);
+saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517535_37= co->res;
+Obj _3518632_37= co->res;
 Obj rb = R[1];
-Obj _3517536_37 = makeCons(co->gc, _3517535_37, Nil);
-Obj _3517537_37 = makeCons(co->gc, rb, _3517536_37);
-Obj _3517538_37 = makeCons(co->gc, closureRef(R[0], 0), _3517537_37);
-Obj _3517539_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517538_37);
-coraReturn(co, _3517539_37);
+Obj _3518633_37 = makeCons(co->gc, _3518632_37, Nil);
+Obj _3518634_37 = makeCons(co->gc, rb, _3518633_37);
+Obj _3518635_37 = makeCons(co->gc, closureRef(R[0], 0), _3518634_37);
+Obj _3518636_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518635_37);
+coraReturn(co, _3518636_37);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516710_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517465_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517465_37) {
-Obj _3517466_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517467_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517466_37);
-if (True == _3517467_37) {
-Obj _3517468_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517469_37 = PRIM_ISCONS(_3517468_37);
-if (True == _3517469_37) {
-Obj _3517470_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517471_37 = PRIM_CAR(_3517470_37);
-Obj _3517472_37 = PRIM_ISCONS(_3517471_37);
-if (True == _3517472_37) {
-Obj _3517473_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517474_37 = PRIM_CAR(_3517473_37);
-Obj _3517475_37 = PRIM_CAR(_3517474_37);
-Obj _3517476_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517475_37);
-if (True == _3517476_37) {
-Obj _3517477_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517478_37 = PRIM_CAR(_3517477_37);
-Obj _3517479_37 = PRIM_CDR(_3517478_37);
-Obj _3517480_37 = PRIM_ISCONS(_3517479_37);
-if (True == _3517480_37) {
-Obj _3517481_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517482_37 = PRIM_CAR(_3517481_37);
-Obj _3517483_37 = PRIM_CDR(_3517482_37);
-Obj _3517484_37 = PRIM_CAR(_3517483_37);
-Obj args = _3517484_37;
-Obj _3517485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj _3517487_37 = PRIM_CDR(_3517486_37);
-Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_ISCONS(_3517488_37);
-if (True == _3517489_37) {
-Obj _3517490_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517491_37 = PRIM_CAR(_3517490_37);
-Obj _3517492_37 = PRIM_CDR(_3517491_37);
-Obj _3517493_37 = PRIM_CDR(_3517492_37);
-Obj _3517494_37 = PRIM_CAR(_3517493_37);
-Obj body = _3517494_37;
-Obj _3517495_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517496_37 = PRIM_CAR(_3517495_37);
-Obj _3517497_37 = PRIM_CDR(_3517496_37);
-Obj _3517498_37 = PRIM_CDR(_3517497_37);
-Obj _3517499_37 = PRIM_CDR(_3517498_37);
-Obj _3517500_37 = PRIM_EQ(Nil, _3517499_37);
-if (True == _3517500_37) {
-Obj _3517501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517502_37 = PRIM_CDR(_3517501_37);
-Obj frees = _3517502_37;
-R[1] = args;
-R[2] = frees;
-saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3517699_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518562_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518562_37) {
+Obj _3518563_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518564_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518563_37);
+if (True == _3518564_37) {
+Obj _3518565_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518566_37 = PRIM_ISCONS(_3518565_37);
+if (True == _3518566_37) {
+Obj _3518567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518568_37 = PRIM_CAR(_3518567_37);
+Obj _3518569_37 = PRIM_ISCONS(_3518568_37);
+if (True == _3518569_37) {
+Obj _3518570_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518571_37 = PRIM_CAR(_3518570_37);
+Obj _3518572_37 = PRIM_CAR(_3518571_37);
+Obj _3518573_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518572_37);
+if (True == _3518573_37) {
+Obj _3518574_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518575_37 = PRIM_CAR(_3518574_37);
+Obj _3518576_37 = PRIM_CDR(_3518575_37);
+Obj _3518577_37 = PRIM_ISCONS(_3518576_37);
+if (True == _3518577_37) {
+Obj _3518578_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518579_37 = PRIM_CAR(_3518578_37);
+Obj _3518580_37 = PRIM_CDR(_3518579_37);
+Obj _3518581_37 = PRIM_CAR(_3518580_37);
+Obj _3517702_37 = _3518581_37;
+Obj _3518582_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518583_37 = PRIM_CAR(_3518582_37);
+Obj _3518584_37 = PRIM_CDR(_3518583_37);
+Obj _3518585_37 = PRIM_CDR(_3518584_37);
+Obj _3518586_37 = PRIM_ISCONS(_3518585_37);
+if (True == _3518586_37) {
+Obj _3518587_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518588_37 = PRIM_CAR(_3518587_37);
+Obj _3518589_37 = PRIM_CDR(_3518588_37);
+Obj _3518590_37 = PRIM_CDR(_3518589_37);
+Obj _3518591_37 = PRIM_CAR(_3518590_37);
+Obj _3517703_37 = _3518591_37;
+Obj _3518592_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518593_37 = PRIM_CAR(_3518592_37);
+Obj _3518594_37 = PRIM_CDR(_3518593_37);
+Obj _3518595_37 = PRIM_CDR(_3518594_37);
+Obj _3518596_37 = PRIM_CDR(_3518595_37);
+Obj _3518597_37 = PRIM_EQ(Nil, _3518596_37);
+if (True == _3518597_37) {
+Obj _3518598_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518599_37 = PRIM_CDR(_3518598_37);
+Obj _3517704_37 = _3518599_37;
+R[1] = _3517702_37;
+R[2] = _3517704_37;
+saveCont(co, clofun51, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517703_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3517699_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517503_37= co->res;
-Obj args = R[1];
-Obj frees = R[2];
-Obj _3517504_37 = makeCons(co->gc, _3517503_37, Nil);
-Obj _3517505_37 = makeCons(co->gc, args, _3517504_37);
-Obj _3517506_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517505_37);
-Obj _3517507_37 = makeCons(co->gc, _3517506_37, frees);
-Obj _3517508_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517507_37);
+Obj _3518600_37= co->res;
+Obj _3517702_37 = R[1];
+Obj _3517704_37 = R[2];
+Obj _3518601_37 = makeCons(co->gc, _3518600_37, Nil);
+Obj _3518602_37 = makeCons(co->gc, _3517702_37, _3518601_37);
+Obj _3518603_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518602_37);
+Obj _3518604_37 = makeCons(co->gc, _3518603_37, _3517704_37);
+Obj _3518605_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518604_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517508_37);
+coraCall1(co, closureRef(R[0], 1), _3518605_37);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517461_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517461_37) {
-Obj _3517462_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517462_37;
-Obj _3517463_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517463_37;
-Obj _3517464_37 = makeCons(co->gc, f, args);
+Obj _3518558_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518558_37) {
+Obj _3518559_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517700_37 = _3518559_37;
+Obj _3518560_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517701_37 = _3518560_37;
+Obj _3518561_37 = makeCons(co->gc, _3517700_37, _3517701_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517464_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3518561_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6212,168 +6216,168 @@ return;
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517457_37 = makeCons(co->gc, x, Nil);
-Obj _3517458_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517457_37);
-coraReturn(co, _3517458_37);
+Obj _3518554_37 = makeCons(co->gc, x, Nil);
+Obj _3518555_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3518554_37);
+coraReturn(co, _3518555_37);
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516696_37 = R[1];
-Obj _3516697_37 = R[2];
-R[1] = _3516697_37;
-R[2] = _3516696_37;
-saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516697_37);
+Obj _3517482_37 = R[1];
+Obj _3517483_37 = R[2];
+R[1] = _3517483_37;
+R[2] = _3517482_37;
+saveCont(co, clofun48, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517483_37);
 return;
 }
 case 1:
 {
-Obj _3517386_37= co->res;
-Obj _3516697_37 = R[1];
-Obj pos = _3517386_37;
-Obj _3517387_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517387_37) {
-coraReturn(co, _3516697_37);
+Obj _3518483_37= co->res;
+Obj _3517483_37 = R[1];
+Obj _3517682_37 = _3518483_37;
+Obj _3518484_37 = PRIM_EQ(MAKE_NUMBER(-1), _3517682_37);
+if (True == _3518484_37) {
+coraReturn(co, _3517483_37);
 return;
 } else {
-Obj _3517388_37 = makeCons(co->gc, pos, Nil);
-Obj _3517389_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517388_37);
-coraReturn(co, _3517389_37);
+Obj _3518485_37 = makeCons(co->gc, _3517682_37, Nil);
+Obj _3518486_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3518485_37);
+coraReturn(co, _3518486_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517453_37= co->res;
-Obj _3517451_37 = R[1];
-Obj _3517454_37 = makeCons(co->gc, _3517451_37, _3517453_37);
-Obj _3517455_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517454_37);
-coraReturn(co, _3517455_37);
+Obj _3518550_37= co->res;
+Obj _3518548_37 = R[1];
+Obj _3518551_37 = makeCons(co->gc, _3518548_37, _3518550_37);
+Obj _3518552_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518551_37);
+coraReturn(co, _3518552_37);
 return;
 }
 case 3:
 {
-Obj _3517452_37= co->res;
-Obj fvs1 = R[1];
-Obj _3517451_37 = R[2];
-R[1] = _3517451_37;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517452_37, fvs1);
+Obj _3518549_37= co->res;
+Obj _3517692_37 = R[1];
+Obj _3518548_37 = R[2];
+R[1] = _3518548_37;
+saveCont(co, clofun48, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518549_37, _3517692_37);
 return;
 }
 case 4:
 {
-Obj _3517448_37= co->res;
-Obj args = R[1];
-Obj _3516696_37 = R[2];
-Obj fvs1 = R[3];
-Obj _3517449_37 = makeCons(co->gc, _3517448_37, Nil);
-Obj _3517450_37 = makeCons(co->gc, args, _3517449_37);
-Obj _3517451_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517450_37);
-R[1] = fvs1;
-R[2] = _3517451_37;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516696_37);
+Obj _3518545_37= co->res;
+Obj _3517690_37 = R[1];
+Obj _3517482_37 = R[2];
+Obj _3517692_37 = R[3];
+Obj _3518546_37 = makeCons(co->gc, _3518545_37, Nil);
+Obj _3518547_37 = makeCons(co->gc, _3517690_37, _3518546_37);
+Obj _3518548_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518547_37);
+R[1] = _3517692_37;
+R[2] = _3518548_37;
+saveCont(co, clofun48, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3517482_37);
 return;
 }
 case 5:
 {
-Obj _3517447_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3516696_37 = R[3];
-Obj fvs1 = _3517447_37;
-R[1] = args;
-R[2] = _3516696_37;
-R[3] = fvs1;
-saveCont(co, clofun44, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
+Obj _3518544_37= co->res;
+Obj _3517691_37 = R[1];
+Obj _3517690_37 = R[2];
+Obj _3517482_37 = R[3];
+Obj _3517692_37 = _3518544_37;
+R[1] = _3517690_37;
+R[2] = _3517482_37;
+R[3] = _3517692_37;
+saveCont(co, clofun48, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517692_37, _3517691_37);
 return;
 }
 case 6:
 {
-Obj _3517384_37= co->res;
-Obj _3516697_37 = R[1];
-Obj _3516696_37 = R[2];
-if (True == _3517384_37) {
-coraReturn(co, _3516697_37);
+Obj _3518481_37= co->res;
+Obj _3517483_37 = R[1];
+Obj _3517482_37 = R[2];
+if (True == _3518481_37) {
+coraReturn(co, _3517483_37);
 return;
 } else {
-Obj _3517385_37 = primIsSymbol(_3516697_37);
-if (True == _3517385_37) {
-R[1] = _3516697_37;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516697_37, _3516696_37);
+Obj _3518482_37 = primIsSymbol(_3517483_37);
+if (True == _3518482_37) {
+R[1] = _3517483_37;
+saveCont(co, clofun48, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517483_37, _3517482_37);
 return;
 } else {
-Obj _3516700_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516697_37, _3516696_37);
-Obj _3517427_37 = PRIM_ISCONS(_3516697_37);
-if (True == _3517427_37) {
-Obj _3517428_37 = PRIM_CAR(_3516697_37);
-Obj _3517429_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517428_37);
-if (True == _3517429_37) {
-Obj _3517430_37 = PRIM_CDR(_3516697_37);
-Obj _3517431_37 = PRIM_ISCONS(_3517430_37);
-if (True == _3517431_37) {
-Obj _3517432_37 = PRIM_CDR(_3516697_37);
-Obj _3517433_37 = PRIM_CAR(_3517432_37);
-Obj args = _3517433_37;
-Obj _3517434_37 = PRIM_CDR(_3516697_37);
-Obj _3517435_37 = PRIM_CDR(_3517434_37);
-Obj _3517436_37 = PRIM_ISCONS(_3517435_37);
-if (True == _3517436_37) {
-Obj _3517437_37 = PRIM_CDR(_3516697_37);
-Obj _3517438_37 = PRIM_CDR(_3517437_37);
-Obj _3517439_37 = PRIM_CAR(_3517438_37);
-Obj body = _3517439_37;
-Obj _3517440_37 = PRIM_CDR(_3516697_37);
-Obj _3517441_37 = PRIM_CDR(_3517440_37);
-Obj _3517442_37 = PRIM_CDR(_3517441_37);
-Obj _3517443_37 = PRIM_EQ(Nil, _3517442_37);
-if (True == _3517443_37) {
-Obj _3517444_37 = makeCons(co->gc, body, Nil);
-Obj _3517445_37 = makeCons(co->gc, args, _3517444_37);
-Obj _3517446_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517445_37);
-R[1] = body;
-R[2] = args;
-R[3] = _3516696_37;
-saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517446_37);
+Obj _3517683_37 = makeNative(co->gc, 3, clofun47, 0, 2, _3517483_37, _3517482_37);
+Obj _3518524_37 = PRIM_ISCONS(_3517483_37);
+if (True == _3518524_37) {
+Obj _3518525_37 = PRIM_CAR(_3517483_37);
+Obj _3518526_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518525_37);
+if (True == _3518526_37) {
+Obj _3518527_37 = PRIM_CDR(_3517483_37);
+Obj _3518528_37 = PRIM_ISCONS(_3518527_37);
+if (True == _3518528_37) {
+Obj _3518529_37 = PRIM_CDR(_3517483_37);
+Obj _3518530_37 = PRIM_CAR(_3518529_37);
+Obj _3517690_37 = _3518530_37;
+Obj _3518531_37 = PRIM_CDR(_3517483_37);
+Obj _3518532_37 = PRIM_CDR(_3518531_37);
+Obj _3518533_37 = PRIM_ISCONS(_3518532_37);
+if (True == _3518533_37) {
+Obj _3518534_37 = PRIM_CDR(_3517483_37);
+Obj _3518535_37 = PRIM_CDR(_3518534_37);
+Obj _3518536_37 = PRIM_CAR(_3518535_37);
+Obj _3517691_37 = _3518536_37;
+Obj _3518537_37 = PRIM_CDR(_3517483_37);
+Obj _3518538_37 = PRIM_CDR(_3518537_37);
+Obj _3518539_37 = PRIM_CDR(_3518538_37);
+Obj _3518540_37 = PRIM_EQ(Nil, _3518539_37);
+if (True == _3518540_37) {
+Obj _3518541_37 = makeCons(co->gc, _3517691_37, Nil);
+Obj _3518542_37 = makeCons(co->gc, _3517690_37, _3518541_37);
+Obj _3518543_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518542_37);
+R[1] = _3517691_37;
+R[2] = _3517690_37;
+R[3] = _3517482_37;
+saveCont(co, clofun48, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518543_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517683_37);
 return;
 }
 }
@@ -6382,121 +6386,121 @@ return;
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516701_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517395_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517395_37) {
-Obj _3517396_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517397_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517396_37);
-if (True == _3517397_37) {
-Obj _3517398_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517399_37 = PRIM_ISCONS(_3517398_37);
-if (True == _3517399_37) {
-Obj _3517400_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517401_37 = PRIM_CAR(_3517400_37);
-Obj a = _3517401_37;
-Obj _3517402_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517403_37 = PRIM_CDR(_3517402_37);
-Obj _3517404_37 = PRIM_ISCONS(_3517403_37);
-if (True == _3517404_37) {
-Obj _3517405_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517406_37 = PRIM_CDR(_3517405_37);
-Obj _3517407_37 = PRIM_CAR(_3517406_37);
-Obj b = _3517407_37;
-Obj _3517408_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517409_37 = PRIM_CDR(_3517408_37);
-Obj _3517410_37 = PRIM_CDR(_3517409_37);
-Obj _3517411_37 = PRIM_ISCONS(_3517410_37);
-if (True == _3517411_37) {
-Obj _3517412_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517413_37 = PRIM_CDR(_3517412_37);
-Obj _3517414_37 = PRIM_CDR(_3517413_37);
-Obj _3517415_37 = PRIM_CAR(_3517414_37);
-Obj c = _3517415_37;
-Obj _3517416_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517417_37 = PRIM_CDR(_3517416_37);
-Obj _3517418_37 = PRIM_CDR(_3517417_37);
-Obj _3517419_37 = PRIM_CDR(_3517418_37);
-Obj _3517420_37 = PRIM_EQ(Nil, _3517419_37);
-if (True == _3517420_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun43, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), b);
+Obj _3517684_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518492_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518492_37) {
+Obj _3518493_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518494_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518493_37);
+if (True == _3518494_37) {
+Obj _3518495_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518496_37 = PRIM_ISCONS(_3518495_37);
+if (True == _3518496_37) {
+Obj _3518497_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518498_37 = PRIM_CAR(_3518497_37);
+Obj _3517687_37 = _3518498_37;
+Obj _3518499_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518500_37 = PRIM_CDR(_3518499_37);
+Obj _3518501_37 = PRIM_ISCONS(_3518500_37);
+if (True == _3518501_37) {
+Obj _3518502_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518503_37 = PRIM_CDR(_3518502_37);
+Obj _3518504_37 = PRIM_CAR(_3518503_37);
+Obj _3517688_37 = _3518504_37;
+Obj _3518505_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518506_37 = PRIM_CDR(_3518505_37);
+Obj _3518507_37 = PRIM_CDR(_3518506_37);
+Obj _3518508_37 = PRIM_ISCONS(_3518507_37);
+if (True == _3518508_37) {
+Obj _3518509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518510_37 = PRIM_CDR(_3518509_37);
+Obj _3518511_37 = PRIM_CDR(_3518510_37);
+Obj _3518512_37 = PRIM_CAR(_3518511_37);
+Obj _3517689_37 = _3518512_37;
+Obj _3518513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518514_37 = PRIM_CDR(_3518513_37);
+Obj _3518515_37 = PRIM_CDR(_3518514_37);
+Obj _3518516_37 = PRIM_CDR(_3518515_37);
+Obj _3518517_37 = PRIM_EQ(Nil, _3518516_37);
+if (True == _3518517_37) {
+R[1] = _3517689_37;
+R[2] = _3517687_37;
+saveCont(co, clofun47, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517688_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517684_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517422_37= co->res;
-Obj _3517421_37 = R[1];
-Obj a = R[2];
-Obj _3517423_37 = makeCons(co->gc, _3517422_37, Nil);
-Obj _3517424_37 = makeCons(co->gc, _3517421_37, _3517423_37);
-Obj _3517425_37 = makeCons(co->gc, a, _3517424_37);
-Obj _3517426_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517425_37);
-coraReturn(co, _3517426_37);
+Obj _3518519_37= co->res;
+Obj _3518518_37 = R[1];
+Obj _3517687_37 = R[2];
+Obj _3518520_37 = makeCons(co->gc, _3518519_37, Nil);
+Obj _3518521_37 = makeCons(co->gc, _3518518_37, _3518520_37);
+Obj _3518522_37 = makeCons(co->gc, _3517687_37, _3518521_37);
+Obj _3518523_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518522_37);
+coraReturn(co, _3518523_37);
 return;
 }
 case 2:
 {
-Obj _3517421_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = _3517421_37;
-R[2] = a;
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), c);
+Obj _3518518_37= co->res;
+Obj _3517689_37 = R[1];
+Obj _3517687_37 = R[2];
+R[1] = _3518518_37;
+R[2] = _3517687_37;
+saveCont(co, clofun47, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517689_37);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517390_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517390_37) {
-Obj _3517391_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517391_37;
-Obj _3517392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517392_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun42, 1, R);
+Obj _3518487_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518487_37) {
+Obj _3518488_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517685_37 = _3518488_37;
+Obj _3518489_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517686_37 = _3518489_37;
+R[1] = _3517685_37;
+R[2] = _3517686_37;
+saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
 } else {
@@ -6507,101 +6511,101 @@ return;
 }
 case 1:
 {
-Obj _3517393_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517394_37 = makeCons(co->gc, f, args);
+Obj _3518490_37= co->res;
+Obj _3517685_37 = R[1];
+Obj _3517686_37 = R[2];
+Obj _3518491_37 = makeCons(co->gc, _3517685_37, _3517686_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517393_37, _3517394_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518490_37, _3518491_37);
 return;
 }
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516683_37 = R[1];
-R[1] = _3516683_37;
-saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516683_37);
+Obj _3517469_37 = R[1];
+R[1] = _3517469_37;
+saveCont(co, clofun45, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517469_37);
 return;
 }
 case 1:
 {
-Obj _3517382_37= co->res;
-Obj args = R[1];
+Obj _3518479_37= co->res;
+Obj _3517680_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517382_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518479_37, _3517680_37);
 return;
 }
 case 2:
 {
-Obj _3517209_37= co->res;
-Obj _3516683_37 = R[1];
-if (True == _3517209_37) {
+Obj _3518306_37= co->res;
+Obj _3517469_37 = R[1];
+if (True == _3518306_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517210_37 = primIsSymbol(_3516683_37);
-if (True == _3517210_37) {
-Obj _3517211_37 = makeCons(co->gc, _3516683_37, Nil);
-coraReturn(co, _3517211_37);
+Obj _3518307_37 = primIsSymbol(_3517469_37);
+if (True == _3518307_37) {
+Obj _3518308_37 = makeCons(co->gc, _3517469_37, Nil);
+coraReturn(co, _3518308_37);
 return;
 } else {
-Obj _3516686_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516683_37);
-Obj _3517365_37 = PRIM_ISCONS(_3516683_37);
-if (True == _3517365_37) {
-Obj _3517366_37 = PRIM_CAR(_3516683_37);
-Obj _3517367_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517366_37);
-if (True == _3517367_37) {
-Obj _3517368_37 = PRIM_CDR(_3516683_37);
-Obj _3517369_37 = PRIM_ISCONS(_3517368_37);
-if (True == _3517369_37) {
-Obj _3517370_37 = PRIM_CDR(_3516683_37);
-Obj _3517371_37 = PRIM_CAR(_3517370_37);
-Obj args = _3517371_37;
-Obj _3517372_37 = PRIM_CDR(_3516683_37);
-Obj _3517373_37 = PRIM_CDR(_3517372_37);
-Obj _3517374_37 = PRIM_ISCONS(_3517373_37);
-if (True == _3517374_37) {
-Obj _3517375_37 = PRIM_CDR(_3516683_37);
-Obj _3517376_37 = PRIM_CDR(_3517375_37);
-Obj _3517377_37 = PRIM_CAR(_3517376_37);
-Obj body = _3517377_37;
-Obj _3517378_37 = PRIM_CDR(_3516683_37);
-Obj _3517379_37 = PRIM_CDR(_3517378_37);
-Obj _3517380_37 = PRIM_CDR(_3517379_37);
-Obj _3517381_37 = PRIM_EQ(Nil, _3517380_37);
-if (True == _3517381_37) {
-R[1] = args;
-saveCont(co, clofun41, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+Obj _3517653_37 = makeNative(co->gc, 1, clofun44, 0, 1, _3517469_37);
+Obj _3518462_37 = PRIM_ISCONS(_3517469_37);
+if (True == _3518462_37) {
+Obj _3518463_37 = PRIM_CAR(_3517469_37);
+Obj _3518464_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518463_37);
+if (True == _3518464_37) {
+Obj _3518465_37 = PRIM_CDR(_3517469_37);
+Obj _3518466_37 = PRIM_ISCONS(_3518465_37);
+if (True == _3518466_37) {
+Obj _3518467_37 = PRIM_CDR(_3517469_37);
+Obj _3518468_37 = PRIM_CAR(_3518467_37);
+Obj _3517680_37 = _3518468_37;
+Obj _3518469_37 = PRIM_CDR(_3517469_37);
+Obj _3518470_37 = PRIM_CDR(_3518469_37);
+Obj _3518471_37 = PRIM_ISCONS(_3518470_37);
+if (True == _3518471_37) {
+Obj _3518472_37 = PRIM_CDR(_3517469_37);
+Obj _3518473_37 = PRIM_CDR(_3518472_37);
+Obj _3518474_37 = PRIM_CAR(_3518473_37);
+Obj _3517681_37 = _3518474_37;
+Obj _3518475_37 = PRIM_CDR(_3517469_37);
+Obj _3518476_37 = PRIM_CDR(_3518475_37);
+Obj _3518477_37 = PRIM_CDR(_3518476_37);
+Obj _3518478_37 = PRIM_EQ(Nil, _3518477_37);
+if (True == _3518478_37) {
+R[1] = _3517680_37;
+saveCont(co, clofun45, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517681_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, _3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, _3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, _3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, _3517653_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516686_37);
+coraCall0(co, _3517653_37);
 return;
 }
 }
@@ -6610,561 +6614,561 @@ return;
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516687_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517335_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517335_37) {
-Obj _3517336_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517337_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517336_37);
-if (True == _3517337_37) {
-Obj _3517338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517339_37 = PRIM_ISCONS(_3517338_37);
-if (True == _3517339_37) {
-Obj _3517340_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517341_37 = PRIM_CAR(_3517340_37);
-Obj x = _3517341_37;
-Obj _3517342_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517343_37 = PRIM_CDR(_3517342_37);
-Obj _3517344_37 = PRIM_ISCONS(_3517343_37);
-if (True == _3517344_37) {
-Obj _3517345_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517346_37 = PRIM_CDR(_3517345_37);
-Obj _3517347_37 = PRIM_CAR(_3517346_37);
-Obj y = _3517347_37;
-Obj _3517348_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517349_37 = PRIM_CDR(_3517348_37);
-Obj _3517350_37 = PRIM_CDR(_3517349_37);
-Obj _3517351_37 = PRIM_ISCONS(_3517350_37);
-if (True == _3517351_37) {
-Obj _3517352_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517353_37 = PRIM_CDR(_3517352_37);
-Obj _3517354_37 = PRIM_CDR(_3517353_37);
-Obj _3517355_37 = PRIM_CAR(_3517354_37);
-Obj z = _3517355_37;
-Obj _3517356_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517357_37 = PRIM_CDR(_3517356_37);
-Obj _3517358_37 = PRIM_CDR(_3517357_37);
-Obj _3517359_37 = PRIM_CDR(_3517358_37);
-Obj _3517360_37 = PRIM_EQ(Nil, _3517359_37);
-if (True == _3517360_37) {
-Obj _3517361_37 = makeCons(co->gc, z, Nil);
-Obj _3517362_37 = makeCons(co->gc, y, _3517361_37);
-Obj _3517363_37 = makeCons(co->gc, x, _3517362_37);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517363_37);
+Obj _3517654_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj _3518432_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518432_37) {
+Obj _3518433_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518434_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518433_37);
+if (True == _3518434_37) {
+Obj _3518435_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518436_37 = PRIM_ISCONS(_3518435_37);
+if (True == _3518436_37) {
+Obj _3518437_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518438_37 = PRIM_CAR(_3518437_37);
+Obj _3517677_37 = _3518438_37;
+Obj _3518439_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518440_37 = PRIM_CDR(_3518439_37);
+Obj _3518441_37 = PRIM_ISCONS(_3518440_37);
+if (True == _3518441_37) {
+Obj _3518442_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518443_37 = PRIM_CDR(_3518442_37);
+Obj _3518444_37 = PRIM_CAR(_3518443_37);
+Obj _3517678_37 = _3518444_37;
+Obj _3518445_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518446_37 = PRIM_CDR(_3518445_37);
+Obj _3518447_37 = PRIM_CDR(_3518446_37);
+Obj _3518448_37 = PRIM_ISCONS(_3518447_37);
+if (True == _3518448_37) {
+Obj _3518449_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518450_37 = PRIM_CDR(_3518449_37);
+Obj _3518451_37 = PRIM_CDR(_3518450_37);
+Obj _3518452_37 = PRIM_CAR(_3518451_37);
+Obj _3517679_37 = _3518452_37;
+Obj _3518453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518454_37 = PRIM_CDR(_3518453_37);
+Obj _3518455_37 = PRIM_CDR(_3518454_37);
+Obj _3518456_37 = PRIM_CDR(_3518455_37);
+Obj _3518457_37 = PRIM_EQ(Nil, _3518456_37);
+if (True == _3518457_37) {
+Obj _3518458_37 = makeCons(co->gc, _3517679_37, Nil);
+Obj _3518459_37 = makeCons(co->gc, _3517678_37, _3518458_37);
+Obj _3518460_37 = makeCons(co->gc, _3517677_37, _3518459_37);
+saveCont(co, clofun44, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518460_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516687_37);
+coraCall0(co, _3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516687_37);
+coraCall0(co, _3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516687_37);
+coraCall0(co, _3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516687_37);
+coraCall0(co, _3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516687_37);
+coraCall0(co, _3517654_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516687_37);
+coraCall0(co, _3517654_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517364_37= co->res;
+Obj _3518461_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517364_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518461_37);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517315_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517315_37) {
-Obj _3517316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517317_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517316_37);
-if (True == _3517317_37) {
-Obj _3517318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517319_37 = PRIM_ISCONS(_3517318_37);
-if (True == _3517319_37) {
-Obj _3517320_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517321_37 = PRIM_CAR(_3517320_37);
-Obj x = _3517321_37;
-Obj _3517322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517323_37 = PRIM_CDR(_3517322_37);
-Obj _3517324_37 = PRIM_ISCONS(_3517323_37);
-if (True == _3517324_37) {
-Obj _3517325_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517326_37 = PRIM_CDR(_3517325_37);
-Obj _3517327_37 = PRIM_CAR(_3517326_37);
-Obj y = _3517327_37;
-Obj _3517328_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517329_37 = PRIM_CDR(_3517328_37);
-Obj _3517330_37 = PRIM_CDR(_3517329_37);
-Obj _3517331_37 = PRIM_EQ(Nil, _3517330_37);
-if (True == _3517331_37) {
-Obj _3517332_37 = makeCons(co->gc, y, Nil);
-Obj _3517333_37 = makeCons(co->gc, x, _3517332_37);
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517333_37);
+Obj _3517655_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
+Obj _3518412_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518412_37) {
+Obj _3518413_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518414_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518413_37);
+if (True == _3518414_37) {
+Obj _3518415_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518416_37 = PRIM_ISCONS(_3518415_37);
+if (True == _3518416_37) {
+Obj _3518417_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518418_37 = PRIM_CAR(_3518417_37);
+Obj _3517675_37 = _3518418_37;
+Obj _3518419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518420_37 = PRIM_CDR(_3518419_37);
+Obj _3518421_37 = PRIM_ISCONS(_3518420_37);
+if (True == _3518421_37) {
+Obj _3518422_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518423_37 = PRIM_CDR(_3518422_37);
+Obj _3518424_37 = PRIM_CAR(_3518423_37);
+Obj _3517676_37 = _3518424_37;
+Obj _3518425_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518426_37 = PRIM_CDR(_3518425_37);
+Obj _3518427_37 = PRIM_CDR(_3518426_37);
+Obj _3518428_37 = PRIM_EQ(Nil, _3518427_37);
+if (True == _3518428_37) {
+Obj _3518429_37 = makeCons(co->gc, _3517676_37, Nil);
+Obj _3518430_37 = makeCons(co->gc, _3517675_37, _3518429_37);
+saveCont(co, clofun43, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518430_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516688_37);
+coraCall0(co, _3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516688_37);
+coraCall0(co, _3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516688_37);
+coraCall0(co, _3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516688_37);
+coraCall0(co, _3517655_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516688_37);
+coraCall0(co, _3517655_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517334_37= co->res;
+Obj _3518431_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517334_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518431_37);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516689_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517285_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517285_37) {
-Obj _3517286_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517287_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517286_37);
-if (True == _3517287_37) {
-Obj _3517288_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517289_37 = PRIM_ISCONS(_3517288_37);
-if (True == _3517289_37) {
-Obj _3517290_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517291_37 = PRIM_CAR(_3517290_37);
-Obj a = _3517291_37;
-Obj _3517292_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517293_37 = PRIM_CDR(_3517292_37);
-Obj _3517294_37 = PRIM_ISCONS(_3517293_37);
-if (True == _3517294_37) {
-Obj _3517295_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517296_37 = PRIM_CDR(_3517295_37);
-Obj _3517297_37 = PRIM_CAR(_3517296_37);
-Obj b = _3517297_37;
-Obj _3517298_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517299_37 = PRIM_CDR(_3517298_37);
-Obj _3517300_37 = PRIM_CDR(_3517299_37);
-Obj _3517301_37 = PRIM_ISCONS(_3517300_37);
-if (True == _3517301_37) {
-Obj _3517302_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517303_37 = PRIM_CDR(_3517302_37);
-Obj _3517304_37 = PRIM_CDR(_3517303_37);
-Obj _3517305_37 = PRIM_CAR(_3517304_37);
-Obj c = _3517305_37;
-Obj _3517306_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517307_37 = PRIM_CDR(_3517306_37);
-Obj _3517308_37 = PRIM_CDR(_3517307_37);
-Obj _3517309_37 = PRIM_CDR(_3517308_37);
-Obj _3517310_37 = PRIM_EQ(Nil, _3517309_37);
-if (True == _3517310_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun38, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
+Obj _3517656_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj _3518382_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518382_37) {
+Obj _3518383_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518384_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518383_37);
+if (True == _3518384_37) {
+Obj _3518385_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518386_37 = PRIM_ISCONS(_3518385_37);
+if (True == _3518386_37) {
+Obj _3518387_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518388_37 = PRIM_CAR(_3518387_37);
+Obj _3517672_37 = _3518388_37;
+Obj _3518389_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518390_37 = PRIM_CDR(_3518389_37);
+Obj _3518391_37 = PRIM_ISCONS(_3518390_37);
+if (True == _3518391_37) {
+Obj _3518392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518393_37 = PRIM_CDR(_3518392_37);
+Obj _3518394_37 = PRIM_CAR(_3518393_37);
+Obj _3517673_37 = _3518394_37;
+Obj _3518395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518396_37 = PRIM_CDR(_3518395_37);
+Obj _3518397_37 = PRIM_CDR(_3518396_37);
+Obj _3518398_37 = PRIM_ISCONS(_3518397_37);
+if (True == _3518398_37) {
+Obj _3518399_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518400_37 = PRIM_CDR(_3518399_37);
+Obj _3518401_37 = PRIM_CDR(_3518400_37);
+Obj _3518402_37 = PRIM_CAR(_3518401_37);
+Obj _3517674_37 = _3518402_37;
+Obj _3518403_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518404_37 = PRIM_CDR(_3518403_37);
+Obj _3518405_37 = PRIM_CDR(_3518404_37);
+Obj _3518406_37 = PRIM_CDR(_3518405_37);
+Obj _3518407_37 = PRIM_EQ(Nil, _3518406_37);
+if (True == _3518407_37) {
+R[1] = _3517674_37;
+R[2] = _3517672_37;
+saveCont(co, clofun42, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517673_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516689_37);
+coraCall0(co, _3517656_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517314_37= co->res;
-Obj _3517311_37 = R[1];
+Obj _3518411_37= co->res;
+Obj _3518408_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517311_37, _3517314_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3518408_37, _3518411_37);
 return;
 }
 case 2:
 {
-Obj _3517312_37= co->res;
-Obj a = R[1];
-Obj _3517311_37 = R[2];
-Obj _3517313_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517311_37;
-saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517312_37, _3517313_37);
+Obj _3518409_37= co->res;
+Obj _3517672_37 = R[1];
+Obj _3518408_37 = R[2];
+Obj _3518410_37 = makeCons(co->gc, _3517672_37, Nil);
+R[1] = _3518408_37;
+saveCont(co, clofun42, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518409_37, _3518410_37);
 return;
 }
 case 3:
 {
-Obj _3517311_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = a;
-R[2] = _3517311_37;
-saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
+Obj _3518408_37= co->res;
+Obj _3517674_37 = R[1];
+Obj _3517672_37 = R[2];
+R[1] = _3517672_37;
+R[2] = _3518408_37;
+saveCont(co, clofun42, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517674_37);
 return;
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516690_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517275_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517275_37) {
-Obj _3517276_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517277_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517276_37);
-if (True == _3517277_37) {
-Obj _3517278_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517279_37 = PRIM_ISCONS(_3517278_37);
-if (True == _3517279_37) {
-Obj _3517280_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517281_37 = PRIM_CAR(_3517280_37);
-Obj lam = _3517281_37;
-Obj _3517282_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517283_37 = PRIM_CDR(_3517282_37);
-Obj more = _3517283_37;
-Obj _3517284_37 = makeCons(co->gc, lam, more);
+Obj _3517657_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj _3518372_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518372_37) {
+Obj _3518373_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518374_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518373_37);
+if (True == _3518374_37) {
+Obj _3518375_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518376_37 = PRIM_ISCONS(_3518375_37);
+if (True == _3518376_37) {
+Obj _3518377_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518378_37 = PRIM_CAR(_3518377_37);
+Obj _3517670_37 = _3518378_37;
+Obj _3518379_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518380_37 = PRIM_CDR(_3518379_37);
+Obj _3517671_37 = _3518380_37;
+Obj _3518381_37 = makeCons(co->gc, _3517670_37, _3517671_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517284_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518381_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3517657_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3517657_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516690_37);
+coraCall0(co, _3517657_37);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516691_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517265_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517266_37);
-if (True == _3517267_37) {
-Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517269_37 = PRIM_ISCONS(_3517268_37);
-if (True == _3517269_37) {
-Obj _3517270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517271_37 = PRIM_CAR(_3517270_37);
-Obj x = _3517271_37;
-Obj _3517272_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517273_37 = PRIM_CDR(_3517272_37);
-Obj _3517274_37 = PRIM_EQ(Nil, _3517273_37);
-if (True == _3517274_37) {
+Obj _3517658_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3518362_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518362_37) {
+Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518364_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3518363_37);
+if (True == _3518364_37) {
+Obj _3518365_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518366_37 = PRIM_ISCONS(_3518365_37);
+if (True == _3518366_37) {
+Obj _3518367_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518368_37 = PRIM_CAR(_3518367_37);
+Obj _3517669_37 = _3518368_37;
+Obj _3518369_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518370_37 = PRIM_CDR(_3518369_37);
+Obj _3518371_37 = PRIM_EQ(Nil, _3518370_37);
+if (True == _3518371_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517669_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3517658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3517658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3517658_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516691_37);
+coraCall0(co, _3517658_37);
 return;
 }
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516692_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517245_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517245_37) {
-Obj _3517246_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517247_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517246_37);
-if (True == _3517247_37) {
-Obj _3517248_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517249_37 = PRIM_ISCONS(_3517248_37);
-if (True == _3517249_37) {
-Obj _3517250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517251_37 = PRIM_CAR(_3517250_37);
-Obj exp = _3517251_37;
-Obj _3517252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517253_37 = PRIM_CDR(_3517252_37);
-Obj _3517254_37 = PRIM_ISCONS(_3517253_37);
-if (True == _3517254_37) {
-Obj _3517255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517256_37 = PRIM_CDR(_3517255_37);
-Obj _3517257_37 = PRIM_CAR(_3517256_37);
-Obj cont = _3517257_37;
-Obj _3517258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517259_37 = PRIM_CDR(_3517258_37);
-Obj _3517260_37 = PRIM_CDR(_3517259_37);
-Obj _3517261_37 = PRIM_EQ(Nil, _3517260_37);
-if (True == _3517261_37) {
-Obj _3517262_37 = makeCons(co->gc, cont, Nil);
-Obj _3517263_37 = makeCons(co->gc, exp, _3517262_37);
-saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517263_37);
+Obj _3517659_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3518342_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518342_37) {
+Obj _3518343_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518344_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518343_37);
+if (True == _3518344_37) {
+Obj _3518345_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518346_37 = PRIM_ISCONS(_3518345_37);
+if (True == _3518346_37) {
+Obj _3518347_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518348_37 = PRIM_CAR(_3518347_37);
+Obj _3517667_37 = _3518348_37;
+Obj _3518349_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518350_37 = PRIM_CDR(_3518349_37);
+Obj _3518351_37 = PRIM_ISCONS(_3518350_37);
+if (True == _3518351_37) {
+Obj _3518352_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518353_37 = PRIM_CDR(_3518352_37);
+Obj _3518354_37 = PRIM_CAR(_3518353_37);
+Obj _3517668_37 = _3518354_37;
+Obj _3518355_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518356_37 = PRIM_CDR(_3518355_37);
+Obj _3518357_37 = PRIM_CDR(_3518356_37);
+Obj _3518358_37 = PRIM_EQ(Nil, _3518357_37);
+if (True == _3518358_37) {
+Obj _3518359_37 = makeCons(co->gc, _3517668_37, Nil);
+Obj _3518360_37 = makeCons(co->gc, _3517667_37, _3518359_37);
+saveCont(co, clofun39, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518360_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3517659_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3517659_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3517659_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3517659_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3517659_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517264_37= co->res;
+Obj _3518361_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517264_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518361_37);
 return;
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516693_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517235_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517235_37) {
-Obj _3517236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517237_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517236_37);
-if (True == _3517237_37) {
-Obj _3517238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517239_37 = PRIM_ISCONS(_3517238_37);
-if (True == _3517239_37) {
-Obj _3517240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517241_37 = PRIM_CAR(_3517240_37);
-Obj exp = _3517241_37;
-Obj _3517242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517243_37 = PRIM_CDR(_3517242_37);
-Obj _3517244_37 = PRIM_EQ(Nil, _3517243_37);
-if (True == _3517244_37) {
+Obj _3517660_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518332_37) {
+Obj _3518333_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518334_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518333_37);
+if (True == _3518334_37) {
+Obj _3518335_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518336_37 = PRIM_ISCONS(_3518335_37);
+if (True == _3518336_37) {
+Obj _3518337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518338_37 = PRIM_CAR(_3518337_37);
+Obj _3517666_37 = _3518338_37;
+Obj _3518339_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518340_37 = PRIM_CDR(_3518339_37);
+Obj _3518341_37 = PRIM_EQ(Nil, _3518340_37);
+if (True == _3518341_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517666_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3517660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3517660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3517660_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3517660_37);
 return;
 }
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516694_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517217_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517217_37) {
-Obj _3517218_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517219_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517218_37);
-if (True == _3517219_37) {
-Obj _3517220_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517221_37 = PRIM_ISCONS(_3517220_37);
-if (True == _3517221_37) {
-Obj _3517222_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517223_37 = PRIM_CAR(_3517222_37);
-Obj arg = _3517223_37;
-Obj _3517224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517225_37 = PRIM_CDR(_3517224_37);
-Obj _3517226_37 = PRIM_ISCONS(_3517225_37);
-if (True == _3517226_37) {
-Obj _3517227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517228_37 = PRIM_CDR(_3517227_37);
-Obj _3517229_37 = PRIM_CAR(_3517228_37);
-Obj body = _3517229_37;
-Obj _3517230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517231_37 = PRIM_CDR(_3517230_37);
-Obj _3517232_37 = PRIM_CDR(_3517231_37);
-Obj _3517233_37 = PRIM_EQ(Nil, _3517232_37);
-if (True == _3517233_37) {
-R[1] = arg;
-saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+Obj _3517661_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3518314_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518314_37) {
+Obj _3518315_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518316_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518315_37);
+if (True == _3518316_37) {
+Obj _3518317_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518318_37 = PRIM_ISCONS(_3518317_37);
+if (True == _3518318_37) {
+Obj _3518319_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518320_37 = PRIM_CAR(_3518319_37);
+Obj _3517664_37 = _3518320_37;
+Obj _3518321_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518322_37 = PRIM_CDR(_3518321_37);
+Obj _3518323_37 = PRIM_ISCONS(_3518322_37);
+if (True == _3518323_37) {
+Obj _3518324_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518325_37 = PRIM_CDR(_3518324_37);
+Obj _3518326_37 = PRIM_CAR(_3518325_37);
+Obj _3517665_37 = _3518326_37;
+Obj _3518327_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518328_37 = PRIM_CDR(_3518327_37);
+Obj _3518329_37 = PRIM_CDR(_3518328_37);
+Obj _3518330_37 = PRIM_EQ(Nil, _3518329_37);
+if (True == _3518330_37) {
+R[1] = _3517664_37;
+saveCont(co, clofun37, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517665_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3517661_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517234_37= co->res;
-Obj arg = R[1];
+Obj _3518331_37= co->res;
+Obj _3517664_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517234_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518331_37, _3517664_37);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517212_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517212_37) {
-Obj _3517213_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517213_37;
-Obj _3517214_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517214_37;
-Obj _3517215_37 = makeCons(co->gc, f, args);
-saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517215_37);
+Obj _3518309_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518309_37) {
+Obj _3518310_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517662_37 = _3518310_37;
+Obj _3518311_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517663_37 = _3518311_37;
+Obj _3518312_37 = makeCons(co->gc, _3517662_37, _3517663_37);
+saveCont(co, clofun36, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518312_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7174,295 +7178,295 @@ return;
 }
 case 1:
 {
-Obj _3517216_37= co->res;
+Obj _3518313_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517216_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518313_37);
 return;
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516675_37 = R[1];
-Obj _3516676_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516675_37);
-Obj _3517198_37 = PRIM_ISCONS(_3516675_37);
-if (True == _3517198_37) {
-Obj _3517199_37 = PRIM_CAR(_3516675_37);
-Obj _3517200_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517199_37);
-if (True == _3517200_37) {
-Obj _3517201_37 = PRIM_CDR(_3516675_37);
-Obj _3517202_37 = PRIM_ISCONS(_3517201_37);
-if (True == _3517202_37) {
-Obj _3517203_37 = PRIM_CDR(_3516675_37);
-Obj _3517204_37 = PRIM_CAR(_3517203_37);
-Obj _3517205_37 = PRIM_CDR(_3516675_37);
-Obj _3517206_37 = PRIM_CDR(_3517205_37);
-Obj _3517207_37 = PRIM_EQ(Nil, _3517206_37);
-if (True == _3517207_37) {
+Obj _3517461_37 = R[1];
+Obj _3517646_37 = makeNative(co->gc, 1, clofun34, 0, 1, _3517461_37);
+Obj _3518295_37 = PRIM_ISCONS(_3517461_37);
+if (True == _3518295_37) {
+Obj _3518296_37 = PRIM_CAR(_3517461_37);
+Obj _3518297_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518296_37);
+if (True == _3518297_37) {
+Obj _3518298_37 = PRIM_CDR(_3517461_37);
+Obj _3518299_37 = PRIM_ISCONS(_3518298_37);
+if (True == _3518299_37) {
+Obj _3518300_37 = PRIM_CDR(_3517461_37);
+Obj _3518301_37 = PRIM_CAR(_3518300_37);
+Obj _3518302_37 = PRIM_CDR(_3517461_37);
+Obj _3518303_37 = PRIM_CDR(_3518302_37);
+Obj _3518304_37 = PRIM_EQ(Nil, _3518303_37);
+if (True == _3518304_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516676_37);
+coraCall0(co, _3517646_37);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516677_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517189_37);
-if (True == _3517190_37) {
-Obj _3517191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
-if (True == _3517192_37) {
-Obj _3517193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517194_37 = PRIM_CAR(_3517193_37);
-Obj _3517195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517196_37 = PRIM_CDR(_3517195_37);
-Obj _3517197_37 = PRIM_EQ(Nil, _3517196_37);
-if (True == _3517197_37) {
+Obj _3517647_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3518285_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518285_37) {
+Obj _3518286_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518287_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3518286_37);
+if (True == _3518287_37) {
+Obj _3518288_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518289_37 = PRIM_ISCONS(_3518288_37);
+if (True == _3518289_37) {
+Obj _3518290_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518291_37 = PRIM_CAR(_3518290_37);
+Obj _3518292_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518293_37 = PRIM_CDR(_3518292_37);
+Obj _3518294_37 = PRIM_EQ(Nil, _3518293_37);
+if (True == _3518294_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516677_37);
+coraCall0(co, _3517647_37);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516678_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517178_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517178_37) {
-Obj _3517179_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517180_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517179_37);
-if (True == _3517180_37) {
-Obj _3517181_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517182_37 = PRIM_ISCONS(_3517181_37);
-if (True == _3517182_37) {
-Obj _3517183_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517184_37 = PRIM_CAR(_3517183_37);
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517186_37 = PRIM_CDR(_3517185_37);
-Obj _3517187_37 = PRIM_EQ(Nil, _3517186_37);
-if (True == _3517187_37) {
+Obj _3517648_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj _3518275_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518275_37) {
+Obj _3518276_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518277_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3518276_37);
+if (True == _3518277_37) {
+Obj _3518278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518279_37 = PRIM_ISCONS(_3518278_37);
+if (True == _3518279_37) {
+Obj _3518280_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518281_37 = PRIM_CAR(_3518280_37);
+Obj _3518282_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518283_37 = PRIM_CDR(_3518282_37);
+Obj _3518284_37 = PRIM_EQ(Nil, _3518283_37);
+if (True == _3518284_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3517648_37);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516679_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517168_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517168_37) {
-Obj _3517169_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517170_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517169_37);
-if (True == _3517170_37) {
-Obj _3517171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517172_37 = PRIM_ISCONS(_3517171_37);
-if (True == _3517172_37) {
-Obj _3517173_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517174_37 = PRIM_CAR(_3517173_37);
-Obj _3517175_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517176_37 = PRIM_CDR(_3517175_37);
-Obj _3517177_37 = PRIM_EQ(Nil, _3517176_37);
-if (True == _3517177_37) {
+Obj _3517649_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj _3518265_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518265_37) {
+Obj _3518266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518267_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518266_37);
+if (True == _3518267_37) {
+Obj _3518268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518269_37 = PRIM_ISCONS(_3518268_37);
+if (True == _3518269_37) {
+Obj _3518270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518271_37 = PRIM_CAR(_3518270_37);
+Obj _3518272_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518273_37 = PRIM_CDR(_3518272_37);
+Obj _3518274_37 = PRIM_EQ(Nil, _3518273_37);
+if (True == _3518274_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3517649_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3517649_37);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517158_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517158_37) {
-Obj _3517159_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517160_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517159_37);
-if (True == _3517160_37) {
-Obj _3517161_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517162_37 = PRIM_ISCONS(_3517161_37);
-if (True == _3517162_37) {
-Obj _3517163_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517164_37 = PRIM_CAR(_3517163_37);
-Obj _3517165_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517166_37 = PRIM_CDR(_3517165_37);
-Obj _3517167_37 = PRIM_EQ(Nil, _3517166_37);
-if (True == _3517167_37) {
+Obj _3517650_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
+Obj _3518255_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518255_37) {
+Obj _3518256_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518257_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518256_37);
+if (True == _3518257_37) {
+Obj _3518258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518259_37 = PRIM_ISCONS(_3518258_37);
+if (True == _3518259_37) {
+Obj _3518260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518261_37 = PRIM_CAR(_3518260_37);
+Obj _3518262_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518263_37 = PRIM_CDR(_3518262_37);
+Obj _3518264_37 = PRIM_EQ(Nil, _3518263_37);
+if (True == _3518264_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3517650_37);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516681_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517148_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517148_37) {
-Obj _3517149_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517150_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517149_37);
-if (True == _3517150_37) {
-Obj _3517151_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517152_37 = PRIM_ISCONS(_3517151_37);
-if (True == _3517152_37) {
-Obj _3517153_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517154_37 = PRIM_CAR(_3517153_37);
-Obj label = _3517154_37;
-Obj _3517155_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517156_37 = PRIM_CDR(_3517155_37);
-R[1] = _3516681_37;
-saveCont(co, clofun26, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
+Obj _3517651_37 = makeNative(co->gc, 1, clofun29, 0, 0);
+Obj _3518245_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518245_37) {
+Obj _3518246_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518247_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518246_37);
+if (True == _3518247_37) {
+Obj _3518248_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518249_37 = PRIM_ISCONS(_3518248_37);
+if (True == _3518249_37) {
+Obj _3518250_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518251_37 = PRIM_CAR(_3518250_37);
+Obj _3517652_37 = _3518251_37;
+Obj _3518252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518253_37 = PRIM_CDR(_3518252_37);
+R[1] = _3517651_37;
+saveCont(co, clofun30, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517652_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3517651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3517651_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3517651_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517157_37= co->res;
-Obj _3516681_37 = R[1];
-if (True == _3517157_37) {
+Obj _3518254_37= co->res;
+Obj _3517651_37 = R[1];
+if (True == _3518254_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3517651_37);
 return;
 }
 }
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7472,69 +7476,69 @@ return;
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516670_37 = R[1];
-Obj _3516671_37 = R[2];
-Obj _3517137_37 = PRIM_EQ(Nil, _3516670_37);
-if (True == _3517137_37) {
+Obj _3517456_37 = R[1];
+Obj _3517457_37 = R[2];
+Obj _3518234_37 = PRIM_EQ(Nil, _3517456_37);
+if (True == _3518234_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516673_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516670_37, _3516671_37);
-Obj _3517143_37 = PRIM_ISCONS(_3516670_37);
-if (True == _3517143_37) {
-Obj _3517144_37 = PRIM_CAR(_3516670_37);
-Obj x = _3517144_37;
-Obj _3517145_37 = PRIM_CDR(_3516670_37);
-Obj y = _3517145_37;
-R[1] = y;
-R[2] = _3516671_37;
-R[3] = _3516673_37;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516671_37);
+Obj _3517641_37 = makeNative(co->gc, 2, clofun27, 0, 2, _3517456_37, _3517457_37);
+Obj _3518240_37 = PRIM_ISCONS(_3517456_37);
+if (True == _3518240_37) {
+Obj _3518241_37 = PRIM_CAR(_3517456_37);
+Obj _3517644_37 = _3518241_37;
+Obj _3518242_37 = PRIM_CDR(_3517456_37);
+Obj _3517645_37 = _3518242_37;
+R[1] = _3517645_37;
+R[2] = _3517457_37;
+R[3] = _3517641_37;
+saveCont(co, clofun28, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517644_37, _3517457_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516673_37);
+coraCall0(co, _3517641_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517146_37= co->res;
-Obj y = R[1];
-Obj _3516671_37 = R[2];
-Obj _3516673_37 = R[3];
-if (True == _3517146_37) {
+Obj _3518243_37= co->res;
+Obj _3517645_37 = R[1];
+Obj _3517457_37 = R[2];
+Obj _3517641_37 = R[3];
+if (True == _3518243_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516671_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517645_37, _3517457_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516673_37);
+coraCall0(co, _3517641_37);
 return;
 }
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517138_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517138_37) {
-Obj _3517139_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517139_37;
-Obj _3517140_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517140_37;
-R[1] = x;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
+Obj _3518235_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518235_37) {
+Obj _3518236_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517642_37 = _3518236_37;
+Obj _3518237_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517643_37 = _3518237_37;
+R[1] = _3517642_37;
+saveCont(co, clofun27, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517643_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7544,78 +7548,78 @@ return;
 }
 case 1:
 {
-Obj _3517141_37= co->res;
-Obj x = R[1];
-Obj _3517142_37 = makeCons(co->gc, x, _3517141_37);
-coraReturn(co, _3517142_37);
+Obj _3518238_37= co->res;
+Obj _3517642_37 = R[1];
+Obj _3518239_37 = makeCons(co->gc, _3517642_37, _3518238_37);
+coraReturn(co, _3518239_37);
 return;
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516665_37 = R[1];
-Obj _3516666_37 = R[2];
-Obj _3517126_37 = PRIM_EQ(Nil, _3516665_37);
-if (True == _3517126_37) {
-coraReturn(co, _3516666_37);
-return;
-} else {
-Obj _3516668_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516665_37, _3516666_37);
-Obj _3517132_37 = PRIM_ISCONS(_3516665_37);
-if (True == _3517132_37) {
-Obj _3517133_37 = PRIM_CAR(_3516665_37);
-Obj x = _3517133_37;
-Obj _3517134_37 = PRIM_CDR(_3516665_37);
-Obj y = _3517134_37;
-R[1] = y;
-R[2] = _3516666_37;
-R[3] = _3516668_37;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516666_37);
+Obj _3517451_37 = R[1];
+Obj _3517452_37 = R[2];
+Obj _3518223_37 = PRIM_EQ(Nil, _3517451_37);
+if (True == _3518223_37) {
+coraReturn(co, _3517452_37);
+return;
+} else {
+Obj _3517636_37 = makeNative(co->gc, 2, clofun25, 0, 2, _3517451_37, _3517452_37);
+Obj _3518229_37 = PRIM_ISCONS(_3517451_37);
+if (True == _3518229_37) {
+Obj _3518230_37 = PRIM_CAR(_3517451_37);
+Obj _3517639_37 = _3518230_37;
+Obj _3518231_37 = PRIM_CDR(_3517451_37);
+Obj _3517640_37 = _3518231_37;
+R[1] = _3517640_37;
+R[2] = _3517452_37;
+R[3] = _3517636_37;
+saveCont(co, clofun26, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517639_37, _3517452_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516668_37);
+coraCall0(co, _3517636_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517135_37= co->res;
-Obj y = R[1];
-Obj _3516666_37 = R[2];
-Obj _3516668_37 = R[3];
-if (True == _3517135_37) {
+Obj _3518232_37= co->res;
+Obj _3517640_37 = R[1];
+Obj _3517452_37 = R[2];
+Obj _3517636_37 = R[3];
+if (True == _3518232_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516666_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517640_37, _3517452_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516668_37);
+coraCall0(co, _3517636_37);
 return;
 }
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517127_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517127_37) {
-Obj _3517128_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517128_37;
-Obj _3517129_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517129_37;
-R[1] = x;
-saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
+Obj _3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518224_37) {
+Obj _3518225_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517637_37 = _3518225_37;
+Obj _3518226_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517638_37 = _3518226_37;
+R[1] = _3517637_37;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517638_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7625,79 +7629,79 @@ return;
 }
 case 1:
 {
-Obj _3517130_37= co->res;
-Obj x = R[1];
-Obj _3517131_37 = makeCons(co->gc, x, _3517130_37);
-coraReturn(co, _3517131_37);
+Obj _3518227_37= co->res;
+Obj _3517637_37 = R[1];
+Obj _3518228_37 = makeCons(co->gc, _3517637_37, _3518227_37);
+coraReturn(co, _3518228_37);
 return;
 }
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516651_37 = R[1];
-Obj _3516652_37 = R[2];
-Obj _3516653_37 = R[3];
-Obj _3516795_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516651_37, _3516653_37, _3516652_37);
-R[1] = _3516653_37;
-R[2] = _3516795_37;
-saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516653_37);
+Obj _3517435_37 = R[1];
+Obj _3517436_37 = R[2];
+Obj _3517437_37 = R[3];
+Obj _3517596_37 = makeNative(co->gc, 2, clofun23, 1, 3, _3517435_37, _3517437_37, _3517436_37);
+R[1] = _3517437_37;
+R[2] = _3517596_37;
+saveCont(co, clofun24, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517437_37);
 return;
 }
 case 1:
 {
-Obj _3517124_37= co->res;
-Obj _3516795_37 = R[1];
-if (True == _3517124_37) {
+Obj _3518221_37= co->res;
+Obj _3517596_37 = R[1];
+if (True == _3518221_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516795_37, True);
+coraCall1(co, _3517596_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516795_37, False);
+coraCall1(co, _3517596_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517123_37= co->res;
-Obj _3516653_37 = R[1];
-Obj _3516795_37 = R[2];
-if (True == _3517123_37) {
+Obj _3518220_37= co->res;
+Obj _3517437_37 = R[1];
+Obj _3517596_37 = R[2];
+if (True == _3518220_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516795_37, True);
+coraCall1(co, _3517596_37, True);
 return;
 } else {
-R[1] = _3516795_37;
-saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516653_37);
+R[1] = _3517596_37;
+saveCont(co, clofun24, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517437_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517121_37= co->res;
-Obj _3516653_37 = R[1];
-Obj _3516795_37 = R[2];
-if (True == _3517121_37) {
+Obj _3518218_37= co->res;
+Obj _3517437_37 = R[1];
+Obj _3517596_37 = R[2];
+if (True == _3518218_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516795_37, True);
+coraCall1(co, _3517596_37, True);
 return;
 } else {
-Obj _3517122_37 = primIsString(_3516653_37);
-if (True == _3517122_37) {
+Obj _3518219_37 = primIsString(_3517437_37);
+if (True == _3518219_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516795_37, True);
+coraCall1(co, _3517596_37, True);
 return;
 } else {
-R[1] = _3516653_37;
-R[2] = _3516795_37;
-saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516653_37);
+R[1] = _3517437_37;
+R[2] = _3517596_37;
+saveCont(co, clofun24, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3517437_37);
 return;
 }
 }
@@ -7705,571 +7709,820 @@ return;
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516796_37 = R[1];
-if (True == _3516796_37) {
-Obj _3516932_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516933_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516932_37);
-coraReturn(co, _3516933_37);
-return;
-} else {
-Obj _3516655_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517108_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517108_37) {
-Obj _3517109_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517110_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517109_37);
-if (True == _3517110_37) {
-Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517112_37 = PRIM_ISCONS(_3517111_37);
-if (True == _3517112_37) {
-Obj _3517113_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517114_37 = PRIM_CAR(_3517113_37);
-Obj x = _3517114_37;
-Obj _3517115_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517116_37 = PRIM_CDR(_3517115_37);
-Obj _3517117_37 = PRIM_EQ(Nil, _3517116_37);
-if (True == _3517117_37) {
-R[1] = x;
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
+Obj _3517595_37 = R[1];
+if (True == _3517595_37) {
+Obj _3517982_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3517983_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517982_37);
+coraReturn(co, _3517983_37);
+return;
+} else {
+Obj _3517597_37 = makeNative(co->gc, 4, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3518204_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518204_37) {
+Obj _3518205_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518206_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518205_37);
+if (True == _3518206_37) {
+Obj _3518207_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518208_37 = PRIM_ISCONS(_3518207_37);
+if (True == _3518208_37) {
+Obj _3518209_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518210_37 = PRIM_CAR(_3518209_37);
+Obj _3517635_37 = _3518210_37;
+Obj _3518211_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518212_37 = PRIM_CDR(_3518211_37);
+Obj _3518213_37 = PRIM_EQ(Nil, _3518212_37);
+if (True == _3518213_37) {
+Obj _3518214_37 = primIsSymbol(_3517635_37);
+if (True == _3518214_37) {
+R[1] = _3517635_37;
+saveCont(co, clofun23, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), _3517635_37, closureRef(R[0], 2));
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517597_37);
 return;
+}
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516655_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516655_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516655_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516655_37);
+coraCall0(co, _3517597_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517118_37= co->res;
-Obj x = R[1];
-Obj _3517119_37 = makeCons(co->gc, x, Nil);
-Obj _3517120_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517119_37);
-coraReturn(co, _3517120_37);
+Obj _3518215_37= co->res;
+Obj _3517635_37 = R[1];
+Obj _3518216_37 = makeCons(co->gc, _3517635_37, Nil);
+Obj _3518217_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3518216_37);
+coraReturn(co, _3518217_37);
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516934_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516934_37) {
-saveCont(co, clofun18, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517598_37 = makeNative(co->gc, 1, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518176_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518176_37) {
+Obj _3518177_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518178_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518177_37);
+if (True == _3518178_37) {
+Obj _3518179_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518180_37 = PRIM_ISCONS(_3518179_37);
+if (True == _3518180_37) {
+Obj _3518181_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518182_37 = PRIM_CAR(_3518181_37);
+Obj _3518183_37 = PRIM_ISCONS(_3518182_37);
+if (True == _3518183_37) {
+Obj _3518184_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518185_37 = PRIM_CAR(_3518184_37);
+Obj _3518186_37 = PRIM_CAR(_3518185_37);
+Obj _3517633_37 = _3518186_37;
+Obj _3518187_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518188_37 = PRIM_CAR(_3518187_37);
+Obj _3518189_37 = PRIM_CDR(_3518188_37);
+Obj _3517634_37 = _3518189_37;
+Obj _3518190_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518191_37 = PRIM_CDR(_3518190_37);
+Obj _3518192_37 = PRIM_EQ(Nil, _3518191_37);
+if (True == _3518192_37) {
+Obj _3518193_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, Nil);
+Obj _3518194_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3518193_37);
+R[1] = _3517633_37;
+R[2] = _3517634_37;
+R[3] = _3518194_37;
+saveCont(co, clofun22, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516657_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517086_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517086_37) {
-Obj _3517087_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517088_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517087_37);
-if (True == _3517088_37) {
-Obj _3517089_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517090_37 = PRIM_ISCONS(_3517089_37);
-if (True == _3517090_37) {
-Obj _3517091_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517092_37 = PRIM_CAR(_3517091_37);
-Obj args = _3517092_37;
-Obj _3517093_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517094_37 = PRIM_CDR(_3517093_37);
-Obj _3517095_37 = PRIM_ISCONS(_3517094_37);
-if (True == _3517095_37) {
-Obj _3517096_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517097_37 = PRIM_CDR(_3517096_37);
-Obj _3517098_37 = PRIM_CAR(_3517097_37);
-Obj body = _3517098_37;
-Obj _3517099_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517100_37 = PRIM_CDR(_3517099_37);
-Obj _3517101_37 = PRIM_CDR(_3517100_37);
-Obj _3517102_37 = PRIM_EQ(Nil, _3517101_37);
-if (True == _3517102_37) {
-R[1] = body;
-R[2] = args;
-saveCont(co, clofun18, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0], 1));
+co->ctx.sp = R;
+coraCall0(co, _3517598_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517598_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517598_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517598_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517598_37);
+return;
+}
+}
+case 1:
+{
+Obj _3518202_37= co->res;
+Obj _3518194_37 = R[1];
+Obj _3518203_37 = makeCons(co->gc, _3518194_37, _3518202_37);
+coraReturn(co, _3518203_37);
+return;
+}
+case 2:
+{
+Obj _3518195_37= co->res;
+Obj _3517633_37 = R[1];
+Obj _3517634_37 = R[2];
+Obj _3518194_37 = R[3];
+Obj _3518196_37 = makeCons(co->gc, _3517633_37, Nil);
+Obj _3518197_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3518196_37);
+Obj _3518198_37 = makeCons(co->gc, _3517634_37, Nil);
+Obj _3518199_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3518198_37);
+Obj _3518200_37 = makeCons(co->gc, _3518199_37, Nil);
+Obj _3518201_37 = makeCons(co->gc, _3518197_37, _3518200_37);
+R[1] = _3518194_37;
+saveCont(co, clofun22, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518195_37, _3518201_37);
+return;
+}
+}
+}
+
+static void clofun21(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj _3517599_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518166_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518166_37) {
+Obj _3518167_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518168_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518167_37);
+if (True == _3518168_37) {
+Obj _3518169_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518170_37 = PRIM_ISCONS(_3518169_37);
+if (True == _3518170_37) {
+Obj _3518171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518172_37 = PRIM_CAR(_3518171_37);
+Obj _3517632_37 = _3518172_37;
+Obj _3518173_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518174_37 = PRIM_CDR(_3518173_37);
+Obj _3518175_37 = PRIM_EQ(Nil, _3518174_37);
+if (True == _3518175_37) {
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517632_37);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517599_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517599_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517599_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517599_37);
+return;
+}
+}
+}
+}
+
+static void clofun20(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj _3517984_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3517984_37) {
+saveCont(co, clofun20, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj _3517601_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518142_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518142_37) {
+Obj _3518143_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518144_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518143_37);
+if (True == _3518144_37) {
+Obj _3518145_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518146_37 = PRIM_ISCONS(_3518145_37);
+if (True == _3518146_37) {
+Obj _3518147_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518148_37 = PRIM_CAR(_3518147_37);
+Obj _3517630_37 = _3518148_37;
+Obj _3518149_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518150_37 = PRIM_CDR(_3518149_37);
+Obj _3518151_37 = PRIM_ISCONS(_3518150_37);
+if (True == _3518151_37) {
+Obj _3518152_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518153_37 = PRIM_CDR(_3518152_37);
+Obj _3518154_37 = PRIM_CAR(_3518153_37);
+Obj _3517631_37 = _3518154_37;
+Obj _3518155_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518156_37 = PRIM_CDR(_3518155_37);
+Obj _3518157_37 = PRIM_CDR(_3518156_37);
+Obj _3518158_37 = PRIM_EQ(Nil, _3518157_37);
+if (True == _3518158_37) {
+R[1] = _3517631_37;
+R[2] = _3517630_37;
+saveCont(co, clofun20, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), _3517630_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3517601_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516936_37= co->res;
-Obj _3516937_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516938_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516937_37);
-coraReturn(co, _3516938_37);
+Obj _3517987_37= co->res;
+Obj _3517988_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517989_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, _3517988_37);
+coraReturn(co, _3517989_37);
 return;
 }
 case 2:
 {
-Obj _3516935_37= co->res;
-if (True == _3516935_37) {
-coraReturn(co, closureRef(R[0], 0));
+Obj _3517986_37= co->res;
+Obj _3517600_37 = R[1];
+if (True == _3517986_37) {
+saveCont(co, clofun20, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3517990_37 = PRIM_CDR(_3517600_37);
+coraReturn(co, _3517990_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517104_37= co->res;
-Obj args = R[1];
-Obj _3517105_37 = makeCons(co->gc, _3517104_37, Nil);
-Obj _3517106_37 = makeCons(co->gc, args, _3517105_37);
-Obj _3517107_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517106_37);
-coraReturn(co, _3517107_37);
+Obj _3517985_37= co->res;
+Obj _3517600_37 = _3517985_37;
+R[1] = _3517600_37;
+saveCont(co, clofun20, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517600_37);
 return;
 }
 case 4:
 {
-Obj _3517103_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
-saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517103_37, closureRef(R[0], 2), body);
+Obj _3518162_37= co->res;
+Obj _3517630_37 = R[1];
+Obj _3518163_37 = makeCons(co->gc, _3518162_37, Nil);
+Obj _3518164_37 = makeCons(co->gc, _3517630_37, _3518163_37);
+Obj _3518165_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518164_37);
+coraReturn(co, _3518165_37);
+return;
+}
+case 5:
+{
+Obj _3518161_37= co->res;
+Obj _3517631_37 = R[1];
+Obj _3517630_37 = R[2];
+R[1] = _3517630_37;
+saveCont(co, clofun20, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3518161_37, closureRef(R[0], 2), _3517631_37);
+return;
+}
+case 6:
+{
+Obj _3518160_37= co->res;
+Obj _3517631_37 = R[1];
+Obj _3517630_37 = R[2];
+R[1] = _3517631_37;
+R[2] = _3517630_37;
+saveCont(co, clofun20, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3518160_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516658_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517054_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517054_37) {
-Obj _3517055_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517056_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517055_37);
-if (True == _3517056_37) {
-Obj _3517057_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517058_37 = PRIM_ISCONS(_3517057_37);
-if (True == _3517058_37) {
-Obj _3517059_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517060_37 = PRIM_CAR(_3517059_37);
-Obj _3517061_37 = PRIM_ISCONS(_3517060_37);
-if (True == _3517061_37) {
-Obj _3517062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517063_37 = PRIM_CAR(_3517062_37);
-Obj _3517064_37 = PRIM_CAR(_3517063_37);
-Obj _3517065_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517064_37);
-if (True == _3517065_37) {
-Obj _3517066_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517067_37 = PRIM_CAR(_3517066_37);
-Obj _3517068_37 = PRIM_CDR(_3517067_37);
-Obj exp1 = _3517068_37;
-Obj _3517069_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517070_37 = PRIM_CDR(_3517069_37);
-Obj exp2 = _3517070_37;
-Obj _3517071_37 = primGenSym(co);
-Obj f = _3517071_37;
-Obj _3517072_37 = primGenSym(co);
-Obj v = _3517072_37;
-Obj _3517073_37 = makeCons(co->gc, v, Nil);
-Obj _3517074_37 = makeCons(co->gc, v, exp2);
-Obj _3517075_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517074_37);
-Obj _3517076_37 = makeCons(co->gc, _3517075_37, Nil);
-Obj _3517077_37 = makeCons(co->gc, _3517073_37, _3517076_37);
-Obj _3517078_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517077_37);
-Obj _3517079_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517080_37 = makeCons(co->gc, _3517079_37, Nil);
-Obj _3517081_37 = makeCons(co->gc, f, _3517080_37);
-Obj _3517082_37 = makeCons(co->gc, _3517081_37, Nil);
-Obj _3517083_37 = makeCons(co->gc, _3517078_37, _3517082_37);
-Obj _3517084_37 = makeCons(co->gc, f, _3517083_37);
-Obj _3517085_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517084_37);
+Obj x = R[1];
+Obj _3518159_37 = makeCons(co->gc, x, x);
+coraReturn(co, _3518159_37);
+return;
+}
+}
+}
+
+static void clofun18(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj _3517602_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518110_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518110_37) {
+Obj _3518111_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518112_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518111_37);
+if (True == _3518112_37) {
+Obj _3518113_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518114_37 = PRIM_ISCONS(_3518113_37);
+if (True == _3518114_37) {
+Obj _3518115_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518116_37 = PRIM_CAR(_3518115_37);
+Obj _3518117_37 = PRIM_ISCONS(_3518116_37);
+if (True == _3518117_37) {
+Obj _3518118_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518119_37 = PRIM_CAR(_3518118_37);
+Obj _3518120_37 = PRIM_CAR(_3518119_37);
+Obj _3518121_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518120_37);
+if (True == _3518121_37) {
+Obj _3518122_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518123_37 = PRIM_CAR(_3518122_37);
+Obj _3518124_37 = PRIM_CDR(_3518123_37);
+Obj _3517626_37 = _3518124_37;
+Obj _3518125_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518126_37 = PRIM_CDR(_3518125_37);
+Obj _3517627_37 = _3518126_37;
+Obj _3518127_37 = primGenSym(co);
+Obj _3517628_37 = _3518127_37;
+Obj _3518128_37 = primGenSym(co);
+Obj _3517629_37 = _3518128_37;
+Obj _3518129_37 = makeCons(co->gc, _3517629_37, Nil);
+Obj _3518130_37 = makeCons(co->gc, _3517629_37, _3517627_37);
+Obj _3518131_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518130_37);
+Obj _3518132_37 = makeCons(co->gc, _3518131_37, Nil);
+Obj _3518133_37 = makeCons(co->gc, _3518129_37, _3518132_37);
+Obj _3518134_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518133_37);
+Obj _3518135_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517626_37);
+Obj _3518136_37 = makeCons(co->gc, _3518135_37, Nil);
+Obj _3518137_37 = makeCons(co->gc, _3517628_37, _3518136_37);
+Obj _3518138_37 = makeCons(co->gc, _3518137_37, Nil);
+Obj _3518139_37 = makeCons(co->gc, _3518134_37, _3518138_37);
+Obj _3518140_37 = makeCons(co->gc, _3517628_37, _3518139_37);
+Obj _3518141_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518140_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517085_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3518141_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3517602_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3517602_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3517602_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3517602_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3517602_37);
 return;
 }
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516659_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517047_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517047_37) {
-Obj _3517048_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517049_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517048_37);
-if (True == _3517049_37) {
-Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517050_37;
-R[1] = args;
-saveCont(co, clofun16, 2, R);
+Obj _3517603_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518103_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518103_37) {
+Obj _3518104_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518105_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518104_37);
+if (True == _3518105_37) {
+Obj _3518106_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517625_37 = _3518106_37;
+R[1] = _3517625_37;
+saveCont(co, clofun17, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3517603_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517052_37= co->res;
-Obj _3517053_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517052_37);
-coraReturn(co, _3517053_37);
+Obj _3518108_37= co->res;
+Obj _3518109_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518108_37);
+coraReturn(co, _3518109_37);
 return;
 }
 case 2:
 {
-Obj _3517051_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517051_37, args);
+Obj _3518107_37= co->res;
+Obj _3517625_37 = R[1];
+saveCont(co, clofun17, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518107_37, _3517625_37);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516660_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517025_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517025_37) {
-Obj _3517026_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517027_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517026_37);
-if (True == _3517027_37) {
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_ISCONS(_3517028_37);
-if (True == _3517029_37) {
-Obj _3517030_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517031_37 = PRIM_CAR(_3517030_37);
-Obj x = _3517031_37;
-Obj _3517032_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517033_37 = PRIM_CDR(_3517032_37);
-Obj _3517034_37 = PRIM_ISCONS(_3517033_37);
-if (True == _3517034_37) {
-Obj _3517035_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517036_37 = PRIM_CDR(_3517035_37);
-Obj _3517037_37 = PRIM_CAR(_3517036_37);
-Obj y = _3517037_37;
-Obj _3517038_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517039_37 = PRIM_CDR(_3517038_37);
-Obj _3517040_37 = PRIM_CDR(_3517039_37);
-Obj _3517041_37 = PRIM_EQ(Nil, _3517040_37);
-if (True == _3517041_37) {
-R[1] = y;
-saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
+Obj _3517604_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518081_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518081_37) {
+Obj _3518082_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518083_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518082_37);
+if (True == _3518083_37) {
+Obj _3518084_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518085_37 = PRIM_ISCONS(_3518084_37);
+if (True == _3518085_37) {
+Obj _3518086_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518087_37 = PRIM_CAR(_3518086_37);
+Obj _3517623_37 = _3518087_37;
+Obj _3518088_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518089_37 = PRIM_CDR(_3518088_37);
+Obj _3518090_37 = PRIM_ISCONS(_3518089_37);
+if (True == _3518090_37) {
+Obj _3518091_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518092_37 = PRIM_CDR(_3518091_37);
+Obj _3518093_37 = PRIM_CAR(_3518092_37);
+Obj _3517624_37 = _3518093_37;
+Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518095_37 = PRIM_CDR(_3518094_37);
+Obj _3518096_37 = PRIM_CDR(_3518095_37);
+Obj _3518097_37 = PRIM_EQ(Nil, _3518096_37);
+if (True == _3518097_37) {
+R[1] = _3517624_37;
+saveCont(co, clofun16, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517623_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3517604_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3517604_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517043_37= co->res;
-Obj _3517042_37 = R[1];
-Obj _3517044_37 = makeCons(co->gc, _3517043_37, Nil);
-Obj _3517045_37 = makeCons(co->gc, _3517042_37, _3517044_37);
-Obj _3517046_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517045_37);
-coraReturn(co, _3517046_37);
+Obj _3518099_37= co->res;
+Obj _3518098_37 = R[1];
+Obj _3518100_37 = makeCons(co->gc, _3518099_37, Nil);
+Obj _3518101_37 = makeCons(co->gc, _3518098_37, _3518100_37);
+Obj _3518102_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3518101_37);
+coraReturn(co, _3518102_37);
 return;
 }
 case 2:
 {
-Obj _3517042_37= co->res;
-Obj y = R[1];
-R[1] = _3517042_37;
-saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
+Obj _3518098_37= co->res;
+Obj _3517624_37 = R[1];
+R[1] = _3518098_37;
+saveCont(co, clofun16, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517624_37);
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516661_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516992_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516992_37) {
-Obj _3516993_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516994_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516993_37);
-if (True == _3516994_37) {
-Obj _3516995_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516996_37 = PRIM_ISCONS(_3516995_37);
-if (True == _3516996_37) {
-Obj _3516997_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516998_37 = PRIM_CAR(_3516997_37);
-Obj a = _3516998_37;
-Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517000_37 = PRIM_CDR(_3516999_37);
-Obj _3517001_37 = PRIM_ISCONS(_3517000_37);
-if (True == _3517001_37) {
-Obj _3517002_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517003_37 = PRIM_CDR(_3517002_37);
-Obj _3517004_37 = PRIM_CAR(_3517003_37);
-Obj b = _3517004_37;
-Obj _3517005_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517006_37 = PRIM_CDR(_3517005_37);
-Obj _3517007_37 = PRIM_CDR(_3517006_37);
-Obj _3517008_37 = PRIM_ISCONS(_3517007_37);
-if (True == _3517008_37) {
-Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_CDR(_3517009_37);
-Obj _3517011_37 = PRIM_CDR(_3517010_37);
-Obj _3517012_37 = PRIM_CAR(_3517011_37);
-Obj c = _3517012_37;
-Obj _3517013_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517014_37 = PRIM_CDR(_3517013_37);
-Obj _3517015_37 = PRIM_CDR(_3517014_37);
-Obj _3517016_37 = PRIM_CDR(_3517015_37);
-Obj _3517017_37 = PRIM_EQ(Nil, _3517016_37);
-if (True == _3517017_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), b);
+Obj _3517605_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518046_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518046_37) {
+Obj _3518047_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518048_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518047_37);
+if (True == _3518048_37) {
+Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518050_37 = PRIM_ISCONS(_3518049_37);
+if (True == _3518050_37) {
+Obj _3518051_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518052_37 = PRIM_CAR(_3518051_37);
+Obj _3517619_37 = _3518052_37;
+Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518054_37 = PRIM_CDR(_3518053_37);
+Obj _3518055_37 = PRIM_ISCONS(_3518054_37);
+if (True == _3518055_37) {
+Obj _3518056_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518057_37 = PRIM_CDR(_3518056_37);
+Obj _3518058_37 = PRIM_CAR(_3518057_37);
+Obj _3517620_37 = _3518058_37;
+Obj _3518059_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518060_37 = PRIM_CDR(_3518059_37);
+Obj _3518061_37 = PRIM_CDR(_3518060_37);
+Obj _3518062_37 = PRIM_ISCONS(_3518061_37);
+if (True == _3518062_37) {
+Obj _3518063_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518064_37 = PRIM_CDR(_3518063_37);
+Obj _3518065_37 = PRIM_CDR(_3518064_37);
+Obj _3518066_37 = PRIM_CAR(_3518065_37);
+Obj _3517621_37 = _3518066_37;
+Obj _3518067_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518068_37 = PRIM_CDR(_3518067_37);
+Obj _3518069_37 = PRIM_CDR(_3518068_37);
+Obj _3518070_37 = PRIM_CDR(_3518069_37);
+Obj _3518071_37 = PRIM_EQ(Nil, _3518070_37);
+if (True == _3518071_37) {
+Obj _3518072_37 = primGenSym(co);
+Obj _3517622_37 = _3518072_37;
+R[1] = _3517619_37;
+R[2] = _3517621_37;
+R[3] = _3517622_37;
+saveCont(co, clofun15, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517620_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3517605_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3517605_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517020_37= co->res;
-Obj _3517018_37 = R[1];
-Obj a = R[2];
-Obj _3517021_37 = makeCons(co->gc, _3517020_37, Nil);
-Obj _3517022_37 = makeCons(co->gc, _3517018_37, _3517021_37);
-Obj _3517023_37 = makeCons(co->gc, a, _3517022_37);
-Obj _3517024_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517023_37);
-coraReturn(co, _3517024_37);
+Obj _3518076_37= co->res;
+Obj _3518073_37 = R[1];
+Obj _3517622_37 = R[2];
+Obj _3518077_37 = makeCons(co->gc, _3518076_37, Nil);
+Obj _3518078_37 = makeCons(co->gc, _3518073_37, _3518077_37);
+Obj _3518079_37 = makeCons(co->gc, _3517622_37, _3518078_37);
+Obj _3518080_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518079_37);
+coraReturn(co, _3518080_37);
 return;
 }
 case 2:
 {
-Obj _3517018_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3517019_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3517018_37;
-R[2] = a;
-saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517019_37, closureRef(R[0], 2), c);
+Obj _3518073_37= co->res;
+Obj _3517619_37 = R[1];
+Obj _3517621_37 = R[2];
+Obj _3517622_37 = R[3];
+Obj _3518074_37 = makeCons(co->gc, _3517619_37, _3517622_37);
+Obj _3518075_37 = makeCons(co->gc, _3518074_37, closureRef(R[0], 1));
+R[1] = _3518073_37;
+R[2] = _3517622_37;
+saveCont(co, clofun15, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3518075_37, closureRef(R[0], 2), _3517621_37);
 return;
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516662_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516960_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516960_37) {
-Obj _3516961_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516962_37 = PRIM_ISCONS(_3516961_37);
-if (True == _3516962_37) {
-Obj _3516963_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516964_37 = PRIM_CAR(_3516963_37);
-Obj _3516965_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516964_37);
-if (True == _3516965_37) {
-Obj _3516966_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516967_37 = PRIM_CDR(_3516966_37);
-Obj exp1 = _3516967_37;
-Obj _3516968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516969_37 = PRIM_ISCONS(_3516968_37);
-if (True == _3516969_37) {
-Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516971_37 = PRIM_CAR(_3516970_37);
-Obj _3516972_37 = PRIM_ISCONS(_3516971_37);
-if (True == _3516972_37) {
-Obj _3516973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516974_37 = PRIM_CAR(_3516973_37);
-Obj _3516975_37 = PRIM_CAR(_3516974_37);
-Obj _3516976_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516975_37);
-if (True == _3516976_37) {
-Obj _3516977_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516978_37 = PRIM_CAR(_3516977_37);
-Obj _3516979_37 = PRIM_CDR(_3516978_37);
-Obj exp2 = _3516979_37;
-Obj _3516980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516981_37 = PRIM_CDR(_3516980_37);
-Obj _3516982_37 = PRIM_EQ(Nil, _3516981_37);
-if (True == _3516982_37) {
-Obj _3516983_37 = primGenSym(co);
-Obj f = _3516983_37;
-Obj _3516984_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3516985_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3516986_37 = makeCons(co->gc, _3516985_37, Nil);
-Obj _3516987_37 = makeCons(co->gc, f, _3516986_37);
-Obj _3516988_37 = makeCons(co->gc, _3516987_37, Nil);
-Obj _3516989_37 = makeCons(co->gc, _3516984_37, _3516988_37);
-Obj _3516990_37 = makeCons(co->gc, f, _3516989_37);
-Obj _3516991_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516990_37);
+Obj _3517606_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj _3518014_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518014_37) {
+Obj _3518015_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518016_37 = PRIM_ISCONS(_3518015_37);
+if (True == _3518016_37) {
+Obj _3518017_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518018_37 = PRIM_CAR(_3518017_37);
+Obj _3518019_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518018_37);
+if (True == _3518019_37) {
+Obj _3518020_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518021_37 = PRIM_CDR(_3518020_37);
+Obj _3517616_37 = _3518021_37;
+Obj _3518022_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518023_37 = PRIM_ISCONS(_3518022_37);
+if (True == _3518023_37) {
+Obj _3518024_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518025_37 = PRIM_CAR(_3518024_37);
+Obj _3518026_37 = PRIM_ISCONS(_3518025_37);
+if (True == _3518026_37) {
+Obj _3518027_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518028_37 = PRIM_CAR(_3518027_37);
+Obj _3518029_37 = PRIM_CAR(_3518028_37);
+Obj _3518030_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518029_37);
+if (True == _3518030_37) {
+Obj _3518031_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518032_37 = PRIM_CAR(_3518031_37);
+Obj _3518033_37 = PRIM_CDR(_3518032_37);
+Obj _3517617_37 = _3518033_37;
+Obj _3518034_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518035_37 = PRIM_CDR(_3518034_37);
+Obj _3518036_37 = PRIM_EQ(Nil, _3518035_37);
+if (True == _3518036_37) {
+Obj _3518037_37 = primGenSym(co);
+Obj _3517618_37 = _3518037_37;
+Obj _3518038_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517616_37);
+Obj _3518039_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517617_37);
+Obj _3518040_37 = makeCons(co->gc, _3518039_37, Nil);
+Obj _3518041_37 = makeCons(co->gc, _3517618_37, _3518040_37);
+Obj _3518042_37 = makeCons(co->gc, _3518041_37, Nil);
+Obj _3518043_37 = makeCons(co->gc, _3518038_37, _3518042_37);
+Obj _3518044_37 = makeCons(co->gc, _3517618_37, _3518043_37);
+Obj _3518045_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518044_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516991_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3518045_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3517606_37);
+return;
+}
+}
+}
+}
+
+static void clofun13(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj _3517607_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3517992_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517992_37) {
+Obj _3517993_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517608_37 = _3517993_37;
+Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517609_37 = _3517994_37;
+Obj _3517612_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), _3517608_37, _3517609_37, _3517607_37);
+R[1] = _3517608_37;
+R[2] = _3517612_37;
+saveCont(co, clofun13, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3517608_37);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, _3517607_37);
+return;
+}
+}
+case 1:
+{
+Obj _3518013_37= co->res;
+Obj _3517612_37 = R[1];
+if (True == _3518013_37) {
+co->ctx.sp = R;
+coraCall1(co, _3517612_37, True);
+return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, _3517612_37, False);
+return;
+}
+}
+case 2:
+{
+Obj _3518012_37= co->res;
+Obj _3517612_37 = R[1];
+R[1] = _3517612_37;
+saveCont(co, clofun13, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3518012_37);
+return;
+}
+case 3:
+{
+Obj _3518011_37= co->res;
+Obj _3517608_37 = R[1];
+Obj _3517612_37 = R[2];
+if (True == _3518011_37) {
+R[1] = _3517612_37;
+saveCont(co, clofun13, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), _3517608_37, closureRef(R[0], 2));
+return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, _3517612_37, False);
 return;
 }
 }
@@ -8280,90 +8533,74 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516663_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516940_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516940_37) {
-Obj _3516941_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516941_37;
-Obj _3516942_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516942_37;
-R[1] = op;
-R[2] = args;
-R[3] = _3516663_37;
-saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
+Obj _3517611_37 = R[1];
+if (True == _3517611_37) {
+saveCont(co, clofun12, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3516950_37= co->res;
-Obj _3516948_37 = R[1];
-Obj _3516951_37 = makeCons(co->gc, _3516948_37, _3516950_37);
-coraReturn(co, _3516951_37);
+Obj _3518001_37= co->res;
+Obj _3517999_37 = R[1];
+Obj _3518002_37 = makeCons(co->gc, _3517999_37, _3518001_37);
+coraReturn(co, _3518002_37);
 return;
 }
 case 2:
 {
-Obj _3516949_37= co->res;
-Obj args = R[1];
-Obj _3516948_37 = R[2];
-R[1] = _3516948_37;
+Obj _3518000_37= co->res;
+Obj _3517999_37 = R[1];
+R[1] = _3517999_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516949_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518000_37, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj _3516956_37= co->res;
-Obj tmp = R[1];
-Obj _3516957_37 = makeCons(co->gc, _3516956_37, Nil);
-Obj _3516958_37 = makeCons(co->gc, tmp, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516958_37);
+Obj _3518007_37= co->res;
+Obj _3517615_37 = R[1];
+Obj _3518008_37 = makeCons(co->gc, _3518007_37, Nil);
+Obj _3518009_37 = makeCons(co->gc, _3517615_37, _3518008_37);
+Obj _3518010_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518009_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516959_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), _3518010_37);
 return;
 }
 case 4:
 {
-Obj _3516954_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj tmp = _3516954_37;
-Obj _3516955_37 = makeCons(co->gc, op, args);
-R[1] = tmp;
+Obj _3518005_37= co->res;
+Obj _3517615_37 = _3518005_37;
+Obj _3518006_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
+R[1] = _3517615_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516955_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3518006_37, _3517615_37);
 return;
 }
 case 5:
 {
-Obj _3516945_37= co->res;
-Obj required = R[1];
-Obj op = R[2];
-Obj args = R[3];
-Obj provided = _3516945_37;
-Obj _3516946_37 = PRIM_EQ(required, provided);
-if (True == _3516946_37) {
-Obj _3516947_37 = makeCons(co->gc, op, Nil);
-Obj _3516948_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516947_37);
-R[1] = args;
-R[2] = _3516948_37;
+Obj _3517996_37= co->res;
+Obj _3517613_37 = R[1];
+Obj _3517614_37 = _3517996_37;
+Obj _3517997_37 = PRIM_EQ(_3517613_37, _3517614_37);
+if (True == _3517997_37) {
+Obj _3517998_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3517999_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517998_37);
+R[1] = _3517999_37;
 saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516952_37 = PRIM_GT(required, provided);
-if (True == _3516952_37) {
-Obj _3516953_37 = PRIM_SUB(required, provided);
-R[1] = op;
-R[2] = args;
+Obj _3518003_37 = PRIM_GT(_3517613_37, _3517614_37);
+if (True == _3518003_37) {
+Obj _3518004_37 = PRIM_SUB(_3517613_37, _3517614_37);
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516953_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3518004_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8374,37 +8611,15 @@ return;
 }
 case 6:
 {
-Obj _3516944_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj required = _3516944_37;
-R[1] = required;
-R[2] = op;
-R[3] = args;
+Obj _3517995_37= co->res;
+Obj _3517613_37 = _3517995_37;
+R[1] = _3517613_37;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
-return;
-}
-case 7:
-{
-Obj _3516943_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj _3516663_37 = R[3];
-if (True == _3516943_37) {
-R[1] = op;
-R[2] = args;
-saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
-return;
-} else {
-co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), closureRef(R[0], 3));
 return;
 }
 }
 }
-}
 
 static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
@@ -8416,9 +8631,9 @@ return;
 }
 case 1:
 {
-Obj _3516939_37= co->res;
+Obj _3517991_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516939_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517991_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8428,18 +8643,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516647_37 = R[1];
-Obj _3516648_37 = R[2];
-Obj _3516927_37 = PRIM_EQ(MAKE_NUMBER(0), _3516647_37);
-if (True == _3516927_37) {
-coraReturn(co, _3516648_37);
+Obj _3517431_37 = R[1];
+Obj _3517432_37 = R[2];
+Obj _3517977_37 = PRIM_EQ(MAKE_NUMBER(0), _3517431_37);
+if (True == _3517977_37) {
+coraReturn(co, _3517432_37);
 return;
 } else {
-Obj _3516928_37 = PRIM_SUB(_3516647_37, MAKE_NUMBER(1));
-Obj _3516929_37 = primGenSym(co);
-Obj _3516930_37 = makeCons(co->gc, _3516929_37, _3516648_37);
+Obj _3517978_37 = PRIM_SUB(_3517431_37, MAKE_NUMBER(1));
+Obj _3517979_37 = primGenSym(co);
+Obj _3517980_37 = makeCons(co->gc, _3517979_37, _3517432_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516928_37, _3516930_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517978_37, _3517980_37);
 return;
 }
 }
@@ -8457,24 +8672,24 @@ return;
 }
 case 1:
 {
-Obj _3516925_37= co->res;
-Obj find = R[1];
-if (True == _3516925_37) {
+Obj _3517975_37= co->res;
+Obj _3517593_37 = R[1];
+if (True == _3517975_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517593_37);
 return;
 }
 }
 case 2:
 {
-Obj _3516924_37= co->res;
-Obj find = _3516924_37;
-R[1] = find;
+Obj _3517974_37= co->res;
+Obj _3517593_37 = _3517974_37;
+R[1] = _3517593_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517593_37);
 return;
 }
 }
@@ -8491,24 +8706,24 @@ return;
 }
 case 1:
 {
-Obj _3516922_37= co->res;
-Obj find = R[1];
-if (True == _3516922_37) {
+Obj _3517972_37= co->res;
+Obj _3517592_37 = R[1];
+if (True == _3517972_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517592_37);
 return;
 }
 }
 case 2:
 {
-Obj _3516921_37= co->res;
-Obj find = _3516921_37;
-R[1] = find;
+Obj _3517971_37= co->res;
+Obj _3517592_37 = _3517971_37;
+R[1] = _3517592_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517592_37);
 return;
 }
 }
@@ -8525,16 +8740,16 @@ return;
 }
 case 1:
 {
-Obj _3516918_37= co->res;
-Obj _3516919_37 = primNot(_3516918_37);
-coraReturn(co, _3516919_37);
+Obj _3517968_37= co->res;
+Obj _3517969_37 = primNot(_3517968_37);
+coraReturn(co, _3517969_37);
 return;
 }
 case 2:
 {
-Obj _3516917_37= co->res;
+Obj _3517967_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516917_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517967_37);
 return;
 }
 }
@@ -8544,23 +8759,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516643_37 = R[1];
-Obj _3516644_37 = R[2];
-Obj _3516841_37 = PRIM_EQ(Nil, _3516644_37);
-if (True == _3516841_37) {
+Obj _3517427_37 = R[1];
+Obj _3517428_37 = R[2];
+Obj _3517891_37 = PRIM_EQ(Nil, _3517428_37);
+if (True == _3517891_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516842_37 = PRIM_ISCONS(_3516644_37);
-if (True == _3516842_37) {
-Obj _3516843_37 = PRIM_CAR(_3516644_37);
-Obj hd = _3516843_37;
-Obj _3516844_37 = PRIM_CDR(_3516644_37);
-Obj tl = _3516844_37;
-R[1] = _3516643_37;
-R[2] = tl;
+Obj _3517892_37 = PRIM_ISCONS(_3517428_37);
+if (True == _3517892_37) {
+Obj _3517893_37 = PRIM_CAR(_3517428_37);
+Obj _3517590_37 = _3517893_37;
+Obj _3517894_37 = PRIM_CDR(_3517428_37);
+Obj _3517591_37 = _3517894_37;
+R[1] = _3517427_37;
+R[2] = _3517591_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516643_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517427_37, _3517590_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8571,13 +8786,13 @@ return;
 }
 case 1:
 {
-Obj _3516845_37= co->res;
-Obj _3516643_37 = R[1];
-Obj tl = R[2];
-Obj _3516846_37 = PRIM_LT(_3516845_37, MAKE_NUMBER(0));
-if (True == _3516846_37) {
+Obj _3517895_37= co->res;
+Obj _3517427_37 = R[1];
+Obj _3517591_37 = R[2];
+Obj _3517896_37 = PRIM_LT(_3517895_37, MAKE_NUMBER(0));
+if (True == _3517896_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516643_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3517427_37, _3517591_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8604,32 +8819,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516637_37 = R[1];
-Obj _3516638_37 = R[2];
-Obj _3516639_37 = R[3];
-Obj _3516830_37 = PRIM_EQ(Nil, _3516639_37);
-if (True == _3516830_37) {
+Obj _3517421_37 = R[1];
+Obj _3517422_37 = R[2];
+Obj _3517423_37 = R[3];
+Obj _3517880_37 = PRIM_EQ(Nil, _3517423_37);
+if (True == _3517880_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516641_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516639_37, _3516637_37, _3516638_37);
-Obj _3516835_37 = PRIM_ISCONS(_3516639_37);
-if (True == _3516835_37) {
-Obj _3516836_37 = PRIM_CAR(_3516639_37);
-Obj a = _3516836_37;
-Obj _3516837_37 = PRIM_CDR(_3516639_37);
-Obj _3516838_37 = PRIM_EQ(_3516638_37, a);
-if (True == _3516838_37) {
-coraReturn(co, _3516637_37);
+Obj _3517587_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3517423_37, _3517421_37, _3517422_37);
+Obj _3517885_37 = PRIM_ISCONS(_3517423_37);
+if (True == _3517885_37) {
+Obj _3517886_37 = PRIM_CAR(_3517423_37);
+Obj _3517589_37 = _3517886_37;
+Obj _3517887_37 = PRIM_CDR(_3517423_37);
+Obj _3517888_37 = PRIM_EQ(_3517422_37, _3517589_37);
+if (True == _3517888_37) {
+coraReturn(co, _3517421_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516641_37);
+coraCall0(co, _3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516641_37);
+coraCall0(co, _3517587_37);
 return;
 }
 }
@@ -8641,14 +8856,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516831_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516831_37) {
-Obj _3516832_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516833_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516833_37;
-Obj _3516834_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3517881_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517881_37) {
+Obj _3517882_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517883_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517588_37 = _3517883_37;
+Obj _3517884_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516834_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3517884_37, closureRef(R[0], 2), _3517588_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8663,24 +8878,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516632_37 = R[1];
-Obj _3516633_37 = R[2];
-Obj _3516634_37 = R[3];
-Obj _3516824_37 = PRIM_EQ(Nil, _3516634_37);
-if (True == _3516824_37) {
-coraReturn(co, _3516633_37);
+Obj _3517416_37 = R[1];
+Obj _3517417_37 = R[2];
+Obj _3517418_37 = R[3];
+Obj _3517874_37 = PRIM_EQ(Nil, _3517418_37);
+if (True == _3517874_37) {
+coraReturn(co, _3517417_37);
 return;
 } else {
-Obj _3516825_37 = PRIM_ISCONS(_3516634_37);
-if (True == _3516825_37) {
-Obj _3516826_37 = PRIM_CAR(_3516634_37);
-Obj x = _3516826_37;
-Obj _3516827_37 = PRIM_CDR(_3516634_37);
-Obj y = _3516827_37;
-R[1] = _3516632_37;
-R[2] = y;
+Obj _3517875_37 = PRIM_ISCONS(_3517418_37);
+if (True == _3517875_37) {
+Obj _3517876_37 = PRIM_CAR(_3517418_37);
+Obj _3517585_37 = _3517876_37;
+Obj _3517877_37 = PRIM_CDR(_3517418_37);
+Obj _3517586_37 = _3517877_37;
+R[1] = _3517416_37;
+R[2] = _3517586_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516632_37, _3516633_37, x);
+coraCall2(co, _3517416_37, _3517417_37, _3517585_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8691,11 +8906,11 @@ return;
 }
 case 1:
 {
-Obj _3516828_37= co->res;
-Obj _3516632_37 = R[1];
-Obj y = R[2];
+Obj _3517878_37= co->res;
+Obj _3517416_37 = R[1];
+Obj _3517586_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516632_37, _3516828_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3517416_37, _3517878_37, _3517586_37);
 return;
 }
 }
@@ -8705,44 +8920,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516627_37 = R[1];
-Obj _3516628_37 = R[2];
-Obj _3516809_37 = PRIM_EQ(Nil, _3516628_37);
-if (True == _3516809_37) {
+Obj _3517411_37 = R[1];
+Obj _3517412_37 = R[2];
+Obj _3517859_37 = PRIM_EQ(Nil, _3517412_37);
+if (True == _3517859_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516630_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516628_37, _3516627_37);
-Obj _3516813_37 = PRIM_ISCONS(_3516628_37);
-if (True == _3516813_37) {
-Obj _3516814_37 = PRIM_CAR(_3516628_37);
-Obj _3516815_37 = PRIM_ISCONS(_3516814_37);
-if (True == _3516815_37) {
-Obj _3516816_37 = PRIM_CAR(_3516628_37);
-Obj _3516817_37 = PRIM_CAR(_3516816_37);
-Obj x = _3516817_37;
-Obj _3516818_37 = PRIM_CAR(_3516628_37);
-Obj _3516819_37 = PRIM_CDR(_3516818_37);
-Obj y = _3516819_37;
-Obj _3516820_37 = PRIM_CDR(_3516628_37);
-Obj _3516821_37 = PRIM_EQ(_3516627_37, x);
-if (True == _3516821_37) {
-Obj _3516822_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516822_37);
+Obj _3517581_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3517412_37, _3517411_37);
+Obj _3517863_37 = PRIM_ISCONS(_3517412_37);
+if (True == _3517863_37) {
+Obj _3517864_37 = PRIM_CAR(_3517412_37);
+Obj _3517865_37 = PRIM_ISCONS(_3517864_37);
+if (True == _3517865_37) {
+Obj _3517866_37 = PRIM_CAR(_3517412_37);
+Obj _3517867_37 = PRIM_CAR(_3517866_37);
+Obj _3517583_37 = _3517867_37;
+Obj _3517868_37 = PRIM_CAR(_3517412_37);
+Obj _3517869_37 = PRIM_CDR(_3517868_37);
+Obj _3517584_37 = _3517869_37;
+Obj _3517870_37 = PRIM_CDR(_3517412_37);
+Obj _3517871_37 = PRIM_EQ(_3517411_37, _3517583_37);
+if (True == _3517871_37) {
+Obj _3517872_37 = makeCons(co->gc, _3517583_37, _3517584_37);
+coraReturn(co, _3517872_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3517581_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3517581_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3517581_37);
 return;
 }
 }
@@ -8754,13 +8969,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516810_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516810_37) {
-Obj _3516811_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516812_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516812_37;
+Obj _3517860_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517860_37) {
+Obj _3517861_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517862_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517582_37 = _3517862_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), _3517582_37);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index cd061e6..52c3903 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -53,12 +53,18 @@
 
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
-	_ globals ['quote x] => (begin (add-symbol-to-list x globals) ['%const x])
-	env globals x => (if (elem? x env) x
+	_ globals ['quote x] => (begin (add-symbol-to-list x globals) ['%const x]) where (symbol? x)
+	;; a quoted list is built from its elements
+	env globals ['quote (cons x y)] => [['%builtin 'cons] . (map (parse env globals) [['quote x] ['quote y]])]
+	env globals ['quote x] => (parse env globals x)
+	;; env maps the variables in scope to the names they have in the output
+	env globals x => (let find (assq x env)
+			   (if (null? find)
 			     (begin
 			      (add-symbol-to-list x globals)
-			      ['%global x])) where (symbol? x)
-	env globals ['lambda args body] => ['lambda args (parse (append args env) globals body)]
+			      ['%global x])
+			     (cdr find))) where (symbol? x)
+	env globals ['lambda args body] => ['lambda args (parse (append (map (lambda (x) (cons x x)) args) env) globals body)]
 	;; macro rewrite to avoid code explosion during tailify-pass
 	env globals ['if ['if . exp1] . exp2] => (let f (gensym)
 						      v (gensym)
@@ -66,7 +72,9 @@
 							     [f ['if . exp1]]]))
 	env globals ['if . args] => ['if . (map (parse env globals) args)]
 	env globals ['do x y] => ['do (parse env globals x) (parse env globals y)]
-	env globals ['let a b c] => ['let a (parse env globals b) (parse (cons a env) globals c)]
+	;; the scope of the variable may be extended by the tailify-pass, so it gets a new name
+	env globals ['let a b c] => (let a1 (gensym)
+					 ['let a1 (parse env globals b) (parse (cons (cons a a1) env) globals c)])
 	;; macro rewrite to avoid code explosion during tailify-pass
 	env globals [['lambda . exp1] ['if . exp2]] => (let f (gensym)
 							    (parse env globals ['let f ['lambda . exp1]
@@ -81,7 +89,7 @@
 					   (let tmp (temp-list (- required provided) ())
 						(parse env globals ['lambda tmp (append [op . args] tmp)])))
 					  (true (error "primitive call mismatch"))))
-	where (builtin? op)
+	where (and (builtin? op) (null? (assq op env)))
 	env globals ls => (map (parse env globals) ls))
 
   (func union
-- 
2.43.0


From 32c7a9e8c3a5c9f12db92ff554eec15a1062ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 17/29] fix: string constants and names are written to the C
 file unambiguously

---
 init.c             | 3750 +++++++++----------
 lib/toc.c          | 8797 ++++++++++++++++++++++----------------------
 lib/toc.cora       |    8 +-
 lib/toc/internal.c |   24 +-
 4 files changed, 6315 insertions(+), 6264 deletions(-)

diff --git a/init.c b/init.c
index 256428a..2d7429a 100644
--- a/init.c
+++ b/init.c
@@ -275,319 +275,319 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513260_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3513263_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3513266_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3513269_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3513272_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3513276_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3513281_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3513285_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3513293_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3513295_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3513300_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj g__03513286_037 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj g__03513289_037 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj g__03513292_037 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj g__03513295_037 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj g__03513298_037 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj g__03513302_037 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj g__03513307_037 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj g__03513311_037 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj g__03513319_037 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj g__03513321_037 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj g__03513326_037 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj _3513781_37= co->res;
-Obj _3513787_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513799_37 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513800_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513801_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513800_37);
-Obj _3513802_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513801_37);
-Obj _3513803_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513804_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513803_37);
-Obj _3513805_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513804_37);
-Obj _3513806_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513807_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513806_37);
-Obj _3513808_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513807_37);
-Obj _3513809_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513810_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513809_37);
-Obj _3513811_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513810_37);
-Obj _3513812_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513813_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513812_37);
-Obj _3513814_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3513813_37);
-Obj _3513815_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513816_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513815_37);
-Obj _3513817_37 = makeCons(co->gc, getBinding(co, packageID, 69).name, _3513816_37);
-Obj _3513818_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513819_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513818_37);
-Obj _3513820_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513819_37);
-Obj _3513821_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513822_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513821_37);
-Obj _3513823_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513822_37);
-Obj _3513824_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513825_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513824_37);
-Obj _3513826_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513825_37);
-Obj _3513827_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513828_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513827_37);
-Obj _3513829_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513828_37);
-Obj _3513830_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513831_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513830_37);
-Obj _3513832_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513831_37);
-Obj _3513833_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513834_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513833_37);
-Obj _3513835_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513834_37);
-Obj _3513836_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513837_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513836_37);
-Obj _3513838_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513837_37);
-Obj _3513839_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513840_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513839_37);
-Obj _3513841_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513840_37);
-Obj _3513842_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513843_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513842_37);
-Obj _3513844_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513843_37);
-Obj _3513845_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513846_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513845_37);
-Obj _3513847_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513846_37);
-Obj _3513848_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513849_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513848_37);
-Obj _3513850_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513849_37);
-Obj _3513851_37 = makeCons(co->gc, _3513850_37, Nil);
-Obj _3513852_37 = makeCons(co->gc, _3513847_37, _3513851_37);
-Obj _3513853_37 = makeCons(co->gc, _3513844_37, _3513852_37);
-Obj _3513854_37 = makeCons(co->gc, _3513841_37, _3513853_37);
-Obj _3513855_37 = makeCons(co->gc, _3513838_37, _3513854_37);
-Obj _3513856_37 = makeCons(co->gc, _3513835_37, _3513855_37);
-Obj _3513857_37 = makeCons(co->gc, _3513832_37, _3513856_37);
-Obj _3513858_37 = makeCons(co->gc, _3513829_37, _3513857_37);
-Obj _3513859_37 = makeCons(co->gc, _3513826_37, _3513858_37);
-Obj _3513860_37 = makeCons(co->gc, _3513823_37, _3513859_37);
-Obj _3513861_37 = makeCons(co->gc, _3513820_37, _3513860_37);
-Obj _3513862_37 = makeCons(co->gc, _3513817_37, _3513861_37);
-Obj _3513863_37 = makeCons(co->gc, _3513814_37, _3513862_37);
-Obj _3513864_37 = makeCons(co->gc, _3513811_37, _3513863_37);
-Obj _3513865_37 = makeCons(co->gc, _3513808_37, _3513864_37);
-Obj _3513866_37 = makeCons(co->gc, _3513805_37, _3513865_37);
-Obj _3513867_37 = makeCons(co->gc, _3513802_37, _3513866_37);
-Obj _3513868_37 = primSet(co, getBinding(co, packageID, 71).name, _3513867_37);
-Obj _3513883_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513887_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3514065_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3514066_37 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
-Obj _3514067_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3514066_37);
-Obj _3514068_37 = makeCons(co->gc, getBinding(co, packageID, 103).name, _3514067_37);
-Obj _3514069_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3514068_37);
-Obj _3514070_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3514069_37);
-Obj _3514071_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, _3514070_37);
-Obj _3514072_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, _3514071_37);
-Obj _3514073_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3514072_37);
-Obj _3514074_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3514073_37);
-Obj _3514075_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3514074_37);
-Obj _3514076_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3514075_37);
-Obj _3514077_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3514076_37);
-Obj _3514078_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3514077_37);
-Obj _3514079_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3514078_37);
-Obj _3514080_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3514079_37);
-Obj _3514081_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3514080_37);
-Obj _3514082_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3514081_37);
-Obj _3514083_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3514082_37);
-Obj _3514084_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3514083_37);
-Obj _3514085_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3514084_37);
-Obj _3514086_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3514085_37);
-Obj _3514087_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3514086_37);
-Obj _3514088_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3514087_37);
-Obj _3514089_37 = makeCons(co->gc, getBinding(co, packageID, 53).name, _3514088_37);
-Obj _3514090_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3514089_37);
-Obj _3514091_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3514090_37);
-Obj _3514092_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, _3514091_37);
-Obj _3514093_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3514092_37);
-Obj _3514094_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, _3514093_37);
-Obj _3514095_37 = makeCons(co->gc, getBinding(co, packageID, 56).name, _3514094_37);
-Obj _3514096_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, _3514095_37);
-Obj _3514097_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3514096_37);
-Obj _3514098_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3514097_37);
-Obj _3514099_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3514098_37);
-Obj _3514100_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3514099_37);
-Obj _3514101_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3514100_37);
-Obj _3514102_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3514101_37);
-Obj _3514103_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3514102_37);
-Obj _3514104_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3514103_37);
-Obj _3514105_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3514104_37);
-Obj _3514106_37 = primSet(co, getBinding(co, packageID, 55).name, _3514105_37);
-Obj _3514107_37 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3514108_37 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3514109_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3514110_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3514111_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3514112_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3514113_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3514114_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
-Obj _3514115_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3514116_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
-Obj _3514117_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
-Obj _3514118_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
-Obj _3514119_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
-Obj _3514120_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
-Obj _3514121_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3514122_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3514123_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
-Obj _3514124_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3514125_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3514126_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3514127_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3514128_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3514129_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3514130_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3514131_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3514132_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3514133_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3514134_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3514135_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
-Obj _3514136_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3514137_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3514138_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
-Obj _3514139_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
-Obj _3514140_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
-Obj _3514141_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
-Obj _3514142_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
-Obj _3514143_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
-Obj _3514144_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
-Obj _3514145_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3514146_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
-Obj _3514147_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
-coraReturn(co, _3514147_37);
+Obj g__03513807_037= co->res;
+Obj g__03513813_037 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj g__03513825_037 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj g__03513826_037 = makeCons(co->gc, makeString(co->gc, "primSet", 7), Nil);
+Obj g__03513827_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513826_037);
+Obj g__03513828_037 = makeCons(co->gc, getBinding(co, packageID, 70).name, g__03513827_037);
+Obj g__03513829_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CAR", 8), Nil);
+Obj g__03513830_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513829_037);
+Obj g__03513831_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03513830_037);
+Obj g__03513832_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CDR", 8), Nil);
+Obj g__03513833_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513832_037);
+Obj g__03513834_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03513833_037);
+Obj g__03513835_037 = makeCons(co->gc, makeString(co->gc, "makeCons", 8), Nil);
+Obj g__03513836_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513835_037);
+Obj g__03513837_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513836_037);
+Obj g__03513838_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ISCONS", 11), Nil);
+Obj g__03513839_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513838_037);
+Obj g__03513840_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03513839_037);
+Obj g__03513841_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ADD", 8), Nil);
+Obj g__03513842_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513841_037);
+Obj g__03513843_037 = makeCons(co->gc, getBinding(co, packageID, 69).name, g__03513842_037);
+Obj g__03513844_037 = makeCons(co->gc, makeString(co->gc, "PRIM_SUB", 8), Nil);
+Obj g__03513845_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513844_037);
+Obj g__03513846_037 = makeCons(co->gc, getBinding(co, packageID, 68).name, g__03513845_037);
+Obj g__03513847_037 = makeCons(co->gc, makeString(co->gc, "PRIM_MUL", 8), Nil);
+Obj g__03513848_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513847_037);
+Obj g__03513849_037 = makeCons(co->gc, getBinding(co, packageID, 67).name, g__03513848_037);
+Obj g__03513850_037 = makeCons(co->gc, makeString(co->gc, "primDiv", 7), Nil);
+Obj g__03513851_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513850_037);
+Obj g__03513852_037 = makeCons(co->gc, getBinding(co, packageID, 66).name, g__03513851_037);
+Obj g__03513853_037 = makeCons(co->gc, makeString(co->gc, "PRIM_EQ", 7), Nil);
+Obj g__03513854_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513853_037);
+Obj g__03513855_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513854_037);
+Obj g__03513856_037 = makeCons(co->gc, makeString(co->gc, "PRIM_GT", 7), Nil);
+Obj g__03513857_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513856_037);
+Obj g__03513858_037 = makeCons(co->gc, getBinding(co, packageID, 65).name, g__03513857_037);
+Obj g__03513859_037 = makeCons(co->gc, makeString(co->gc, "PRIM_LT", 7), Nil);
+Obj g__03513860_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513859_037);
+Obj g__03513861_037 = makeCons(co->gc, getBinding(co, packageID, 64).name, g__03513860_037);
+Obj g__03513862_037 = makeCons(co->gc, makeString(co->gc, "primGenSym", 10), Nil);
+Obj g__03513863_037 = makeCons(co->gc, MAKE_NUMBER(0), g__03513862_037);
+Obj g__03513864_037 = makeCons(co->gc, getBinding(co, packageID, 63).name, g__03513863_037);
+Obj g__03513865_037 = makeCons(co->gc, makeString(co->gc, "primIsSymbol", 12), Nil);
+Obj g__03513866_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513865_037);
+Obj g__03513867_037 = makeCons(co->gc, getBinding(co, packageID, 62).name, g__03513866_037);
+Obj g__03513868_037 = makeCons(co->gc, makeString(co->gc, "primNot", 7), Nil);
+Obj g__03513869_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513868_037);
+Obj g__03513870_037 = makeCons(co->gc, getBinding(co, packageID, 61).name, g__03513869_037);
+Obj g__03513871_037 = makeCons(co->gc, makeString(co->gc, "primIsNumber", 12), Nil);
+Obj g__03513872_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513871_037);
+Obj g__03513873_037 = makeCons(co->gc, getBinding(co, packageID, 60).name, g__03513872_037);
+Obj g__03513874_037 = makeCons(co->gc, makeString(co->gc, "primIsString", 12), Nil);
+Obj g__03513875_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513874_037);
+Obj g__03513876_037 = makeCons(co->gc, getBinding(co, packageID, 59).name, g__03513875_037);
+Obj g__03513877_037 = makeCons(co->gc, g__03513876_037, Nil);
+Obj g__03513878_037 = makeCons(co->gc, g__03513873_037, g__03513877_037);
+Obj g__03513879_037 = makeCons(co->gc, g__03513870_037, g__03513878_037);
+Obj g__03513880_037 = makeCons(co->gc, g__03513867_037, g__03513879_037);
+Obj g__03513881_037 = makeCons(co->gc, g__03513864_037, g__03513880_037);
+Obj g__03513882_037 = makeCons(co->gc, g__03513861_037, g__03513881_037);
+Obj g__03513883_037 = makeCons(co->gc, g__03513858_037, g__03513882_037);
+Obj g__03513884_037 = makeCons(co->gc, g__03513855_037, g__03513883_037);
+Obj g__03513885_037 = makeCons(co->gc, g__03513852_037, g__03513884_037);
+Obj g__03513886_037 = makeCons(co->gc, g__03513849_037, g__03513885_037);
+Obj g__03513887_037 = makeCons(co->gc, g__03513846_037, g__03513886_037);
+Obj g__03513888_037 = makeCons(co->gc, g__03513843_037, g__03513887_037);
+Obj g__03513889_037 = makeCons(co->gc, g__03513840_037, g__03513888_037);
+Obj g__03513890_037 = makeCons(co->gc, g__03513837_037, g__03513889_037);
+Obj g__03513891_037 = makeCons(co->gc, g__03513834_037, g__03513890_037);
+Obj g__03513892_037 = makeCons(co->gc, g__03513831_037, g__03513891_037);
+Obj g__03513893_037 = makeCons(co->gc, g__03513828_037, g__03513892_037);
+Obj g__03513894_037 = primSet(co, getBinding(co, packageID, 71).name, g__03513893_037);
+Obj g__03513909_037 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj g__03513913_037 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj g__03514091_037 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj g__03514092_037 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
+Obj g__03514093_037 = makeCons(co->gc, getBinding(co, packageID, 101).name, g__03514092_037);
+Obj g__03514094_037 = makeCons(co->gc, getBinding(co, packageID, 103).name, g__03514093_037);
+Obj g__03514095_037 = makeCons(co->gc, getBinding(co, packageID, 133).name, g__03514094_037);
+Obj g__03514096_037 = makeCons(co->gc, getBinding(co, packageID, 139).name, g__03514095_037);
+Obj g__03514097_037 = makeCons(co->gc, getBinding(co, packageID, 148).name, g__03514096_037);
+Obj g__03514098_037 = makeCons(co->gc, getBinding(co, packageID, 150).name, g__03514097_037);
+Obj g__03514099_037 = makeCons(co->gc, getBinding(co, packageID, 77).name, g__03514098_037);
+Obj g__03514100_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03514099_037);
+Obj g__03514101_037 = makeCons(co->gc, getBinding(co, packageID, 41).name, g__03514100_037);
+Obj g__03514102_037 = makeCons(co->gc, getBinding(co, packageID, 42).name, g__03514101_037);
+Obj g__03514103_037 = makeCons(co->gc, getBinding(co, packageID, 43).name, g__03514102_037);
+Obj g__03514104_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03514103_037);
+Obj g__03514105_037 = makeCons(co->gc, getBinding(co, packageID, 44).name, g__03514104_037);
+Obj g__03514106_037 = makeCons(co->gc, getBinding(co, packageID, 45).name, g__03514105_037);
+Obj g__03514107_037 = makeCons(co->gc, getBinding(co, packageID, 72).name, g__03514106_037);
+Obj g__03514108_037 = makeCons(co->gc, getBinding(co, packageID, 46).name, g__03514107_037);
+Obj g__03514109_037 = makeCons(co->gc, getBinding(co, packageID, 47).name, g__03514108_037);
+Obj g__03514110_037 = makeCons(co->gc, getBinding(co, packageID, 48).name, g__03514109_037);
+Obj g__03514111_037 = makeCons(co->gc, getBinding(co, packageID, 49).name, g__03514110_037);
+Obj g__03514112_037 = makeCons(co->gc, getBinding(co, packageID, 50).name, g__03514111_037);
+Obj g__03514113_037 = makeCons(co->gc, getBinding(co, packageID, 51).name, g__03514112_037);
+Obj g__03514114_037 = makeCons(co->gc, getBinding(co, packageID, 52).name, g__03514113_037);
+Obj g__03514115_037 = makeCons(co->gc, getBinding(co, packageID, 53).name, g__03514114_037);
+Obj g__03514116_037 = makeCons(co->gc, getBinding(co, packageID, 54).name, g__03514115_037);
+Obj g__03514117_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03514116_037);
+Obj g__03514118_037 = makeCons(co->gc, getBinding(co, packageID, 76).name, g__03514117_037);
+Obj g__03514119_037 = makeCons(co->gc, getBinding(co, packageID, 75).name, g__03514118_037);
+Obj g__03514120_037 = makeCons(co->gc, getBinding(co, packageID, 162).name, g__03514119_037);
+Obj g__03514121_037 = makeCons(co->gc, getBinding(co, packageID, 56).name, g__03514120_037);
+Obj g__03514122_037 = makeCons(co->gc, getBinding(co, packageID, 122).name, g__03514121_037);
+Obj g__03514123_037 = makeCons(co->gc, getBinding(co, packageID, 132).name, g__03514122_037);
+Obj g__03514124_037 = makeCons(co->gc, getBinding(co, packageID, 152).name, g__03514123_037);
+Obj g__03514125_037 = makeCons(co->gc, getBinding(co, packageID, 155).name, g__03514124_037);
+Obj g__03514126_037 = makeCons(co->gc, getBinding(co, packageID, 156).name, g__03514125_037);
+Obj g__03514127_037 = makeCons(co->gc, getBinding(co, packageID, 157).name, g__03514126_037);
+Obj g__03514128_037 = makeCons(co->gc, getBinding(co, packageID, 158).name, g__03514127_037);
+Obj g__03514129_037 = makeCons(co->gc, getBinding(co, packageID, 159).name, g__03514128_037);
+Obj g__03514130_037 = makeCons(co->gc, getBinding(co, packageID, 160).name, g__03514129_037);
+Obj g__03514131_037 = makeCons(co->gc, getBinding(co, packageID, 161).name, g__03514130_037);
+Obj g__03514132_037 = primSet(co, getBinding(co, packageID, 55).name, g__03514131_037);
+Obj g__03514133_037 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj g__03514134_037 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj g__03514135_037 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj g__03514136_037 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj g__03514137_037 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj g__03514138_037 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj g__03514139_037 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj g__03514140_037 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj g__03514141_037 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj g__03514142_037 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj g__03514143_037 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj g__03514144_037 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
+Obj g__03514145_037 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
+Obj g__03514146_037 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
+Obj g__03514147_037 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj g__03514148_037 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj g__03514149_037 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
+Obj g__03514150_037 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj g__03514151_037 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj g__03514152_037 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj g__03514153_037 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj g__03514154_037 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj g__03514155_037 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj g__03514156_037 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj g__03514157_037 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj g__03514158_037 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj g__03514159_037 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj g__03514160_037 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj g__03514161_037 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
+Obj g__03514162_037 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj g__03514163_037 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj g__03514164_037 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
+Obj g__03514165_037 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
+Obj g__03514166_037 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj g__03514167_037 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj g__03514168_037 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj g__03514169_037 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj g__03514170_037 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
+Obj g__03514171_037 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj g__03514172_037 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
+Obj g__03514173_037 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
+coraReturn(co, g__03514173_037);
 return;
 }
 case 2:
 {
-Obj _3513731_37= co->res;
-Obj _3513760_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3513761_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj g__03513757_037= co->res;
+Obj g__03513786_037 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj g__03513787_037 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3513714_37= co->res;
-Obj _3513728_37 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj g__03513740_037= co->res;
+Obj g__03513754_037 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3513692_37= co->res;
-Obj _3513712_37 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj g__03513718_037= co->res;
+Obj g__03513738_037 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3513661_37= co->res;
-Obj _3513662_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3513663_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3513666_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3513690_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj g__03513687_037= co->res;
+Obj g__03513688_037 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj g__03513689_037 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj g__03513692_037 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj g__03513716_037 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3513553_37= co->res;
-Obj _3513605_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3513606_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3513611_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3513615_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3513616_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3513624_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3513625_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3513631_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3513642_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3513648_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj g__03513579_037= co->res;
+Obj g__03513631_037 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj g__03513632_037 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj g__03513637_037 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj g__03513641_037 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj g__03513642_037 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj g__03513650_037 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj g__03513651_037 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj g__03513657_037 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj g__03513668_037 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj g__03513674_037 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 97).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3513447_37= co->res;
-Obj _3513469_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3513503_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3513516_37 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3513538_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3513552_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj g__03513473_037= co->res;
+Obj g__03513495_037 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj g__03513529_037 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj g__03513542_037 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj g__03513564_037 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj g__03513578_037 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3513432_37= co->res;
-Obj _3513435_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3513445_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj g__03513458_037= co->res;
+Obj g__03513461_037 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj g__03513471_037 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3513418_37= co->res;
-Obj _3513430_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj g__03513444_037= co->res;
+Obj g__03513456_037 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3513404_37= co->res;
-Obj _3513416_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj g__03513430_037= co->res;
+Obj g__03513442_037 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3513390_37= co->res;
+Obj g__03513416_037= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3513368_37= co->res;
-Obj _3513373_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3513376_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3513388_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj g__03513394_037= co->res;
+Obj g__03513399_037 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj g__03513402_037 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj g__03513414_037 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3513358_37= co->res;
+Obj g__03513384_037= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3513356_37= co->res;
+Obj g__03513382_037= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3513301_37= co->res;
-Obj _3513302_37 = primSet(co, getBinding(co, packageID, 150).name, _3513301_37);
-Obj _3513308_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3513309_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3513310_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
-Obj _3513311_37 = primGenSym(co);
-Obj _3513312_37 = primSet(co, getBinding(co, packageID, 146).name, _3513311_37);
-Obj _3513316_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3513326_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
-Obj _3513355_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj g__03513327_037= co->res;
+Obj g__03513328_037 = primSet(co, getBinding(co, packageID, 150).name, g__03513327_037);
+Obj g__03513334_037 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj g__03513335_037 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj g__03513336_037 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj g__03513337_037 = primGenSym(co);
+Obj g__03513338_037 = primSet(co, getBinding(co, packageID, 146).name, g__03513337_037);
+Obj g__03513342_037 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj g__03513351_037 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj g__03513352_037 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj g__03513369_037 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj g__03513370_037 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj g__03513381_037 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
@@ -599,67 +599,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513143_37 = R[1];
-Obj _3513144_37 = R[2];
-Obj _3513145_37 = R[3];
-Obj _3513146_37 = R[4];
-Obj _3513232_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3513143_37, _3513144_37, _3513145_37, _3513146_37);
-R[1] = _3513146_37;
-R[2] = _3513232_37;
+Obj g__03513169_037 = R[1];
+Obj g__03513170_037 = R[2];
+Obj g__03513171_037 = R[3];
+Obj g__03513172_037 = R[4];
+Obj g__03513258_037 = makeNative(co->gc, 2, clofun93, 1, 4, g__03513169_037, g__03513170_037, g__03513171_037, g__03513172_037);
+R[1] = g__03513172_037;
+R[2] = g__03513258_037;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), _3513146_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), g__03513172_037);
 return;
 }
 case 1:
 {
-Obj _3514064_37= co->res;
-Obj _3513232_37 = R[1];
-if (True == _3514064_37) {
+Obj g__03514090_037= co->res;
+Obj g__03513258_037 = R[1];
+if (True == g__03514090_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513232_37, True);
+coraCall1(co, g__03513258_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513232_37, False);
+coraCall1(co, g__03513258_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3514063_37= co->res;
-Obj _3513146_37 = R[1];
-Obj _3513232_37 = R[2];
-if (True == _3514063_37) {
+Obj g__03514089_037= co->res;
+Obj g__03513172_037 = R[1];
+Obj g__03513258_037 = R[2];
+if (True == g__03514089_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513232_37, True);
+coraCall1(co, g__03513258_037, True);
 return;
 } else {
-R[1] = _3513232_37;
+R[1] = g__03513258_037;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513146_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513172_037);
 return;
 }
 }
 case 3:
 {
-Obj _3514061_37= co->res;
-Obj _3513146_37 = R[1];
-Obj _3513232_37 = R[2];
-if (True == _3514061_37) {
+Obj g__03514087_037= co->res;
+Obj g__03513172_037 = R[1];
+Obj g__03513258_037 = R[2];
+if (True == g__03514087_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513232_37, True);
+coraCall1(co, g__03513258_037, True);
 return;
 } else {
-Obj _3514062_37 = primIsString(_3513146_37);
-if (True == _3514062_37) {
+Obj g__03514088_037 = primIsString(g__03513172_037);
+if (True == g__03514088_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513232_37, True);
+coraCall1(co, g__03513258_037, True);
 return;
 } else {
-R[1] = _3513146_37;
-R[2] = _3513232_37;
+R[1] = g__03513172_037;
+R[2] = g__03513258_037;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), _3513146_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), g__03513172_037);
 return;
 }
 }
@@ -671,49 +671,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513231_37 = R[1];
-if (True == _3513231_37) {
+Obj g__03513257_037 = R[1];
+if (True == g__03513257_037) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3513233_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3514049_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3514049_37) {
-Obj _3514050_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3514051_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3514050_37);
-if (True == _3514051_37) {
-Obj _3514052_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3514053_37 = PRIM_ISCONS(_3514052_37);
-if (True == _3514053_37) {
-Obj _3514054_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3514055_37 = PRIM_CAR(_3514054_37);
-Obj _3513258_37 = _3514055_37;
-Obj _3514056_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3514057_37 = PRIM_CDR(_3514056_37);
-Obj _3514058_37 = PRIM_EQ(Nil, _3514057_37);
-if (True == _3514058_37) {
-Obj _3514059_37 = makeCons(co->gc, _3513258_37, Nil);
-Obj _3514060_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3514059_37);
-coraReturn(co, _3514060_37);
+Obj g__03513259_037 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03514075_037 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == g__03514075_037) {
+Obj g__03514076_037 = PRIM_CAR(closureRef(R[0], 3));
+Obj g__03514077_037 = PRIM_EQ(getBinding(co, packageID, 140).name, g__03514076_037);
+if (True == g__03514077_037) {
+Obj g__03514078_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03514079_037 = PRIM_ISCONS(g__03514078_037);
+if (True == g__03514079_037) {
+Obj g__03514080_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03514081_037 = PRIM_CAR(g__03514080_037);
+Obj g__03513284_037 = g__03514081_037;
+Obj g__03514082_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03514083_037 = PRIM_CDR(g__03514082_037);
+Obj g__03514084_037 = PRIM_EQ(Nil, g__03514083_037);
+if (True == g__03514084_037) {
+Obj g__03514085_037 = makeCons(co->gc, g__03513284_037, Nil);
+Obj g__03514086_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03514085_037);
+coraReturn(co, g__03514086_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513233_37);
+coraCall0(co, g__03513259_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513233_37);
+coraCall0(co, g__03513259_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513233_37);
+coraCall0(co, g__03513259_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513233_37);
+coraCall0(co, g__03513259_037);
 return;
 }
 }
@@ -725,73 +725,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513888_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513888_37) {
+Obj g__03513914_037 = primIsSymbol(closureRef(R[0], 0));
+if (True == g__03513914_037) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3513234_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3514027_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3514027_37) {
-Obj _3514028_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3514029_37 = PRIM_EQ(getBinding(co, packageID, 141).name, _3514028_37);
-if (True == _3514029_37) {
-Obj _3514030_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514031_37 = PRIM_ISCONS(_3514030_37);
-if (True == _3514031_37) {
-Obj _3514032_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514033_37 = PRIM_CAR(_3514032_37);
-Obj _3513256_37 = _3514033_37;
-Obj _3514034_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514035_37 = PRIM_CDR(_3514034_37);
-Obj _3514036_37 = PRIM_ISCONS(_3514035_37);
-if (True == _3514036_37) {
-Obj _3514037_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514038_37 = PRIM_CDR(_3514037_37);
-Obj _3514039_37 = PRIM_CAR(_3514038_37);
-Obj _3513257_37 = _3514039_37;
-Obj _3514040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514041_37 = PRIM_CDR(_3514040_37);
-Obj _3514042_37 = PRIM_CDR(_3514041_37);
-Obj _3514043_37 = PRIM_EQ(Nil, _3514042_37);
-if (True == _3514043_37) {
-R[1] = _3513257_37;
-R[2] = _3513256_37;
+Obj g__03513260_037 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03514053_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514053_037) {
+Obj g__03514054_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03514055_037 = PRIM_EQ(getBinding(co, packageID, 141).name, g__03514054_037);
+if (True == g__03514055_037) {
+Obj g__03514056_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514057_037 = PRIM_ISCONS(g__03514056_037);
+if (True == g__03514057_037) {
+Obj g__03514058_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514059_037 = PRIM_CAR(g__03514058_037);
+Obj g__03513282_037 = g__03514059_037;
+Obj g__03514060_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514061_037 = PRIM_CDR(g__03514060_037);
+Obj g__03514062_037 = PRIM_ISCONS(g__03514061_037);
+if (True == g__03514062_037) {
+Obj g__03514063_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514064_037 = PRIM_CDR(g__03514063_037);
+Obj g__03514065_037 = PRIM_CAR(g__03514064_037);
+Obj g__03513283_037 = g__03514065_037;
+Obj g__03514066_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514067_037 = PRIM_CDR(g__03514066_037);
+Obj g__03514068_037 = PRIM_CDR(g__03514067_037);
+Obj g__03514069_037 = PRIM_EQ(Nil, g__03514068_037);
+if (True == g__03514069_037) {
+R[1] = g__03513283_037;
+R[2] = g__03513282_037;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3513256_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513282_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513234_37);
+coraCall0(co, g__03513260_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513234_37);
+coraCall0(co, g__03513260_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513234_37);
+coraCall0(co, g__03513260_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513234_37);
+coraCall0(co, g__03513260_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513234_37);
+coraCall0(co, g__03513260_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513890_37= co->res;
-if (True == _3513890_37) {
+Obj g__03513916_037= co->res;
+if (True == g__03513916_037) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -802,8 +802,8 @@ return;
 }
 case 2:
 {
-Obj _3513889_37= co->res;
-if (True == _3513889_37) {
+Obj g__03513915_037= co->res;
+if (True == g__03513915_037) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -814,22 +814,22 @@ return;
 }
 case 3:
 {
-Obj _3514045_37= co->res;
-Obj _3513256_37 = R[1];
-Obj _3514046_37 = makeCons(co->gc, _3514045_37, Nil);
-Obj _3514047_37 = makeCons(co->gc, _3513256_37, _3514046_37);
-Obj _3514048_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3514047_37);
-coraReturn(co, _3514048_37);
+Obj g__03514071_037= co->res;
+Obj g__03513282_037 = R[1];
+Obj g__03514072_037 = makeCons(co->gc, g__03514071_037, Nil);
+Obj g__03514073_037 = makeCons(co->gc, g__03513282_037, g__03514072_037);
+Obj g__03514074_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03514073_037);
+coraReturn(co, g__03514074_037);
 return;
 }
 case 4:
 {
-Obj _3514044_37= co->res;
-Obj _3513257_37 = R[1];
-Obj _3513256_37 = R[2];
-R[1] = _3513256_37;
+Obj g__03514070_037= co->res;
+Obj g__03513283_037 = R[1];
+Obj g__03513282_037 = R[2];
+R[1] = g__03513282_037;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3514044_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513257_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), g__03514070_037, closureRef(R[0], 2), closureRef(R[0], 3), g__03513283_037);
 return;
 }
 }
@@ -839,132 +839,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513235_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513983_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513983_37) {
-Obj _3513984_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513985_37 = PRIM_EQ(getBinding(co, packageID, 92).name, _3513984_37);
-if (True == _3513985_37) {
-Obj _3513986_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513987_37 = PRIM_ISCONS(_3513986_37);
-if (True == _3513987_37) {
-Obj _3513988_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513989_37 = PRIM_CAR(_3513988_37);
-Obj _3513990_37 = PRIM_ISCONS(_3513989_37);
-if (True == _3513990_37) {
-Obj _3513991_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513992_37 = PRIM_CAR(_3513991_37);
-Obj _3513993_37 = PRIM_CAR(_3513992_37);
-Obj _3513994_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3513993_37);
-if (True == _3513994_37) {
-Obj _3513995_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513996_37 = PRIM_CAR(_3513995_37);
-Obj _3513997_37 = PRIM_CDR(_3513996_37);
-Obj _3513998_37 = PRIM_ISCONS(_3513997_37);
-if (True == _3513998_37) {
-Obj _3513999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514000_37 = PRIM_CAR(_3513999_37);
-Obj _3514001_37 = PRIM_CDR(_3514000_37);
-Obj _3514002_37 = PRIM_CAR(_3514001_37);
-Obj _3513254_37 = _3514002_37;
-Obj _3514003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514004_37 = PRIM_CAR(_3514003_37);
-Obj _3514005_37 = PRIM_CDR(_3514004_37);
-Obj _3514006_37 = PRIM_CDR(_3514005_37);
-Obj _3514007_37 = PRIM_EQ(Nil, _3514006_37);
-if (True == _3514007_37) {
-Obj _3514008_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514009_37 = PRIM_CDR(_3514008_37);
-Obj _3514010_37 = PRIM_ISCONS(_3514009_37);
-if (True == _3514010_37) {
-Obj _3514011_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514012_37 = PRIM_CDR(_3514011_37);
-Obj _3514013_37 = PRIM_CAR(_3514012_37);
-Obj _3513255_37 = _3514013_37;
-Obj _3514014_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3514015_37 = PRIM_CDR(_3514014_37);
-Obj _3514016_37 = PRIM_CDR(_3514015_37);
-Obj _3514017_37 = PRIM_EQ(Nil, _3514016_37);
-if (True == _3514017_37) {
-Obj _3514018_37 = primIsString(_3513254_37);
-if (True == _3514018_37) {
-Obj _3514019_37 = makeCons(co->gc, _3513254_37, Nil);
-Obj _3514020_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3514019_37);
-R[1] = _3513254_37;
-R[2] = _3513255_37;
+Obj g__03513261_037 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03514009_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514009_037) {
+Obj g__03514010_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03514011_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03514010_037);
+if (True == g__03514011_037) {
+Obj g__03514012_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514013_037 = PRIM_ISCONS(g__03514012_037);
+if (True == g__03514013_037) {
+Obj g__03514014_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514015_037 = PRIM_CAR(g__03514014_037);
+Obj g__03514016_037 = PRIM_ISCONS(g__03514015_037);
+if (True == g__03514016_037) {
+Obj g__03514017_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514018_037 = PRIM_CAR(g__03514017_037);
+Obj g__03514019_037 = PRIM_CAR(g__03514018_037);
+Obj g__03514020_037 = PRIM_EQ(getBinding(co, packageID, 83).name, g__03514019_037);
+if (True == g__03514020_037) {
+Obj g__03514021_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514022_037 = PRIM_CAR(g__03514021_037);
+Obj g__03514023_037 = PRIM_CDR(g__03514022_037);
+Obj g__03514024_037 = PRIM_ISCONS(g__03514023_037);
+if (True == g__03514024_037) {
+Obj g__03514025_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514026_037 = PRIM_CAR(g__03514025_037);
+Obj g__03514027_037 = PRIM_CDR(g__03514026_037);
+Obj g__03514028_037 = PRIM_CAR(g__03514027_037);
+Obj g__03513280_037 = g__03514028_037;
+Obj g__03514029_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514030_037 = PRIM_CAR(g__03514029_037);
+Obj g__03514031_037 = PRIM_CDR(g__03514030_037);
+Obj g__03514032_037 = PRIM_CDR(g__03514031_037);
+Obj g__03514033_037 = PRIM_EQ(Nil, g__03514032_037);
+if (True == g__03514033_037) {
+Obj g__03514034_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514035_037 = PRIM_CDR(g__03514034_037);
+Obj g__03514036_037 = PRIM_ISCONS(g__03514035_037);
+if (True == g__03514036_037) {
+Obj g__03514037_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514038_037 = PRIM_CDR(g__03514037_037);
+Obj g__03514039_037 = PRIM_CAR(g__03514038_037);
+Obj g__03513281_037 = g__03514039_037;
+Obj g__03514040_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514041_037 = PRIM_CDR(g__03514040_037);
+Obj g__03514042_037 = PRIM_CDR(g__03514041_037);
+Obj g__03514043_037 = PRIM_EQ(Nil, g__03514042_037);
+if (True == g__03514043_037) {
+Obj g__03514044_037 = primIsString(g__03513280_037);
+if (True == g__03514044_037) {
+Obj g__03514045_037 = makeCons(co->gc, g__03513280_037, Nil);
+Obj g__03514046_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03514045_037);
+R[1] = g__03513280_037;
+R[2] = g__03513281_037;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3514020_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03514046_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513235_37);
+coraCall0(co, g__03513261_037);
 return;
 }
 }
 case 1:
 {
-Obj _3514023_37= co->res;
-Obj _3514021_37 = R[1];
-Obj _3514024_37 = makeCons(co->gc, _3514023_37, Nil);
-Obj _3514025_37 = makeCons(co->gc, _3514021_37, _3514024_37);
-Obj _3514026_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3514025_37);
-coraReturn(co, _3514026_37);
+Obj g__03514049_037= co->res;
+Obj g__03514047_037 = R[1];
+Obj g__03514050_037 = makeCons(co->gc, g__03514049_037, Nil);
+Obj g__03514051_037 = makeCons(co->gc, g__03514047_037, g__03514050_037);
+Obj g__03514052_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03514051_037);
+coraReturn(co, g__03514052_037);
 return;
 }
 case 2:
 {
-Obj _3514021_37= co->res;
-Obj _3513254_37 = R[1];
-Obj _3513255_37 = R[2];
-Obj _3514022_37 = makeCons(co->gc, _3513254_37, closureRef(R[0], 3));
-R[1] = _3514021_37;
+Obj g__03514047_037= co->res;
+Obj g__03513280_037 = R[1];
+Obj g__03513281_037 = R[2];
+Obj g__03514048_037 = makeCons(co->gc, g__03513280_037, closureRef(R[0], 3));
+R[1] = g__03514047_037;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), _3514022_37, _3513255_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), g__03514048_037, g__03513281_037);
 return;
 }
 }
@@ -974,34 +974,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513236_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513975_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513975_37) {
-Obj _3513976_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513249_37 = _3513976_37;
-Obj _3513977_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513250_37 = _3513977_37;
-Obj _3513253_37 = makeNative(co->gc, 2, clofun89, 1, 6, _3513249_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513250_37, _3513236_37);
-Obj _3513981_37 = PRIM_EQ(_3513249_37, getBinding(co, packageID, 127).name);
-if (True == _3513981_37) {
+Obj g__03513262_037 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03514001_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514001_037) {
+Obj g__03514002_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513275_037 = g__03514002_037;
+Obj g__03514003_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513276_037 = g__03514003_037;
+Obj g__03513279_037 = makeNative(co->gc, 2, clofun89, 1, 6, g__03513275_037, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513276_037, g__03513262_037);
+Obj g__03514007_037 = PRIM_EQ(g__03513275_037, getBinding(co, packageID, 127).name);
+if (True == g__03514007_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513253_37, True);
+coraCall1(co, g__03513279_037, True);
 return;
 } else {
-Obj _3513982_37 = PRIM_EQ(_3513249_37, getBinding(co, packageID, 92).name);
-if (True == _3513982_37) {
+Obj g__03514008_037 = PRIM_EQ(g__03513275_037, getBinding(co, packageID, 92).name);
+if (True == g__03514008_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513253_37, True);
+coraCall1(co, g__03513279_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513253_37, False);
+coraCall1(co, g__03513279_037, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513236_37);
+coraCall0(co, g__03513262_037);
 return;
 }
 }
@@ -1012,8 +1012,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513252_37 = R[1];
-if (True == _3513252_37) {
+Obj g__03513278_037 = R[1];
+if (True == g__03513278_037) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1025,16 +1025,16 @@ return;
 }
 case 1:
 {
-Obj _3513979_37= co->res;
-Obj _3513980_37 = makeCons(co->gc, closureRef(R[0], 0), _3513979_37);
-coraReturn(co, _3513980_37);
+Obj g__03514005_037= co->res;
+Obj g__03514006_037 = makeCons(co->gc, closureRef(R[0], 0), g__03514005_037);
+coraReturn(co, g__03514006_037);
 return;
 }
 case 2:
 {
-Obj _3513978_37= co->res;
+Obj g__03514004_037= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513978_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), g__03514004_037, closureRef(R[0], 4));
 return;
 }
 }
@@ -1044,100 +1044,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513237_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513942_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513942_37) {
-Obj _3513943_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513944_37 = PRIM_EQ(getBinding(co, packageID, 130).name, _3513943_37);
-if (True == _3513944_37) {
-Obj _3513945_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513946_37 = PRIM_ISCONS(_3513945_37);
-if (True == _3513946_37) {
-Obj _3513947_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513948_37 = PRIM_CAR(_3513947_37);
-Obj _3513246_37 = _3513948_37;
-Obj _3513949_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513950_37 = PRIM_CDR(_3513949_37);
-Obj _3513951_37 = PRIM_ISCONS(_3513950_37);
-if (True == _3513951_37) {
-Obj _3513952_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513953_37 = PRIM_CDR(_3513952_37);
-Obj _3513954_37 = PRIM_CAR(_3513953_37);
-Obj _3513247_37 = _3513954_37;
-Obj _3513955_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513956_37 = PRIM_CDR(_3513955_37);
-Obj _3513957_37 = PRIM_CDR(_3513956_37);
-Obj _3513958_37 = PRIM_ISCONS(_3513957_37);
-if (True == _3513958_37) {
-Obj _3513959_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513960_37 = PRIM_CDR(_3513959_37);
-Obj _3513961_37 = PRIM_CDR(_3513960_37);
-Obj _3513962_37 = PRIM_CAR(_3513961_37);
-Obj _3513248_37 = _3513962_37;
-Obj _3513963_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513964_37 = PRIM_CDR(_3513963_37);
-Obj _3513965_37 = PRIM_CDR(_3513964_37);
-Obj _3513966_37 = PRIM_CDR(_3513965_37);
-Obj _3513967_37 = PRIM_EQ(Nil, _3513966_37);
-if (True == _3513967_37) {
-R[1] = _3513248_37;
-R[2] = _3513246_37;
+Obj g__03513263_037 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03513968_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513968_037) {
+Obj g__03513969_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513970_037 = PRIM_EQ(getBinding(co, packageID, 130).name, g__03513969_037);
+if (True == g__03513970_037) {
+Obj g__03513971_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513972_037 = PRIM_ISCONS(g__03513971_037);
+if (True == g__03513972_037) {
+Obj g__03513973_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513974_037 = PRIM_CAR(g__03513973_037);
+Obj g__03513272_037 = g__03513974_037;
+Obj g__03513975_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513976_037 = PRIM_CDR(g__03513975_037);
+Obj g__03513977_037 = PRIM_ISCONS(g__03513976_037);
+if (True == g__03513977_037) {
+Obj g__03513978_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513979_037 = PRIM_CDR(g__03513978_037);
+Obj g__03513980_037 = PRIM_CAR(g__03513979_037);
+Obj g__03513273_037 = g__03513980_037;
+Obj g__03513981_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513982_037 = PRIM_CDR(g__03513981_037);
+Obj g__03513983_037 = PRIM_CDR(g__03513982_037);
+Obj g__03513984_037 = PRIM_ISCONS(g__03513983_037);
+if (True == g__03513984_037) {
+Obj g__03513985_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513986_037 = PRIM_CDR(g__03513985_037);
+Obj g__03513987_037 = PRIM_CDR(g__03513986_037);
+Obj g__03513988_037 = PRIM_CAR(g__03513987_037);
+Obj g__03513274_037 = g__03513988_037;
+Obj g__03513989_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513990_037 = PRIM_CDR(g__03513989_037);
+Obj g__03513991_037 = PRIM_CDR(g__03513990_037);
+Obj g__03513992_037 = PRIM_CDR(g__03513991_037);
+Obj g__03513993_037 = PRIM_EQ(Nil, g__03513992_037);
+if (True == g__03513993_037) {
+R[1] = g__03513274_037;
+R[2] = g__03513272_037;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513247_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513273_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513237_37);
+coraCall0(co, g__03513263_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513237_37);
+coraCall0(co, g__03513263_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513237_37);
+coraCall0(co, g__03513263_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513237_37);
+coraCall0(co, g__03513263_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513237_37);
+coraCall0(co, g__03513263_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513237_37);
+coraCall0(co, g__03513263_037);
 return;
 }
 }
 case 1:
 {
-Obj _3513970_37= co->res;
-Obj _3513968_37 = R[1];
-Obj _3513246_37 = R[2];
-Obj _3513971_37 = makeCons(co->gc, _3513970_37, Nil);
-Obj _3513972_37 = makeCons(co->gc, _3513968_37, _3513971_37);
-Obj _3513973_37 = makeCons(co->gc, _3513246_37, _3513972_37);
-Obj _3513974_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513973_37);
-coraReturn(co, _3513974_37);
+Obj g__03513996_037= co->res;
+Obj g__03513994_037 = R[1];
+Obj g__03513272_037 = R[2];
+Obj g__03513997_037 = makeCons(co->gc, g__03513996_037, Nil);
+Obj g__03513998_037 = makeCons(co->gc, g__03513994_037, g__03513997_037);
+Obj g__03513999_037 = makeCons(co->gc, g__03513272_037, g__03513998_037);
+Obj g__03514000_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513999_037);
+coraReturn(co, g__03514000_037);
 return;
 }
 case 2:
 {
-Obj _3513968_37= co->res;
-Obj _3513248_37 = R[1];
-Obj _3513246_37 = R[2];
-Obj _3513969_37 = makeCons(co->gc, _3513246_37, closureRef(R[0], 1));
-R[1] = _3513968_37;
-R[2] = _3513246_37;
+Obj g__03513994_037= co->res;
+Obj g__03513274_037 = R[1];
+Obj g__03513272_037 = R[2];
+Obj g__03513995_037 = makeCons(co->gc, g__03513272_037, closureRef(R[0], 1));
+R[1] = g__03513994_037;
+R[2] = g__03513272_037;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), _3513969_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513248_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), g__03513995_037, closureRef(R[0], 2), closureRef(R[0], 3), g__03513274_037);
 return;
 }
 }
@@ -1147,73 +1147,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513238_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513916_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513916_37) {
-Obj _3513917_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513918_37 = PRIM_EQ(getBinding(co, packageID, 80).name, _3513917_37);
-if (True == _3513918_37) {
-Obj _3513919_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513920_37 = PRIM_ISCONS(_3513919_37);
-if (True == _3513920_37) {
-Obj _3513921_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513922_37 = PRIM_CAR(_3513921_37);
-Obj _3513243_37 = _3513922_37;
-Obj _3513923_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513924_37 = PRIM_CDR(_3513923_37);
-Obj _3513925_37 = PRIM_ISCONS(_3513924_37);
-if (True == _3513925_37) {
-Obj _3513926_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513927_37 = PRIM_CDR(_3513926_37);
-Obj _3513928_37 = PRIM_CAR(_3513927_37);
-Obj _3513244_37 = _3513928_37;
-Obj _3513929_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513930_37 = PRIM_CDR(_3513929_37);
-Obj _3513931_37 = PRIM_CDR(_3513930_37);
-Obj _3513932_37 = PRIM_ISCONS(_3513931_37);
-if (True == _3513932_37) {
-Obj _3513933_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513934_37 = PRIM_CDR(_3513933_37);
-Obj _3513935_37 = PRIM_CDR(_3513934_37);
-Obj _3513936_37 = PRIM_CAR(_3513935_37);
-Obj _3513245_37 = _3513936_37;
-Obj _3513937_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513938_37 = PRIM_CDR(_3513937_37);
-Obj _3513939_37 = PRIM_CDR(_3513938_37);
-Obj _3513940_37 = PRIM_CDR(_3513939_37);
-Obj _3513941_37 = PRIM_EQ(Nil, _3513940_37);
-if (True == _3513941_37) {
+Obj g__03513264_037 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03513942_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03513942_037) {
+Obj g__03513943_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03513944_037 = PRIM_EQ(getBinding(co, packageID, 80).name, g__03513943_037);
+if (True == g__03513944_037) {
+Obj g__03513945_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513946_037 = PRIM_ISCONS(g__03513945_037);
+if (True == g__03513946_037) {
+Obj g__03513947_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513948_037 = PRIM_CAR(g__03513947_037);
+Obj g__03513269_037 = g__03513948_037;
+Obj g__03513949_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513950_037 = PRIM_CDR(g__03513949_037);
+Obj g__03513951_037 = PRIM_ISCONS(g__03513950_037);
+if (True == g__03513951_037) {
+Obj g__03513952_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513953_037 = PRIM_CDR(g__03513952_037);
+Obj g__03513954_037 = PRIM_CAR(g__03513953_037);
+Obj g__03513270_037 = g__03513954_037;
+Obj g__03513955_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513956_037 = PRIM_CDR(g__03513955_037);
+Obj g__03513957_037 = PRIM_CDR(g__03513956_037);
+Obj g__03513958_037 = PRIM_ISCONS(g__03513957_037);
+if (True == g__03513958_037) {
+Obj g__03513959_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513960_037 = PRIM_CDR(g__03513959_037);
+Obj g__03513961_037 = PRIM_CDR(g__03513960_037);
+Obj g__03513962_037 = PRIM_CAR(g__03513961_037);
+Obj g__03513271_037 = g__03513962_037;
+Obj g__03513963_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513964_037 = PRIM_CDR(g__03513963_037);
+Obj g__03513965_037 = PRIM_CDR(g__03513964_037);
+Obj g__03513966_037 = PRIM_CDR(g__03513965_037);
+Obj g__03513967_037 = PRIM_EQ(Nil, g__03513966_037);
+if (True == g__03513967_037) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), _3513243_37, _3513244_37, _3513245_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), g__03513269_037, g__03513270_037, g__03513271_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513238_37);
+coraCall0(co, g__03513264_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513238_37);
+coraCall0(co, g__03513264_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513238_37);
+coraCall0(co, g__03513264_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513238_37);
+coraCall0(co, g__03513264_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513238_37);
+coraCall0(co, g__03513264_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513238_37);
+coraCall0(co, g__03513264_037);
 return;
 }
 }
@@ -1224,81 +1224,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513239_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513892_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513892_37) {
-Obj _3513893_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513894_37 = PRIM_EQ(getBinding(co, packageID, 134).name, _3513893_37);
-if (True == _3513894_37) {
-Obj _3513895_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513896_37 = PRIM_ISCONS(_3513895_37);
-if (True == _3513896_37) {
-Obj _3513897_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513898_37 = PRIM_CAR(_3513897_37);
-Obj _3513240_37 = _3513898_37;
-Obj _3513899_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513900_37 = PRIM_CDR(_3513899_37);
-Obj _3513901_37 = PRIM_ISCONS(_3513900_37);
-if (True == _3513901_37) {
-Obj _3513902_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513903_37 = PRIM_CDR(_3513902_37);
-Obj _3513904_37 = PRIM_CAR(_3513903_37);
-Obj _3513241_37 = _3513904_37;
-Obj _3513905_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513906_37 = PRIM_CDR(_3513905_37);
-Obj _3513907_37 = PRIM_CDR(_3513906_37);
-Obj _3513908_37 = PRIM_EQ(Nil, _3513907_37);
-if (True == _3513908_37) {
-R[1] = _3513241_37;
+Obj g__03513265_037 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj g__03513918_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513918_037) {
+Obj g__03513919_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513920_037 = PRIM_EQ(getBinding(co, packageID, 134).name, g__03513919_037);
+if (True == g__03513920_037) {
+Obj g__03513921_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513922_037 = PRIM_ISCONS(g__03513921_037);
+if (True == g__03513922_037) {
+Obj g__03513923_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513924_037 = PRIM_CAR(g__03513923_037);
+Obj g__03513266_037 = g__03513924_037;
+Obj g__03513925_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513926_037 = PRIM_CDR(g__03513925_037);
+Obj g__03513927_037 = PRIM_ISCONS(g__03513926_037);
+if (True == g__03513927_037) {
+Obj g__03513928_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513929_037 = PRIM_CDR(g__03513928_037);
+Obj g__03513930_037 = PRIM_CAR(g__03513929_037);
+Obj g__03513267_037 = g__03513930_037;
+Obj g__03513931_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513932_037 = PRIM_CDR(g__03513931_037);
+Obj g__03513933_037 = PRIM_CDR(g__03513932_037);
+Obj g__03513934_037 = PRIM_EQ(Nil, g__03513933_037);
+if (True == g__03513934_037) {
+R[1] = g__03513267_037;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), _3513240_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), g__03513266_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513239_37);
+coraCall0(co, g__03513265_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513239_37);
+coraCall0(co, g__03513265_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513239_37);
+coraCall0(co, g__03513265_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513239_37);
+coraCall0(co, g__03513265_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513239_37);
+coraCall0(co, g__03513265_037);
 return;
 }
 }
 case 1:
 {
-Obj _3513912_37= co->res;
-Obj _3513911_37 = R[1];
-Obj _3513913_37 = makeCons(co->gc, _3513912_37, Nil);
-Obj _3513914_37 = makeCons(co->gc, _3513911_37, _3513913_37);
-Obj _3513915_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513914_37);
-coraReturn(co, _3513915_37);
+Obj g__03513938_037= co->res;
+Obj g__03513937_037 = R[1];
+Obj g__03513939_037 = makeCons(co->gc, g__03513938_037, Nil);
+Obj g__03513940_037 = makeCons(co->gc, g__03513937_037, g__03513939_037);
+Obj g__03513941_037 = makeCons(co->gc, getBinding(co, packageID, 70).name, g__03513940_037);
+coraReturn(co, g__03513941_037);
 return;
 }
 case 2:
 {
-Obj _3513909_37= co->res;
-Obj _3513241_37 = R[1];
-Obj _3513242_37 = _3513909_37;
-Obj _3513910_37 = makeCons(co->gc, _3513242_37, Nil);
-Obj _3513911_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513910_37);
-R[1] = _3513911_37;
+Obj g__03513935_037= co->res;
+Obj g__03513267_037 = R[1];
+Obj g__03513268_037 = g__03513935_037;
+Obj g__03513936_037 = makeCons(co->gc, g__03513268_037, Nil);
+Obj g__03513937_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513936_037);
+R[1] = g__03513937_037;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513241_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513267_037);
 return;
 }
 }
@@ -1314,9 +1314,9 @@ return;
 }
 case 1:
 {
-Obj _3513891_37= co->res;
+Obj g__03513917_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), _3513891_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), g__03513917_037, closureRef(R[0], 3));
 return;
 }
 }
@@ -1326,23 +1326,23 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), x, globalRef(co, getBinding(co, packageID, 71)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v_x, globalRef(co, getBinding(co, packageID, 71)));
 return;
 }
 case 1:
 {
-Obj _3513885_37= co->res;
-Obj _3513886_37 = primNot(_3513885_37);
-coraReturn(co, _3513886_37);
+Obj g__03513911_037= co->res;
+Obj g__03513912_037 = primNot(g__03513911_037);
+coraReturn(co, g__03513912_037);
 return;
 }
 case 2:
 {
-Obj _3513884_37= co->res;
+Obj g__03513910_037= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513884_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513910_037);
 return;
 }
 }
@@ -1352,44 +1352,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513138_37 = R[1];
-Obj _3513139_37 = R[2];
-Obj _3513869_37 = PRIM_EQ(Nil, _3513139_37);
-if (True == _3513869_37) {
+Obj g__03513164_037 = R[1];
+Obj g__03513165_037 = R[2];
+Obj g__03513895_037 = PRIM_EQ(Nil, g__03513165_037);
+if (True == g__03513895_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3513226_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3513139_37, _3513138_37);
-Obj _3513873_37 = PRIM_ISCONS(_3513139_37);
-if (True == _3513873_37) {
-Obj _3513874_37 = PRIM_CAR(_3513139_37);
-Obj _3513875_37 = PRIM_ISCONS(_3513874_37);
-if (True == _3513875_37) {
-Obj _3513876_37 = PRIM_CAR(_3513139_37);
-Obj _3513877_37 = PRIM_CAR(_3513876_37);
-Obj _3513228_37 = _3513877_37;
-Obj _3513878_37 = PRIM_CAR(_3513139_37);
-Obj _3513879_37 = PRIM_CDR(_3513878_37);
-Obj _3513229_37 = _3513879_37;
-Obj _3513880_37 = PRIM_CDR(_3513139_37);
-Obj _3513881_37 = PRIM_EQ(_3513138_37, _3513228_37);
-if (True == _3513881_37) {
-Obj _3513882_37 = makeCons(co->gc, _3513228_37, _3513229_37);
-coraReturn(co, _3513882_37);
+Obj g__03513252_037 = makeNative(co->gc, 1, clofun82, 0, 2, g__03513165_037, g__03513164_037);
+Obj g__03513899_037 = PRIM_ISCONS(g__03513165_037);
+if (True == g__03513899_037) {
+Obj g__03513900_037 = PRIM_CAR(g__03513165_037);
+Obj g__03513901_037 = PRIM_ISCONS(g__03513900_037);
+if (True == g__03513901_037) {
+Obj g__03513902_037 = PRIM_CAR(g__03513165_037);
+Obj g__03513903_037 = PRIM_CAR(g__03513902_037);
+Obj g__03513254_037 = g__03513903_037;
+Obj g__03513904_037 = PRIM_CAR(g__03513165_037);
+Obj g__03513905_037 = PRIM_CDR(g__03513904_037);
+Obj g__03513255_037 = g__03513905_037;
+Obj g__03513906_037 = PRIM_CDR(g__03513165_037);
+Obj g__03513907_037 = PRIM_EQ(g__03513164_037, g__03513254_037);
+if (True == g__03513907_037) {
+Obj g__03513908_037 = makeCons(co->gc, g__03513254_037, g__03513255_037);
+coraReturn(co, g__03513908_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513226_37);
+coraCall0(co, g__03513252_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513226_37);
+coraCall0(co, g__03513252_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513226_37);
+coraCall0(co, g__03513252_037);
 return;
 }
 }
@@ -1401,17 +1401,17 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513870_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513870_37) {
-Obj _3513871_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513872_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513227_37 = _3513872_37;
+Obj g__03513896_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513896_037) {
+Obj g__03513897_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513898_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513253_037 = g__03513898_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), _3513227_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), g__03513253_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -1422,121 +1422,121 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513133_37 = R[1];
-Obj _3513134_37 = R[2];
-Obj _3513135_37 = R[3];
-Obj _3513788_37 = PRIM_EQ(Nil, _3513135_37);
-if (True == _3513788_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), _3513133_37, _3513134_37);
-return;
-} else {
-Obj _3513789_37 = PRIM_ISCONS(_3513135_37);
-if (True == _3513789_37) {
-Obj _3513790_37 = PRIM_CAR(_3513135_37);
-Obj _3513223_37 = _3513790_37;
-Obj _3513791_37 = PRIM_CDR(_3513135_37);
-Obj _3513224_37 = _3513791_37;
-R[1] = _3513223_37;
-R[2] = _3513133_37;
-R[3] = _3513134_37;
-R[4] = _3513224_37;
+Obj g__03513159_037 = R[1];
+Obj g__03513160_037 = R[2];
+Obj g__03513161_037 = R[3];
+Obj g__03513814_037 = PRIM_EQ(Nil, g__03513161_037);
+if (True == g__03513814_037) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), g__03513159_037, g__03513160_037);
+return;
+} else {
+Obj g__03513815_037 = PRIM_ISCONS(g__03513161_037);
+if (True == g__03513815_037) {
+Obj g__03513816_037 = PRIM_CAR(g__03513161_037);
+Obj g__03513249_037 = g__03513816_037;
+Obj g__03513817_037 = PRIM_CDR(g__03513161_037);
+Obj g__03513250_037 = g__03513817_037;
+R[1] = g__03513249_037;
+R[2] = g__03513159_037;
+R[3] = g__03513160_037;
+R[4] = g__03513250_037;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), _3513223_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), g__03513249_037, makeString(co->gc, "#*ns-export*", 12));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513798_37= co->res;
+Obj g__03513824_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513798_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513824_037);
 return;
 }
 case 2:
 {
-Obj _3513797_37= co->res;
-Obj _3513223_37 = R[1];
+Obj g__03513823_037= co->res;
+Obj g__03513249_037 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), _3513223_37, _3513797_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), g__03513249_037, g__03513823_037);
 return;
 }
 case 3:
 {
-Obj _3513796_37= co->res;
-Obj _3513223_37 = R[1];
-R[1] = _3513223_37;
+Obj g__03513822_037= co->res;
+Obj g__03513249_037 = R[1];
+R[1] = g__03513249_037;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513796_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeString(co->gc, "#", 1), g__03513822_037);
 return;
 }
 case 4:
 {
-Obj _3513795_37= co->res;
-Obj _3513223_37 = R[1];
-Obj _3513133_37 = R[2];
-Obj _3513134_37 = R[3];
-Obj _3513224_37 = R[4];
-if (True == _3513795_37) {
-R[1] = _3513223_37;
+Obj g__03513821_037= co->res;
+Obj g__03513249_037 = R[1];
+Obj g__03513159_037 = R[2];
+Obj g__03513160_037 = R[3];
+Obj g__03513250_037 = R[4];
+if (True == g__03513821_037) {
+R[1] = g__03513249_037;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513133_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), g__03513159_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), _3513133_37, _3513134_37, _3513224_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), g__03513159_037, g__03513160_037, g__03513250_037);
 return;
 }
 }
 case 5:
 {
-Obj _3513794_37= co->res;
-Obj _3513223_37 = R[1];
-Obj _3513133_37 = R[2];
-Obj _3513134_37 = R[3];
-Obj _3513224_37 = R[4];
-Obj _3513225_37 = _3513794_37;
-R[1] = _3513223_37;
-R[2] = _3513133_37;
-R[3] = _3513134_37;
-R[4] = _3513224_37;
+Obj g__03513820_037= co->res;
+Obj g__03513249_037 = R[1];
+Obj g__03513159_037 = R[2];
+Obj g__03513160_037 = R[3];
+Obj g__03513250_037 = R[4];
+Obj g__03513251_037 = g__03513820_037;
+R[1] = g__03513249_037;
+R[2] = g__03513159_037;
+R[3] = g__03513160_037;
+R[4] = g__03513250_037;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), _3513133_37, _3513225_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), g__03513159_037, g__03513251_037);
 return;
 }
 case 6:
 {
-Obj _3513793_37= co->res;
-Obj _3513223_37 = R[1];
-Obj _3513133_37 = R[2];
-Obj _3513134_37 = R[3];
-Obj _3513224_37 = R[4];
-R[1] = _3513223_37;
-R[2] = _3513133_37;
-R[3] = _3513134_37;
-R[4] = _3513224_37;
+Obj g__03513819_037= co->res;
+Obj g__03513249_037 = R[1];
+Obj g__03513159_037 = R[2];
+Obj g__03513160_037 = R[3];
+Obj g__03513250_037 = R[4];
+R[1] = g__03513249_037;
+R[2] = g__03513159_037;
+R[3] = g__03513160_037;
+R[4] = g__03513250_037;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), _3513793_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), g__03513819_037, Nil);
 return;
 }
 case 7:
 {
-Obj _3513792_37= co->res;
-Obj _3513223_37 = R[1];
-Obj _3513133_37 = R[2];
-Obj _3513134_37 = R[3];
-Obj _3513224_37 = R[4];
-R[1] = _3513223_37;
-R[2] = _3513133_37;
-R[3] = _3513134_37;
-R[4] = _3513224_37;
+Obj g__03513818_037= co->res;
+Obj g__03513249_037 = R[1];
+Obj g__03513159_037 = R[2];
+Obj g__03513160_037 = R[3];
+Obj g__03513250_037 = R[4];
+R[1] = g__03513249_037;
+R[2] = g__03513159_037;
+R[3] = g__03513160_037;
+R[4] = g__03513250_037;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513792_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513818_037);
 return;
 }
 }
@@ -1546,56 +1546,56 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj var = R[1];
-Obj ns = R[2];
-Obj _3513782_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3513782_37) {
-coraReturn(co, var);
+Obj v_var = R[1];
+Obj v_ns = R[2];
+Obj g__03513808_037 = PRIM_EQ(v_ns, makeString(co->gc, "", 0));
+if (True == g__03513808_037) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = var;
-R[2] = ns;
+R[1] = v_var;
+R[2] = v_ns;
 saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), v_var);
 return;
 }
 }
 case 1:
 {
-Obj _3513786_37= co->res;
+Obj g__03513812_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3513786_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513812_037);
 return;
 }
 case 2:
 {
-Obj _3513785_37= co->res;
-Obj ns = R[1];
+Obj g__03513811_037= co->res;
+Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), ns, _3513785_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), v_ns, g__03513811_037);
 return;
 }
 case 3:
 {
-Obj _3513784_37= co->res;
-Obj ns = R[1];
-R[1] = ns;
+Obj g__03513810_037= co->res;
+Obj v_ns = R[1];
+R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeCString(co->gc, "#"), _3513784_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeString(co->gc, "#", 1), g__03513810_037);
 return;
 }
 case 4:
 {
-Obj _3513783_37= co->res;
-Obj var = R[1];
-Obj ns = R[2];
-if (True == _3513783_37) {
-coraReturn(co, var);
+Obj g__03513809_037= co->res;
+Obj v_var = R[1];
+Obj v_ns = R[2];
+if (True == g__03513809_037) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = ns;
+R[1] = v_ns;
 saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v_var);
 return;
 }
 }
@@ -1606,37 +1606,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_sexp);
 return;
 }
 case 1:
 {
-Obj _3513764_37= co->res;
-Obj _3513222_37 = R[1];
+Obj g__03513790_037= co->res;
+Obj g__03513248_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3513764_37, makeNative(co->gc, 4, clofun78, 3, 1, _3513222_37));
+coraCall1(co, g__03513790_037, makeNative(co->gc, 4, clofun78, 3, 1, g__03513248_037));
 return;
 }
 case 2:
 {
-Obj _3513763_37= co->res;
-Obj _3513222_37 = R[1];
-R[1] = _3513222_37;
+Obj g__03513789_037= co->res;
+Obj g__03513248_037 = R[1];
+R[1] = g__03513248_037;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3513763_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), g__03513789_037);
 return;
 }
 case 3:
 {
-Obj _3513762_37= co->res;
-Obj sexp = R[1];
-Obj _3513222_37 = _3513762_37;
-R[1] = _3513222_37;
+Obj g__03513788_037= co->res;
+Obj v_sexp = R[1];
+Obj g__03513248_037 = g__03513788_037;
+R[1] = g__03513248_037;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_sexp);
 return;
 }
 }
@@ -1646,44 +1646,44 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj import = R[1];
-Obj export = R[2];
-Obj body = R[3];
-Obj _3513765_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
-R[1] = export;
-R[2] = body;
-R[3] = _3513765_37;
+Obj v_import = R[1];
+Obj v_export = R[2];
+Obj v_body = R[3];
+Obj g__03513791_037 = makeCons(co->gc, makeString(co->gc, "cora/init", 9), v_import);
+R[1] = v_export;
+R[2] = v_body;
+R[3] = g__03513791_037;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun77, 1, 0), import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj _3513775_37= co->res;
-Obj _3513765_37 = R[1];
-Obj _3513776_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3513775_37);
-Obj _3513777_37 = makeCons(co->gc, _3513776_37, Nil);
-Obj _3513778_37 = makeCons(co->gc, _3513765_37, _3513777_37);
-Obj _3513779_37 = makeCons(co->gc, closureRef(R[0], 0), _3513778_37);
-Obj _3513780_37 = makeCons(co->gc, getBinding(co, packageID, 80).name, _3513779_37);
-coraReturn(co, _3513780_37);
+Obj g__03513801_037= co->res;
+Obj g__03513791_037 = R[1];
+Obj g__03513802_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03513801_037);
+Obj g__03513803_037 = makeCons(co->gc, g__03513802_037, Nil);
+Obj g__03513804_037 = makeCons(co->gc, g__03513791_037, g__03513803_037);
+Obj g__03513805_037 = makeCons(co->gc, closureRef(R[0], 0), g__03513804_037);
+Obj g__03513806_037 = makeCons(co->gc, getBinding(co, packageID, 80).name, g__03513805_037);
+coraReturn(co, g__03513806_037);
 return;
 }
 case 2:
 {
-Obj _3513768_37= co->res;
-Obj export = R[1];
-Obj body = R[2];
-Obj _3513765_37 = R[3];
-Obj _3513769_37 = makeCons(co->gc, export, Nil);
-Obj _3513770_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3513769_37);
-Obj _3513771_37 = makeCons(co->gc, _3513770_37, Nil);
-Obj _3513772_37 = makeCons(co->gc, getBinding(co, packageID, 79).name, _3513771_37);
-Obj _3513773_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3513772_37);
-Obj _3513774_37 = makeCons(co->gc, _3513773_37, body);
-R[1] = _3513765_37;
+Obj g__03513794_037= co->res;
+Obj v_export = R[1];
+Obj v_body = R[2];
+Obj g__03513791_037 = R[3];
+Obj g__03513795_037 = makeCons(co->gc, v_export, Nil);
+Obj g__03513796_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03513795_037);
+Obj g__03513797_037 = makeCons(co->gc, g__03513796_037, Nil);
+Obj g__03513798_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03513797_037);
+Obj g__03513799_037 = makeCons(co->gc, getBinding(co, packageID, 134).name, g__03513798_037);
+Obj g__03513800_037 = makeCons(co->gc, g__03513799_037, v_body);
+R[1] = g__03513791_037;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3513768_37, _3513774_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513794_037, g__03513800_037);
 return;
 }
 }
@@ -1693,10 +1693,10 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj imp = R[1];
-Obj _3513766_37 = makeCons(co->gc, imp, Nil);
-Obj _3513767_37 = makeCons(co->gc, getBinding(co, packageID, 83).name, _3513766_37);
-coraReturn(co, _3513767_37);
+Obj v_imp = R[1];
+Obj g__03513792_037 = makeCons(co->gc, v_imp, Nil);
+Obj g__03513793_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03513792_037);
+coraReturn(co, g__03513793_037);
 return;
 }
 }
@@ -1706,10 +1706,10 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj data = R[1];
-Obj k = R[2];
+Obj v_data = R[1];
+Obj v_k = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), data, Nil, Nil, k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), v_data, Nil, Nil, v_k);
 return;
 }
 }
@@ -1719,62 +1719,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513126_37 = R[1];
-Obj _3513127_37 = R[2];
-Obj _3513128_37 = R[3];
-Obj _3513129_37 = R[4];
-Obj _3513216_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3513128_37, _3513126_37, _3513127_37, _3513129_37);
-Obj _3513742_37 = PRIM_ISCONS(_3513126_37);
-if (True == _3513742_37) {
-Obj _3513743_37 = PRIM_CAR(_3513126_37);
-Obj _3513744_37 = PRIM_ISCONS(_3513743_37);
-if (True == _3513744_37) {
-Obj _3513745_37 = PRIM_CAR(_3513126_37);
-Obj _3513746_37 = PRIM_CAR(_3513745_37);
-Obj _3513747_37 = PRIM_EQ(getBinding(co, packageID, 83).name, _3513746_37);
-if (True == _3513747_37) {
-Obj _3513748_37 = PRIM_CAR(_3513126_37);
-Obj _3513749_37 = PRIM_CDR(_3513748_37);
-Obj _3513750_37 = PRIM_ISCONS(_3513749_37);
-if (True == _3513750_37) {
-Obj _3513751_37 = PRIM_CAR(_3513126_37);
-Obj _3513752_37 = PRIM_CDR(_3513751_37);
-Obj _3513753_37 = PRIM_CAR(_3513752_37);
-Obj _3513220_37 = _3513753_37;
-Obj _3513754_37 = PRIM_CAR(_3513126_37);
-Obj _3513755_37 = PRIM_CDR(_3513754_37);
-Obj _3513756_37 = PRIM_CDR(_3513755_37);
-Obj _3513757_37 = PRIM_EQ(Nil, _3513756_37);
-if (True == _3513757_37) {
-Obj _3513758_37 = PRIM_CDR(_3513126_37);
-Obj _3513221_37 = _3513758_37;
-Obj _3513759_37 = makeCons(co->gc, _3513220_37, _3513127_37);
+Obj g__03513152_037 = R[1];
+Obj g__03513153_037 = R[2];
+Obj g__03513154_037 = R[3];
+Obj g__03513155_037 = R[4];
+Obj g__03513242_037 = makeNative(co->gc, 1, clofun74, 0, 4, g__03513154_037, g__03513152_037, g__03513153_037, g__03513155_037);
+Obj g__03513768_037 = PRIM_ISCONS(g__03513152_037);
+if (True == g__03513768_037) {
+Obj g__03513769_037 = PRIM_CAR(g__03513152_037);
+Obj g__03513770_037 = PRIM_ISCONS(g__03513769_037);
+if (True == g__03513770_037) {
+Obj g__03513771_037 = PRIM_CAR(g__03513152_037);
+Obj g__03513772_037 = PRIM_CAR(g__03513771_037);
+Obj g__03513773_037 = PRIM_EQ(getBinding(co, packageID, 83).name, g__03513772_037);
+if (True == g__03513773_037) {
+Obj g__03513774_037 = PRIM_CAR(g__03513152_037);
+Obj g__03513775_037 = PRIM_CDR(g__03513774_037);
+Obj g__03513776_037 = PRIM_ISCONS(g__03513775_037);
+if (True == g__03513776_037) {
+Obj g__03513777_037 = PRIM_CAR(g__03513152_037);
+Obj g__03513778_037 = PRIM_CDR(g__03513777_037);
+Obj g__03513779_037 = PRIM_CAR(g__03513778_037);
+Obj g__03513246_037 = g__03513779_037;
+Obj g__03513780_037 = PRIM_CAR(g__03513152_037);
+Obj g__03513781_037 = PRIM_CDR(g__03513780_037);
+Obj g__03513782_037 = PRIM_CDR(g__03513781_037);
+Obj g__03513783_037 = PRIM_EQ(Nil, g__03513782_037);
+if (True == g__03513783_037) {
+Obj g__03513784_037 = PRIM_CDR(g__03513152_037);
+Obj g__03513247_037 = g__03513784_037;
+Obj g__03513785_037 = makeCons(co->gc, g__03513246_037, g__03513153_037);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), _3513221_37, _3513759_37, _3513128_37, _3513129_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), g__03513247_037, g__03513785_037, g__03513154_037, g__03513155_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513216_37);
+coraCall0(co, g__03513242_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513216_37);
+coraCall0(co, g__03513242_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513216_37);
+coraCall0(co, g__03513242_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513216_37);
+coraCall0(co, g__03513242_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513216_37);
+coraCall0(co, g__03513242_037);
 return;
 }
 }
@@ -1785,37 +1785,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513217_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513733_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513733_37) {
-Obj _3513734_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513735_37 = PRIM_ISCONS(_3513734_37);
-if (True == _3513735_37) {
-Obj _3513736_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513737_37 = PRIM_CAR(_3513736_37);
-Obj _3513738_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3513737_37);
-if (True == _3513738_37) {
-Obj _3513739_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513740_37 = PRIM_CDR(_3513739_37);
-Obj _3513218_37 = _3513740_37;
-Obj _3513741_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3513219_37 = _3513741_37;
+Obj g__03513243_037 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03513759_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03513759_037) {
+Obj g__03513760_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513761_037 = PRIM_ISCONS(g__03513760_037);
+if (True == g__03513761_037) {
+Obj g__03513762_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513763_037 = PRIM_CAR(g__03513762_037);
+Obj g__03513764_037 = PRIM_EQ(getBinding(co, packageID, 84).name, g__03513763_037);
+if (True == g__03513764_037) {
+Obj g__03513765_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513766_037 = PRIM_CDR(g__03513765_037);
+Obj g__03513244_037 = g__03513766_037;
+Obj g__03513767_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03513245_037 = g__03513767_037;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), _3513219_37, closureRef(R[0], 2), _3513218_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), g__03513245_037, closureRef(R[0], 2), g__03513244_037, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513217_37);
+coraCall0(co, g__03513243_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513217_37);
+coraCall0(co, g__03513243_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513217_37);
+coraCall0(co, g__03513243_037);
 return;
 }
 }
@@ -1832,9 +1832,9 @@ return;
 }
 case 1:
 {
-Obj _3513732_37= co->res;
+Obj g__03513758_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3513732_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), g__03513758_037, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1844,27 +1844,27 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513730_37= co->res;
-Obj _3513729_37 = R[1];
+Obj g__03513756_037= co->res;
+Obj g__03513755_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), _3513729_37, _3513730_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), g__03513755_037, g__03513756_037);
 return;
 }
 case 2:
 {
-Obj _3513729_37= co->res;
-Obj exp = R[1];
-R[1] = _3513729_37;
+Obj g__03513755_037= co->res;
+Obj v_exp = R[1];
+R[1] = g__03513755_037;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 }
@@ -1874,67 +1874,67 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj arglist = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v_fn = R[1];
+Obj v_arglist = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_arglist);
 return;
 }
 case 1:
 {
-Obj _3513718_37= co->res;
-Obj _3513717_37 = R[1];
-Obj fn = R[2];
-Obj _3513719_37 = makeCons(co->gc, _3513718_37, Nil);
-Obj _3513720_37 = makeCons(co->gc, _3513717_37, _3513719_37);
-Obj _3513721_37 = makeCons(co->gc, fn, _3513720_37);
-coraReturn(co, _3513721_37);
+Obj g__03513744_037= co->res;
+Obj g__03513743_037 = R[1];
+Obj v_fn = R[2];
+Obj g__03513745_037 = makeCons(co->gc, g__03513744_037, Nil);
+Obj g__03513746_037 = makeCons(co->gc, g__03513743_037, g__03513745_037);
+Obj g__03513747_037 = makeCons(co->gc, v_fn, g__03513746_037);
+coraReturn(co, g__03513747_037);
 return;
 }
 case 2:
 {
-Obj _3513724_37= co->res;
-Obj _3513722_37 = R[1];
-Obj fn = R[2];
-Obj _3513725_37 = makeCons(co->gc, _3513724_37, Nil);
-Obj _3513726_37 = makeCons(co->gc, _3513722_37, _3513725_37);
-Obj _3513727_37 = makeCons(co->gc, fn, _3513726_37);
-coraReturn(co, _3513727_37);
+Obj g__03513750_037= co->res;
+Obj g__03513748_037 = R[1];
+Obj v_fn = R[2];
+Obj g__03513751_037 = makeCons(co->gc, g__03513750_037, Nil);
+Obj g__03513752_037 = makeCons(co->gc, g__03513748_037, g__03513751_037);
+Obj g__03513753_037 = makeCons(co->gc, v_fn, g__03513752_037);
+coraReturn(co, g__03513753_037);
 return;
 }
 case 3:
 {
-Obj _3513716_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-if (True == _3513716_37) {
-Obj _3513717_37 = PRIM_CAR(arglist);
-R[1] = _3513717_37;
-R[2] = fn;
+Obj g__03513742_037= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+if (True == g__03513742_037) {
+Obj g__03513743_037 = PRIM_CAR(v_arglist);
+R[1] = g__03513743_037;
+R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_arglist);
 return;
 } else {
-Obj _3513722_37 = PRIM_CAR(arglist);
-Obj _3513723_37 = PRIM_CDR(arglist);
-R[1] = _3513722_37;
-R[2] = fn;
+Obj g__03513748_037 = PRIM_CAR(v_arglist);
+Obj g__03513749_037 = PRIM_CDR(v_arglist);
+R[1] = g__03513748_037;
+R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), fn, _3513723_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_fn, g__03513749_037);
 return;
 }
 }
 case 4:
 {
-Obj _3513715_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj g__03513741_037= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513715_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513741_037);
 return;
 }
 }
@@ -1944,16 +1944,16 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513713_37= co->res;
+Obj g__03513739_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), _3513713_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), g__03513739_037);
 return;
 }
 }
@@ -1963,50 +1963,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513121_37 = R[1];
-Obj _3513693_37 = primIsSymbol(_3513121_37);
-if (True == _3513693_37) {
-Obj _3513694_37 = makeCons(co->gc, _3513121_37, Nil);
-Obj _3513695_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513694_37);
-coraReturn(co, _3513695_37);
+Obj g__03513147_037 = R[1];
+Obj g__03513719_037 = primIsSymbol(g__03513147_037);
+if (True == g__03513719_037) {
+Obj g__03513720_037 = makeCons(co->gc, g__03513147_037, Nil);
+Obj g__03513721_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513720_037);
+coraReturn(co, g__03513721_037);
 return;
 } else {
-Obj _3513212_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3513121_37);
-Obj _3513702_37 = PRIM_ISCONS(_3513121_37);
-if (True == _3513702_37) {
-Obj _3513703_37 = PRIM_CAR(_3513121_37);
-Obj _3513704_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3513703_37);
-if (True == _3513704_37) {
-Obj _3513705_37 = PRIM_CDR(_3513121_37);
-Obj _3513706_37 = PRIM_ISCONS(_3513705_37);
-if (True == _3513706_37) {
-Obj _3513707_37 = PRIM_CDR(_3513121_37);
-Obj _3513708_37 = PRIM_CAR(_3513707_37);
-Obj _3513215_37 = _3513708_37;
-Obj _3513709_37 = PRIM_CDR(_3513121_37);
-Obj _3513710_37 = PRIM_CDR(_3513709_37);
-Obj _3513711_37 = PRIM_EQ(Nil, _3513710_37);
-if (True == _3513711_37) {
-coraReturn(co, _3513215_37);
+Obj g__03513238_037 = makeNative(co->gc, 1, clofun68, 0, 1, g__03513147_037);
+Obj g__03513728_037 = PRIM_ISCONS(g__03513147_037);
+if (True == g__03513728_037) {
+Obj g__03513729_037 = PRIM_CAR(g__03513147_037);
+Obj g__03513730_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03513729_037);
+if (True == g__03513730_037) {
+Obj g__03513731_037 = PRIM_CDR(g__03513147_037);
+Obj g__03513732_037 = PRIM_ISCONS(g__03513731_037);
+if (True == g__03513732_037) {
+Obj g__03513733_037 = PRIM_CDR(g__03513147_037);
+Obj g__03513734_037 = PRIM_CAR(g__03513733_037);
+Obj g__03513241_037 = g__03513734_037;
+Obj g__03513735_037 = PRIM_CDR(g__03513147_037);
+Obj g__03513736_037 = PRIM_CDR(g__03513735_037);
+Obj g__03513737_037 = PRIM_EQ(Nil, g__03513736_037);
+if (True == g__03513737_037) {
+coraReturn(co, g__03513241_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513212_37);
+coraCall0(co, g__03513238_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513212_37);
+coraCall0(co, g__03513238_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513212_37);
+coraCall0(co, g__03513238_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513212_37);
+coraCall0(co, g__03513238_037);
 return;
 }
 }
@@ -2018,15 +2018,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513696_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513696_37) {
-Obj _3513697_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513213_37 = _3513697_37;
-Obj _3513698_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513214_37 = _3513698_37;
-Obj _3513699_37 = makeCons(co->gc, _3513213_37, _3513214_37);
+Obj g__03513722_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513722_037) {
+Obj g__03513723_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513239_037 = g__03513723_037;
+Obj g__03513724_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513240_037 = g__03513724_037;
+Obj g__03513725_037 = makeCons(co->gc, g__03513239_037, g__03513240_037);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), _3513699_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), g__03513725_037);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2035,9 +2035,9 @@ return;
 }
 case 1:
 {
-Obj _3513700_37= co->res;
-Obj _3513701_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513700_37);
-coraReturn(co, _3513701_37);
+Obj g__03513726_037= co->res;
+Obj g__03513727_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513726_037);
+coraReturn(co, g__03513727_037);
 return;
 }
 }
@@ -2047,10 +2047,10 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513691_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj g__03513717_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3513691_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03513717_037);
 return;
 }
 }
@@ -2060,25 +2060,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513117_37 = R[1];
-Obj _3513205_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3513117_37);
-Obj _3513686_37 = PRIM_ISCONS(_3513117_37);
-if (True == _3513686_37) {
-Obj _3513687_37 = PRIM_CAR(_3513117_37);
-Obj _3513211_37 = _3513687_37;
-Obj _3513688_37 = PRIM_CDR(_3513117_37);
-Obj _3513689_37 = PRIM_EQ(Nil, _3513688_37);
-if (True == _3513689_37) {
-coraReturn(co, _3513211_37);
+Obj g__03513143_037 = R[1];
+Obj g__03513231_037 = makeNative(co->gc, 1, clofun65, 0, 1, g__03513143_037);
+Obj g__03513712_037 = PRIM_ISCONS(g__03513143_037);
+if (True == g__03513712_037) {
+Obj g__03513713_037 = PRIM_CAR(g__03513143_037);
+Obj g__03513237_037 = g__03513713_037;
+Obj g__03513714_037 = PRIM_CDR(g__03513143_037);
+Obj g__03513715_037 = PRIM_EQ(Nil, g__03513714_037);
+if (True == g__03513715_037) {
+coraReturn(co, g__03513237_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513205_37);
+coraCall0(co, g__03513231_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513205_37);
+coraCall0(co, g__03513231_037);
 return;
 }
 }
@@ -2089,39 +2089,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513206_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3513674_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513674_37) {
-Obj _3513675_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513209_37 = _3513675_37;
-Obj _3513676_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513677_37 = PRIM_ISCONS(_3513676_37);
-if (True == _3513677_37) {
-Obj _3513678_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513679_37 = PRIM_CAR(_3513678_37);
-Obj _3513210_37 = _3513679_37;
-Obj _3513680_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513681_37 = PRIM_CDR(_3513680_37);
-Obj _3513682_37 = PRIM_EQ(Nil, _3513681_37);
-if (True == _3513682_37) {
-Obj _3513683_37 = makeCons(co->gc, _3513210_37, Nil);
-Obj _3513684_37 = makeCons(co->gc, _3513209_37, _3513683_37);
-Obj _3513685_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3513684_37);
-coraReturn(co, _3513685_37);
+Obj g__03513232_037 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj g__03513700_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513700_037) {
+Obj g__03513701_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513235_037 = g__03513701_037;
+Obj g__03513702_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513703_037 = PRIM_ISCONS(g__03513702_037);
+if (True == g__03513703_037) {
+Obj g__03513704_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513705_037 = PRIM_CAR(g__03513704_037);
+Obj g__03513236_037 = g__03513705_037;
+Obj g__03513706_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513707_037 = PRIM_CDR(g__03513706_037);
+Obj g__03513708_037 = PRIM_EQ(Nil, g__03513707_037);
+if (True == g__03513708_037) {
+Obj g__03513709_037 = makeCons(co->gc, g__03513236_037, Nil);
+Obj g__03513710_037 = makeCons(co->gc, g__03513235_037, g__03513709_037);
+Obj g__03513711_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03513710_037);
+coraReturn(co, g__03513711_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513206_37);
+coraCall0(co, g__03513232_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513206_37);
+coraCall0(co, g__03513232_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513206_37);
+coraCall0(co, g__03513232_037);
 return;
 }
 }
@@ -2132,30 +2132,30 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513667_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513667_37) {
-Obj _3513668_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513207_37 = _3513668_37;
-Obj _3513669_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513208_37 = _3513669_37;
-R[1] = _3513207_37;
+Obj g__03513693_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513693_037) {
+Obj g__03513694_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513233_037 = g__03513694_037;
+Obj g__03513695_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513234_037 = g__03513695_037;
+R[1] = g__03513233_037;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), _3513208_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03513234_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3513670_37= co->res;
-Obj _3513207_37 = R[1];
-Obj _3513671_37 = makeCons(co->gc, _3513670_37, Nil);
-Obj _3513672_37 = makeCons(co->gc, _3513207_37, _3513671_37);
-Obj _3513673_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, _3513672_37);
-coraReturn(co, _3513673_37);
+Obj g__03513696_037= co->res;
+Obj g__03513233_037 = R[1];
+Obj g__03513697_037 = makeCons(co->gc, g__03513696_037, Nil);
+Obj g__03513698_037 = makeCons(co->gc, g__03513233_037, g__03513697_037);
+Obj g__03513699_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03513698_037);
+coraReturn(co, g__03513699_037);
 return;
 }
 }
@@ -2165,23 +2165,23 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513665_37= co->res;
+Obj g__03513691_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3513665_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), g__03513691_037);
 return;
 }
 case 2:
 {
-Obj _3513664_37= co->res;
+Obj g__03513690_037= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3513664_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), g__03513690_037);
 return;
 }
 }
@@ -2191,8 +2191,8 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-coraReturn(co, x);
+Obj v_x = R[1];
+coraReturn(co, v_x);
 return;
 }
 }
@@ -2202,9 +2202,9 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), Nil, makeCString(co->gc, ""), Nil, exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), Nil, makeString(co->gc, "", 0), Nil, v_exp);
 return;
 }
 }
@@ -2214,69 +2214,69 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513653_37= co->res;
-Obj _3513202_37 = R[1];
-Obj _3513204_37 = R[2];
-Obj _3513654_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513204_37);
-Obj _3513655_37 = makeCons(co->gc, _3513654_37, _3513202_37);
-Obj _3513656_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3513655_37);
-Obj _3513657_37 = makeCons(co->gc, _3513656_37, Nil);
-Obj _3513658_37 = makeCons(co->gc, _3513204_37, _3513657_37);
-Obj _3513659_37 = makeCons(co->gc, _3513653_37, _3513658_37);
-Obj _3513660_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513659_37);
-coraReturn(co, _3513660_37);
+Obj g__03513679_037= co->res;
+Obj g__03513228_037 = R[1];
+Obj g__03513230_037 = R[2];
+Obj g__03513680_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513230_037);
+Obj g__03513681_037 = makeCons(co->gc, g__03513680_037, g__03513228_037);
+Obj g__03513682_037 = makeCons(co->gc, getBinding(co, packageID, 109).name, g__03513681_037);
+Obj g__03513683_037 = makeCons(co->gc, g__03513682_037, Nil);
+Obj g__03513684_037 = makeCons(co->gc, g__03513230_037, g__03513683_037);
+Obj g__03513685_037 = makeCons(co->gc, g__03513679_037, g__03513684_037);
+Obj g__03513686_037 = makeCons(co->gc, getBinding(co, packageID, 135).name, g__03513685_037);
+coraReturn(co, g__03513686_037);
 return;
 }
 case 2:
 {
-Obj _3513652_37= co->res;
-Obj exp = R[1];
-Obj _3513202_37 = R[2];
-Obj _3513204_37 = _3513652_37;
-R[1] = _3513202_37;
-R[2] = _3513204_37;
+Obj g__03513678_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513228_037 = R[2];
+Obj g__03513230_037 = g__03513678_037;
+R[1] = g__03513228_037;
+R[2] = g__03513230_037;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513651_37= co->res;
-Obj exp = R[1];
-Obj _3513202_37 = R[2];
-Obj _3513203_37 = _3513651_37;
-R[1] = exp;
-R[2] = _3513202_37;
+Obj g__03513677_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513228_037 = R[2];
+Obj g__03513229_037 = g__03513677_037;
+R[1] = v_exp;
+R[2] = g__03513228_037;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), _3513203_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), g__03513229_037);
 return;
 }
 case 4:
 {
-Obj _3513650_37= co->res;
-Obj exp = R[1];
-Obj _3513202_37 = _3513650_37;
-R[1] = exp;
-R[2] = _3513202_37;
+Obj g__03513676_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513228_037 = g__03513676_037;
+R[1] = v_exp;
+R[2] = g__03513228_037;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3513202_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), g__03513228_037);
 return;
 }
 case 5:
 {
-Obj _3513649_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj g__03513675_037= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), _3513649_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), g__03513675_037);
 return;
 }
 }
@@ -2286,26 +2286,26 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj _3513643_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3513643_37) {
+Obj v_n = R[1];
+Obj g__03513669_037 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == g__03513669_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3513644_37 = primGenSym(co);
-Obj _3513645_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3513644_37;
+Obj g__03513670_037 = primGenSym(co);
+Obj g__03513671_037 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = g__03513670_037;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), _3513645_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), g__03513671_037);
 return;
 }
 }
 case 1:
 {
-Obj _3513646_37= co->res;
-Obj _3513644_37 = R[1];
-Obj _3513647_37 = makeCons(co->gc, _3513644_37, _3513646_37);
-coraReturn(co, _3513647_37);
+Obj g__03513672_037= co->res;
+Obj g__03513670_037 = R[1];
+Obj g__03513673_037 = makeCons(co->gc, g__03513670_037, g__03513672_037);
+coraReturn(co, g__03513673_037);
 return;
 }
 }
@@ -2315,52 +2315,52 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
+Obj v_rules = R[1];
 saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), Nil, rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), Nil, v_rules);
 return;
 }
 case 1:
 {
-Obj _3513640_37= co->res;
-Obj _3513201_37 = R[1];
-Obj _3513641_37 = primNot(_3513640_37);
-if (True == _3513641_37) {
+Obj g__03513666_037= co->res;
+Obj g__03513227_037 = R[1];
+Obj g__03513667_037 = primNot(g__03513666_037);
+if (True == g__03513667_037) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "inconsistent func rule args count", 33));
 return;
 } else {
-coraReturn(co, _3513201_37);
+coraReturn(co, g__03513227_037);
 return;
 }
 }
 case 2:
 {
-Obj _3513639_37= co->res;
-Obj _3513201_37 = R[1];
-R[1] = _3513201_37;
+Obj g__03513665_037= co->res;
+Obj g__03513227_037 = R[1];
+R[1] = g__03513227_037;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513639_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513665_037);
 return;
 }
 case 3:
 {
-Obj _3513634_37= co->res;
-Obj _3513200_37 = _3513634_37;
-Obj _3513635_37 = PRIM_CAR(_3513200_37);
-Obj _3513201_37 = _3513635_37;
-Obj _3513638_37 = PRIM_CDR(_3513200_37);
-R[1] = _3513201_37;
+Obj g__03513660_037= co->res;
+Obj g__03513226_037 = g__03513660_037;
+Obj g__03513661_037 = PRIM_CAR(g__03513226_037);
+Obj g__03513227_037 = g__03513661_037;
+Obj g__03513664_037 = PRIM_CDR(g__03513226_037);
+R[1] = g__03513227_037;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, _3513201_37), _3513638_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, g__03513227_037), g__03513664_037);
 return;
 }
 case 4:
 {
-Obj _3513632_37= co->res;
-Obj _3513199_37 = _3513632_37;
+Obj g__03513658_037= co->res;
+Obj g__03513225_037 = g__03513658_037;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), _3513199_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), g__03513225_037);
 return;
 }
 }
@@ -2370,10 +2370,10 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513636_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3513637_37 = primNot(_3513636_37);
-coraReturn(co, _3513637_37);
+Obj v_x = R[1];
+Obj g__03513662_037 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj g__03513663_037 = primNot(g__03513662_037);
+coraReturn(co, g__03513663_037);
 return;
 }
 }
@@ -2383,10 +2383,10 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513633_37 = PRIM_CDR(x);
+Obj v_x = R[1];
+Obj g__03513659_037 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3513633_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), g__03513659_037);
 return;
 }
 }
@@ -2396,27 +2396,27 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l1 = R[1];
-Obj l2 = R[2];
-Obj _3513626_37 = PRIM_EQ(l1, Nil);
-if (True == _3513626_37) {
-coraReturn(co, l2);
+Obj v_l1 = R[1];
+Obj v_l2 = R[2];
+Obj g__03513652_037 = PRIM_EQ(v_l1, Nil);
+if (True == g__03513652_037) {
+coraReturn(co, v_l2);
 return;
 } else {
-Obj _3513627_37 = PRIM_CAR(l1);
-Obj _3513628_37 = PRIM_CDR(l1);
-R[1] = _3513627_37;
+Obj g__03513653_037 = PRIM_CAR(v_l1);
+Obj g__03513654_037 = PRIM_CDR(v_l1);
+R[1] = g__03513653_037;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), _3513628_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513654_037, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj _3513629_37= co->res;
-Obj _3513627_37 = R[1];
-Obj _3513630_37 = makeCons(co->gc, _3513627_37, _3513629_37);
-coraReturn(co, _3513630_37);
+Obj g__03513655_037= co->res;
+Obj g__03513653_037 = R[1];
+Obj g__03513656_037 = makeCons(co->gc, g__03513653_037, g__03513655_037);
+coraReturn(co, g__03513656_037);
 return;
 }
 }
@@ -2426,10 +2426,10 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj l = R[2];
+Obj v_fn = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), Nil, fn, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), Nil, v_fn, v_l);
 return;
 }
 }
@@ -2439,41 +2439,41 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj fn = R[2];
-Obj l = R[3];
-Obj _3513617_37 = PRIM_ISCONS(l);
-if (True == _3513617_37) {
-Obj _3513618_37 = PRIM_CAR(l);
-R[1] = l;
-R[2] = res;
-R[3] = fn;
+Obj v_res = R[1];
+Obj v_fn = R[2];
+Obj v_l = R[3];
+Obj g__03513643_037 = PRIM_ISCONS(v_l);
+if (True == g__03513643_037) {
+Obj g__03513644_037 = PRIM_CAR(v_l);
+R[1] = v_l;
+R[2] = v_res;
+R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3513618_37);
+coraCall1(co, v_fn, g__03513644_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3513619_37= co->res;
-Obj l = R[1];
-Obj res = R[2];
-Obj fn = R[3];
-if (True == _3513619_37) {
-Obj _3513620_37 = PRIM_CAR(l);
-Obj _3513621_37 = makeCons(co->gc, _3513620_37, res);
-Obj _3513622_37 = PRIM_CDR(l);
+Obj g__03513645_037= co->res;
+Obj v_l = R[1];
+Obj v_res = R[2];
+Obj v_fn = R[3];
+if (True == g__03513645_037) {
+Obj g__03513646_037 = PRIM_CAR(v_l);
+Obj g__03513647_037 = makeCons(co->gc, g__03513646_037, v_res);
+Obj g__03513648_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), _3513621_37, fn, _3513622_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), g__03513647_037, v_fn, g__03513648_037);
 return;
 } else {
-Obj _3513623_37 = PRIM_CDR(l);
+Obj g__03513649_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), res, fn, _3513623_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), v_res, v_fn, g__03513649_037);
 return;
 }
 }
@@ -2484,9 +2484,9 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), MAKE_NUMBER(0), l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), MAKE_NUMBER(0), v_l);
 return;
 }
 }
@@ -2496,17 +2496,17 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj i = R[1];
-Obj l = R[2];
-Obj _3513612_37 = PRIM_EQ(l, Nil);
-if (True == _3513612_37) {
-coraReturn(co, i);
+Obj v_i = R[1];
+Obj v_l = R[2];
+Obj g__03513638_037 = PRIM_EQ(v_l, Nil);
+if (True == g__03513638_037) {
+coraReturn(co, v_i);
 return;
 } else {
-Obj _3513613_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3513614_37 = PRIM_CDR(l);
+Obj g__03513639_037 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj g__03513640_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), _3513613_37, _3513614_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), g__03513639_037, g__03513640_037);
 return;
 }
 }
@@ -2517,37 +2517,37 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj rules = R[2];
-R[1] = res;
-R[2] = rules;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+R[1] = v_res;
+R[2] = v_rules;
 saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3513610_37= co->res;
-Obj _3513609_37 = R[1];
+Obj g__03513636_037= co->res;
+Obj g__03513635_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), _3513609_37, _3513610_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), g__03513635_037, g__03513636_037);
 return;
 }
 case 2:
 {
-Obj _3513607_37= co->res;
-Obj res = R[1];
-Obj rules = R[2];
-if (True == _3513607_37) {
+Obj g__03513633_037= co->res;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+if (True == g__03513633_037) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 } else {
-Obj _3513608_37 = PRIM_CAR(rules);
-Obj _3513609_37 = makeCons(co->gc, _3513608_37, res);
-R[1] = _3513609_37;
+Obj g__03513634_037 = PRIM_CAR(v_rules);
+Obj g__03513635_037 = makeCons(co->gc, g__03513634_037, v_res);
+R[1] = g__03513635_037;
 saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_rules);
 return;
 }
 }
@@ -2558,9 +2558,9 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
+Obj v_input = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), v_input, Nil, Nil);
 return;
 }
 }
@@ -2570,106 +2570,106 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
-Obj current = R[2];
-Obj result = R[3];
-Obj _3513554_37 = PRIM_EQ(Nil, input);
-if (True == _3513554_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), result);
-return;
-} else {
-Obj _3513188_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3513572_37 = PRIM_ISCONS(input);
-if (True == _3513572_37) {
-Obj _3513573_37 = PRIM_CAR(input);
-Obj _3513574_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3513573_37);
-if (True == _3513574_37) {
-Obj _3513575_37 = PRIM_CDR(input);
-Obj _3513576_37 = PRIM_ISCONS(_3513575_37);
-if (True == _3513576_37) {
-Obj _3513577_37 = PRIM_CDR(input);
-Obj _3513578_37 = PRIM_CAR(_3513577_37);
-Obj _3513195_37 = _3513578_37;
-Obj _3513579_37 = PRIM_CDR(input);
-Obj _3513580_37 = PRIM_CDR(_3513579_37);
-Obj _3513581_37 = PRIM_ISCONS(_3513580_37);
-if (True == _3513581_37) {
-Obj _3513582_37 = PRIM_CDR(input);
-Obj _3513583_37 = PRIM_CDR(_3513582_37);
-Obj _3513584_37 = PRIM_CAR(_3513583_37);
-Obj _3513585_37 = PRIM_EQ(getBinding(co, packageID, 112).name, _3513584_37);
-if (True == _3513585_37) {
-Obj _3513586_37 = PRIM_CDR(input);
-Obj _3513587_37 = PRIM_CDR(_3513586_37);
-Obj _3513588_37 = PRIM_CDR(_3513587_37);
-Obj _3513589_37 = PRIM_ISCONS(_3513588_37);
-if (True == _3513589_37) {
-Obj _3513590_37 = PRIM_CDR(input);
-Obj _3513591_37 = PRIM_CDR(_3513590_37);
-Obj _3513592_37 = PRIM_CDR(_3513591_37);
-Obj _3513593_37 = PRIM_CAR(_3513592_37);
-Obj _3513196_37 = _3513593_37;
-Obj _3513594_37 = PRIM_CDR(input);
-Obj _3513595_37 = PRIM_CDR(_3513594_37);
-Obj _3513596_37 = PRIM_CDR(_3513595_37);
-Obj _3513597_37 = PRIM_CDR(_3513596_37);
-Obj _3513197_37 = _3513597_37;
-R[1] = _3513195_37;
-R[2] = _3513196_37;
-R[3] = result;
-R[4] = _3513197_37;
+Obj v_input = R[1];
+Obj v_current = R[2];
+Obj v_result = R[3];
+Obj g__03513580_037 = PRIM_EQ(Nil, v_input);
+if (True == g__03513580_037) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_result);
+return;
+} else {
+Obj g__03513214_037 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj g__03513598_037 = PRIM_ISCONS(v_input);
+if (True == g__03513598_037) {
+Obj g__03513599_037 = PRIM_CAR(v_input);
+Obj g__03513600_037 = PRIM_EQ(getBinding(co, packageID, 107).name, g__03513599_037);
+if (True == g__03513600_037) {
+Obj g__03513601_037 = PRIM_CDR(v_input);
+Obj g__03513602_037 = PRIM_ISCONS(g__03513601_037);
+if (True == g__03513602_037) {
+Obj g__03513603_037 = PRIM_CDR(v_input);
+Obj g__03513604_037 = PRIM_CAR(g__03513603_037);
+Obj g__03513221_037 = g__03513604_037;
+Obj g__03513605_037 = PRIM_CDR(v_input);
+Obj g__03513606_037 = PRIM_CDR(g__03513605_037);
+Obj g__03513607_037 = PRIM_ISCONS(g__03513606_037);
+if (True == g__03513607_037) {
+Obj g__03513608_037 = PRIM_CDR(v_input);
+Obj g__03513609_037 = PRIM_CDR(g__03513608_037);
+Obj g__03513610_037 = PRIM_CAR(g__03513609_037);
+Obj g__03513611_037 = PRIM_EQ(getBinding(co, packageID, 112).name, g__03513610_037);
+if (True == g__03513611_037) {
+Obj g__03513612_037 = PRIM_CDR(v_input);
+Obj g__03513613_037 = PRIM_CDR(g__03513612_037);
+Obj g__03513614_037 = PRIM_CDR(g__03513613_037);
+Obj g__03513615_037 = PRIM_ISCONS(g__03513614_037);
+if (True == g__03513615_037) {
+Obj g__03513616_037 = PRIM_CDR(v_input);
+Obj g__03513617_037 = PRIM_CDR(g__03513616_037);
+Obj g__03513618_037 = PRIM_CDR(g__03513617_037);
+Obj g__03513619_037 = PRIM_CAR(g__03513618_037);
+Obj g__03513222_037 = g__03513619_037;
+Obj g__03513620_037 = PRIM_CDR(v_input);
+Obj g__03513621_037 = PRIM_CDR(g__03513620_037);
+Obj g__03513622_037 = PRIM_CDR(g__03513621_037);
+Obj g__03513623_037 = PRIM_CDR(g__03513622_037);
+Obj g__03513223_037 = g__03513623_037;
+R[1] = g__03513221_037;
+R[2] = g__03513222_037;
+R[3] = v_result;
+R[4] = g__03513223_037;
 saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513188_37);
+coraCall0(co, g__03513214_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513188_37);
+coraCall0(co, g__03513214_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513188_37);
+coraCall0(co, g__03513214_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513188_37);
+coraCall0(co, g__03513214_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513188_37);
+coraCall0(co, g__03513214_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513188_37);
+coraCall0(co, g__03513214_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513598_37= co->res;
-Obj _3513195_37 = R[1];
-Obj _3513196_37 = R[2];
-Obj result = R[3];
-Obj _3513197_37 = R[4];
-Obj _3513599_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513598_37);
-Obj _3513198_37 = _3513599_37;
-Obj _3513600_37 = makeCons(co->gc, _3513195_37, Nil);
-Obj _3513601_37 = makeCons(co->gc, _3513196_37, _3513600_37);
-Obj _3513602_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3513601_37);
-Obj _3513603_37 = makeCons(co->gc, _3513198_37, result);
-Obj _3513604_37 = makeCons(co->gc, _3513602_37, _3513603_37);
+Obj g__03513624_037= co->res;
+Obj g__03513221_037 = R[1];
+Obj g__03513222_037 = R[2];
+Obj v_result = R[3];
+Obj g__03513223_037 = R[4];
+Obj g__03513625_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513624_037);
+Obj g__03513224_037 = g__03513625_037;
+Obj g__03513626_037 = makeCons(co->gc, g__03513221_037, Nil);
+Obj g__03513627_037 = makeCons(co->gc, g__03513222_037, g__03513626_037);
+Obj g__03513628_037 = makeCons(co->gc, getBinding(co, packageID, 112).name, g__03513627_037);
+Obj g__03513629_037 = makeCons(co->gc, g__03513224_037, v_result);
+Obj g__03513630_037 = makeCons(co->gc, g__03513628_037, g__03513629_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), _3513197_37, Nil, _3513604_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513223_037, Nil, g__03513630_037);
 return;
 }
 }
@@ -2679,53 +2679,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513189_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513559_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513559_37) {
-Obj _3513560_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513561_37 = PRIM_EQ(getBinding(co, packageID, 107).name, _3513560_37);
-if (True == _3513561_37) {
-Obj _3513562_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513563_37 = PRIM_ISCONS(_3513562_37);
-if (True == _3513563_37) {
-Obj _3513564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513565_37 = PRIM_CAR(_3513564_37);
-Obj _3513192_37 = _3513565_37;
-Obj _3513566_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513567_37 = PRIM_CDR(_3513566_37);
-Obj _3513193_37 = _3513567_37;
-R[1] = _3513192_37;
-R[2] = _3513193_37;
+Obj g__03513215_037 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03513585_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513585_037) {
+Obj g__03513586_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513587_037 = PRIM_EQ(getBinding(co, packageID, 107).name, g__03513586_037);
+if (True == g__03513587_037) {
+Obj g__03513588_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513589_037 = PRIM_ISCONS(g__03513588_037);
+if (True == g__03513589_037) {
+Obj g__03513590_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513591_037 = PRIM_CAR(g__03513590_037);
+Obj g__03513218_037 = g__03513591_037;
+Obj g__03513592_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513593_037 = PRIM_CDR(g__03513592_037);
+Obj g__03513219_037 = g__03513593_037;
+R[1] = g__03513218_037;
+R[2] = g__03513219_037;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513189_37);
+coraCall0(co, g__03513215_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513189_37);
+coraCall0(co, g__03513215_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513189_37);
+coraCall0(co, g__03513215_037);
 return;
 }
 }
 case 1:
 {
-Obj _3513568_37= co->res;
-Obj _3513192_37 = R[1];
-Obj _3513193_37 = R[2];
-Obj _3513569_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, _3513568_37);
-Obj _3513194_37 = _3513569_37;
-Obj _3513570_37 = makeCons(co->gc, _3513194_37, closureRef(R[0], 2));
-Obj _3513571_37 = makeCons(co->gc, _3513192_37, _3513570_37);
+Obj g__03513594_037= co->res;
+Obj g__03513218_037 = R[1];
+Obj g__03513219_037 = R[2];
+Obj g__03513595_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513594_037);
+Obj g__03513220_037 = g__03513595_037;
+Obj g__03513596_037 = makeCons(co->gc, g__03513220_037, closureRef(R[0], 2));
+Obj g__03513597_037 = makeCons(co->gc, g__03513218_037, g__03513596_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), _3513193_37, Nil, _3513571_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513219_037, Nil, g__03513597_037);
 return;
 }
 }
@@ -2735,19 +2735,19 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513555_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513555_37) {
-Obj _3513556_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513190_37 = _3513556_37;
-Obj _3513557_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513191_37 = _3513557_37;
-Obj _3513558_37 = makeCons(co->gc, _3513190_37, closureRef(R[0], 1));
+Obj g__03513581_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513581_037) {
+Obj g__03513582_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513216_037 = g__03513582_037;
+Obj g__03513583_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513217_037 = g__03513583_037;
+Obj g__03513584_037 = makeCons(co->gc, g__03513216_037, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), _3513191_37, _3513558_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513217_037, g__03513584_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -2758,9 +2758,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 110)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 110)), v_exp);
 return;
 }
 }
@@ -2770,55 +2770,55 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513541_37= co->res;
-Obj _3513182_37 = R[1];
-Obj _3513183_37 = _3513541_37;
-Obj _3513186_37 = makeNative(co->gc, 2, clofun43, 1, 2, _3513182_37, _3513183_37);
-Obj _3513548_37 = PRIM_ISCONS(_3513182_37);
-if (True == _3513548_37) {
-Obj _3513549_37 = PRIM_CAR(_3513182_37);
-Obj _3513550_37 = PRIM_EQ(getBinding(co, packageID, 153).name, _3513549_37);
-Obj _3513551_37 = primNot(_3513550_37);
-if (True == _3513551_37) {
+Obj g__03513567_037= co->res;
+Obj g__03513208_037 = R[1];
+Obj g__03513209_037 = g__03513567_037;
+Obj g__03513212_037 = makeNative(co->gc, 2, clofun43, 1, 2, g__03513208_037, g__03513209_037);
+Obj g__03513574_037 = PRIM_ISCONS(g__03513208_037);
+if (True == g__03513574_037) {
+Obj g__03513575_037 = PRIM_CAR(g__03513208_037);
+Obj g__03513576_037 = PRIM_EQ(getBinding(co, packageID, 153).name, g__03513575_037);
+Obj g__03513577_037 = primNot(g__03513576_037);
+if (True == g__03513577_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513186_37, True);
+coraCall1(co, g__03513212_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513186_37, False);
+coraCall1(co, g__03513212_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513186_37, False);
+coraCall1(co, g__03513212_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513540_37= co->res;
-Obj exp = R[1];
-Obj _3513182_37 = _3513540_37;
-R[1] = _3513182_37;
+Obj g__03513566_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513208_037 = g__03513566_037;
+R[1] = g__03513208_037;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513539_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj g__03513565_037= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), _3513539_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), g__03513565_037);
 return;
 }
 }
@@ -2828,13 +2828,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513185_37 = R[1];
-if (True == _3513185_37) {
-Obj _3513542_37 = primGenSym(co);
-Obj _3513187_37 = _3513542_37;
-R[1] = _3513187_37;
+Obj g__03513211_037 = R[1];
+if (True == g__03513211_037) {
+Obj g__03513568_037 = primGenSym(co);
+Obj g__03513213_037 = g__03513568_037;
+R[1] = g__03513213_037;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), _3513187_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), g__03513213_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2844,13 +2844,13 @@ return;
 }
 case 1:
 {
-Obj _3513543_37= co->res;
-Obj _3513187_37 = R[1];
-Obj _3513544_37 = makeCons(co->gc, _3513543_37, Nil);
-Obj _3513545_37 = makeCons(co->gc, closureRef(R[0], 0), _3513544_37);
-Obj _3513546_37 = makeCons(co->gc, _3513187_37, _3513545_37);
-Obj _3513547_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513546_37);
-coraReturn(co, _3513547_37);
+Obj g__03513569_037= co->res;
+Obj g__03513213_037 = R[1];
+Obj g__03513570_037 = makeCons(co->gc, g__03513569_037, Nil);
+Obj g__03513571_037 = makeCons(co->gc, closureRef(R[0], 0), g__03513570_037);
+Obj g__03513572_037 = makeCons(co->gc, g__03513213_037, g__03513571_037);
+Obj g__03513573_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513572_037);
+coraReturn(co, g__03513573_037);
 return;
 }
 }
@@ -2860,61 +2860,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj value = R[1];
-Obj rules = R[2];
-R[1] = value;
-R[2] = rules;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+R[1] = v_value;
+R[2] = v_rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3513537_37= co->res;
-Obj _3513176_37 = R[1];
-if (True == _3513537_37) {
+Obj g__03513563_037= co->res;
+Obj g__03513202_037 = R[1];
+if (True == g__03513563_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513176_37, True);
+coraCall1(co, g__03513202_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513176_37, False);
+coraCall1(co, g__03513202_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513535_37= co->res;
-Obj rules = R[1];
-Obj _3513176_37 = R[2];
-if (True == _3513535_37) {
-Obj _3513536_37 = PRIM_CDR(rules);
-R[1] = _3513176_37;
+Obj g__03513561_037= co->res;
+Obj v_rules = R[1];
+Obj g__03513202_037 = R[2];
+if (True == g__03513561_037) {
+Obj g__03513562_037 = PRIM_CDR(v_rules);
+R[1] = g__03513202_037;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), _3513536_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), g__03513562_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513176_37, False);
+coraCall1(co, g__03513202_037, False);
 return;
 }
 }
 case 3:
 {
-Obj _3513517_37= co->res;
-Obj value = R[1];
-Obj rules = R[2];
-if (True == _3513517_37) {
-Obj _3513518_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3513519_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513518_37);
-coraReturn(co, _3513519_37);
+Obj g__03513543_037= co->res;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+if (True == g__03513543_037) {
+Obj g__03513544_037 = makeCons(co->gc, makeString(co->gc, "no match-help found!", 20), Nil);
+Obj g__03513545_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03513544_037);
+coraReturn(co, g__03513545_037);
 return;
 } else {
-Obj _3513176_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
-R[1] = rules;
-R[2] = _3513176_37;
+Obj g__03513202_037 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+R[1] = v_rules;
+R[2] = g__03513202_037;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_rules);
 return;
 }
 }
@@ -2925,72 +2925,72 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513175_37 = R[1];
-if (True == _3513175_37) {
-Obj _3513520_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513177_37 = _3513520_37;
-Obj _3513521_37 = primGenSym(co);
-Obj _3513178_37 = _3513521_37;
-R[1] = _3513177_37;
-R[2] = _3513178_37;
+Obj g__03513201_037 = R[1];
+if (True == g__03513201_037) {
+Obj g__03513546_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513203_037 = g__03513546_037;
+Obj g__03513547_037 = primGenSym(co);
+Obj g__03513204_037 = g__03513547_037;
+R[1] = g__03513203_037;
+R[2] = g__03513204_037;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), _3513178_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), g__03513204_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no cond match", 13));
 return;
 }
 }
 case 1:
 {
-Obj _3513527_37= co->res;
-Obj _3513180_37 = R[1];
-Obj _3513178_37 = R[2];
-Obj _3513181_37 = _3513527_37;
-Obj _3513528_37 = makeCons(co->gc, _3513181_37, Nil);
-Obj _3513529_37 = makeCons(co->gc, Nil, _3513528_37);
-Obj _3513530_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513529_37);
-Obj _3513531_37 = makeCons(co->gc, _3513180_37, Nil);
-Obj _3513532_37 = makeCons(co->gc, _3513530_37, _3513531_37);
-Obj _3513533_37 = makeCons(co->gc, _3513178_37, _3513532_37);
-Obj _3513534_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513533_37);
-coraReturn(co, _3513534_37);
+Obj g__03513553_037= co->res;
+Obj g__03513206_037 = R[1];
+Obj g__03513204_037 = R[2];
+Obj g__03513207_037 = g__03513553_037;
+Obj g__03513554_037 = makeCons(co->gc, g__03513207_037, Nil);
+Obj g__03513555_037 = makeCons(co->gc, Nil, g__03513554_037);
+Obj g__03513556_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513555_037);
+Obj g__03513557_037 = makeCons(co->gc, g__03513206_037, Nil);
+Obj g__03513558_037 = makeCons(co->gc, g__03513556_037, g__03513557_037);
+Obj g__03513559_037 = makeCons(co->gc, g__03513204_037, g__03513558_037);
+Obj g__03513560_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513559_037);
+coraReturn(co, g__03513560_037);
 return;
 }
 case 2:
 {
-Obj _3513524_37= co->res;
-Obj _3513178_37 = R[1];
-Obj _3513180_37 = _3513524_37;
-Obj _3513525_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3513526_37 = PRIM_CDR(_3513525_37);
-R[1] = _3513180_37;
-R[2] = _3513178_37;
+Obj g__03513550_037= co->res;
+Obj g__03513204_037 = R[1];
+Obj g__03513206_037 = g__03513550_037;
+Obj g__03513551_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03513552_037 = PRIM_CDR(g__03513551_037);
+R[1] = g__03513206_037;
+R[2] = g__03513204_037;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), _3513526_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), g__03513552_037);
 return;
 }
 case 3:
 {
-Obj _3513523_37= co->res;
-Obj _3513179_37 = R[1];
-Obj _3513178_37 = R[2];
-R[1] = _3513178_37;
+Obj g__03513549_037= co->res;
+Obj g__03513205_037 = R[1];
+Obj g__03513204_037 = R[2];
+R[1] = g__03513204_037;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), _3513523_37, closureRef(R[0], 0), _3513179_37, _3513178_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), g__03513549_037, closureRef(R[0], 0), g__03513205_037, g__03513204_037);
 return;
 }
 case 4:
 {
-Obj _3513522_37= co->res;
-Obj _3513177_37 = R[1];
-Obj _3513178_37 = R[2];
-Obj _3513179_37 = _3513522_37;
-R[1] = _3513179_37;
-R[2] = _3513178_37;
+Obj g__03513548_037= co->res;
+Obj g__03513203_037 = R[1];
+Obj g__03513204_037 = R[2];
+Obj g__03513205_037 = g__03513548_037;
+R[1] = g__03513205_037;
+R[2] = g__03513204_037;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), _3513177_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), g__03513203_037);
 return;
 }
 }
@@ -3000,38 +3000,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
-Obj cc = R[2];
-Obj _3513504_37 = PRIM_CDR(rules);
-Obj _3513505_37 = PRIM_CAR(_3513504_37);
-Obj _3513170_37 = _3513505_37;
-Obj _3513173_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, _3513170_37);
-R[1] = _3513170_37;
-R[2] = _3513173_37;
+Obj v_rules = R[1];
+Obj v_cc = R[2];
+Obj g__03513530_037 = PRIM_CDR(v_rules);
+Obj g__03513531_037 = PRIM_CAR(g__03513530_037);
+Obj g__03513196_037 = g__03513531_037;
+Obj g__03513199_037 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, g__03513196_037);
+R[1] = g__03513196_037;
+R[2] = g__03513199_037;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), _3513170_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), g__03513196_037);
 return;
 }
 case 1:
 {
-Obj _3513513_37= co->res;
-Obj _3513170_37 = R[1];
-Obj _3513173_37 = R[2];
-if (True == _3513513_37) {
-Obj _3513514_37 = PRIM_CAR(_3513170_37);
-Obj _3513515_37 = PRIM_EQ(_3513514_37, getBinding(co, packageID, 112).name);
-if (True == _3513515_37) {
+Obj g__03513539_037= co->res;
+Obj g__03513196_037 = R[1];
+Obj g__03513199_037 = R[2];
+if (True == g__03513539_037) {
+Obj g__03513540_037 = PRIM_CAR(g__03513196_037);
+Obj g__03513541_037 = PRIM_EQ(g__03513540_037, getBinding(co, packageID, 112).name);
+if (True == g__03513541_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513173_37, True);
+coraCall1(co, g__03513199_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513173_37, False);
+coraCall1(co, g__03513199_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513173_37, False);
+coraCall1(co, g__03513199_037, False);
 return;
 }
 }
@@ -3042,8 +3042,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513172_37 = R[1];
-if (True == _3513172_37) {
+Obj g__03513198_037 = R[1];
+if (True == g__03513198_037) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
@@ -3054,20 +3054,20 @@ return;
 }
 case 1:
 {
-Obj _3513507_37= co->res;
-Obj _3513506_37 = R[1];
-Obj _3513508_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3513509_37 = makeCons(co->gc, _3513508_37, Nil);
-Obj _3513510_37 = makeCons(co->gc, _3513507_37, _3513509_37);
-Obj _3513511_37 = makeCons(co->gc, _3513506_37, _3513510_37);
-Obj _3513512_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513511_37);
-coraReturn(co, _3513512_37);
+Obj g__03513533_037= co->res;
+Obj g__03513532_037 = R[1];
+Obj g__03513534_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03513535_037 = makeCons(co->gc, g__03513534_037, Nil);
+Obj g__03513536_037 = makeCons(co->gc, g__03513533_037, g__03513535_037);
+Obj g__03513537_037 = makeCons(co->gc, g__03513532_037, g__03513536_037);
+Obj g__03513538_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513537_037);
+coraReturn(co, g__03513538_037);
 return;
 }
 case 2:
 {
-Obj _3513506_37= co->res;
-R[1] = _3513506_37;
+Obj g__03513532_037= co->res;
+R[1] = g__03513532_037;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
@@ -3079,100 +3079,100 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), pat);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v_pat);
 return;
 }
 case 1:
 {
-Obj _3513488_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3513488_37) {
-Obj _3513489_37 = PRIM_CAR(pat);
-Obj _3513490_37 = PRIM_EQ(_3513489_37, getBinding(co, packageID, 140).name);
-if (True == _3513490_37) {
-Obj _3513491_37 = makeCons(co->gc, expr, Nil);
-Obj _3513492_37 = makeCons(co->gc, pat, _3513491_37);
-Obj _3513493_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513492_37);
-Obj _3513494_37 = makeCons(co->gc, cc, Nil);
-Obj _3513495_37 = makeCons(co->gc, _3513494_37, Nil);
-Obj _3513496_37 = makeCons(co->gc, body, _3513495_37);
-Obj _3513497_37 = makeCons(co->gc, _3513493_37, _3513496_37);
-Obj _3513498_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513497_37);
-coraReturn(co, _3513498_37);
+Obj g__03513514_037= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == g__03513514_037) {
+Obj g__03513515_037 = PRIM_CAR(v_pat);
+Obj g__03513516_037 = PRIM_EQ(g__03513515_037, getBinding(co, packageID, 140).name);
+if (True == g__03513516_037) {
+Obj g__03513517_037 = makeCons(co->gc, v_expr, Nil);
+Obj g__03513518_037 = makeCons(co->gc, v_pat, g__03513517_037);
+Obj g__03513519_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513518_037);
+Obj g__03513520_037 = makeCons(co->gc, v_cc, Nil);
+Obj g__03513521_037 = makeCons(co->gc, g__03513520_037, Nil);
+Obj g__03513522_037 = makeCons(co->gc, v_body, g__03513521_037);
+Obj g__03513523_037 = makeCons(co->gc, g__03513519_037, g__03513522_037);
+Obj g__03513524_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513523_037);
+coraReturn(co, g__03513524_037);
 return;
 } else {
-Obj _3513499_37 = PRIM_CAR(pat);
-Obj _3513500_37 = PRIM_EQ(_3513499_37, getBinding(co, packageID, 153).name);
-if (True == _3513500_37) {
+Obj g__03513525_037 = PRIM_CAR(v_pat);
+Obj g__03513526_037 = PRIM_EQ(g__03513525_037, getBinding(co, packageID, 153).name);
+if (True == g__03513526_037) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), pat, expr, body, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v_pat, v_expr, v_body, v_cc);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no cond match", 13));
 return;
 }
 }
 } else {
-Obj _3513501_37 = makeCons(co->gc, pat, Nil);
-Obj _3513502_37 = makeCons(co->gc, makeCString(co->gc, "match fail"), _3513501_37);
+Obj g__03513527_037 = makeCons(co->gc, v_pat, Nil);
+Obj g__03513528_037 = makeCons(co->gc, makeString(co->gc, "match fail", 10), g__03513527_037);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), _3513502_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), g__03513528_037);
 return;
 }
 }
 case 2:
 {
-Obj _3513473_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3513473_37) {
-Obj _3513474_37 = PRIM_EQ(pat, expr);
-if (True == _3513474_37) {
-coraReturn(co, body);
-return;
-} else {
-Obj _3513475_37 = makeCons(co->gc, expr, Nil);
-Obj _3513476_37 = makeCons(co->gc, pat, _3513475_37);
-Obj _3513477_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513476_37);
-Obj _3513478_37 = makeCons(co->gc, cc, Nil);
-Obj _3513479_37 = makeCons(co->gc, _3513478_37, Nil);
-Obj _3513480_37 = makeCons(co->gc, body, _3513479_37);
-Obj _3513481_37 = makeCons(co->gc, _3513477_37, _3513480_37);
-Obj _3513482_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513481_37);
-coraReturn(co, _3513482_37);
-return;
-}
-} else {
-Obj _3513483_37 = primIsSymbol(pat);
-if (True == _3513483_37) {
-Obj _3513484_37 = makeCons(co->gc, body, Nil);
-Obj _3513485_37 = makeCons(co->gc, expr, _3513484_37);
-Obj _3513486_37 = makeCons(co->gc, pat, _3513485_37);
-Obj _3513487_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513486_37);
-coraReturn(co, _3513487_37);
-return;
-} else {
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj g__03513499_037= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == g__03513499_037) {
+Obj g__03513500_037 = PRIM_EQ(v_pat, v_expr);
+if (True == g__03513500_037) {
+coraReturn(co, v_body);
+return;
+} else {
+Obj g__03513501_037 = makeCons(co->gc, v_expr, Nil);
+Obj g__03513502_037 = makeCons(co->gc, v_pat, g__03513501_037);
+Obj g__03513503_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513502_037);
+Obj g__03513504_037 = makeCons(co->gc, v_cc, Nil);
+Obj g__03513505_037 = makeCons(co->gc, g__03513504_037, Nil);
+Obj g__03513506_037 = makeCons(co->gc, v_body, g__03513505_037);
+Obj g__03513507_037 = makeCons(co->gc, g__03513503_037, g__03513506_037);
+Obj g__03513508_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513507_037);
+coraReturn(co, g__03513508_037);
+return;
+}
+} else {
+Obj g__03513509_037 = primIsSymbol(v_pat);
+if (True == g__03513509_037) {
+Obj g__03513510_037 = makeCons(co->gc, v_body, Nil);
+Obj g__03513511_037 = makeCons(co->gc, v_expr, g__03513510_037);
+Obj g__03513512_037 = makeCons(co->gc, v_pat, g__03513511_037);
+Obj g__03513513_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513512_037);
+coraReturn(co, g__03513513_037);
+return;
+} else {
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_pat);
 return;
 }
 }
@@ -3184,20 +3184,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-R[1] = x;
+Obj v_x = R[1];
+R[1] = v_x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v_x);
 return;
 }
 case 1:
 {
-Obj _3513470_37= co->res;
-Obj x = R[1];
-if (True == _3513470_37) {
-Obj _3513471_37 = primIsSymbol(x);
-Obj _3513472_37 = primNot(_3513471_37);
-if (True == _3513472_37) {
+Obj g__03513496_037= co->res;
+Obj v_x = R[1];
+if (True == g__03513496_037) {
+Obj g__03513497_037 = primIsSymbol(v_x);
+Obj g__03513498_037 = primNot(g__03513497_037);
+if (True == g__03513498_037) {
 coraReturn(co, True);
 return;
 } else {
@@ -3216,60 +3216,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = pat;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_pat;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_pat);
 return;
 }
 case 1:
 {
-Obj _3513449_37= co->res;
-Obj _3513163_37 = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj _3513164_37 = _3513449_37;
-Obj _3513167_37 = makeNative(co->gc, 3, clofun35, 1, 5, _3513163_37, _3513164_37, expr, body, cc);
-Obj _3513466_37 = PRIM_ISCONS(expr);
-if (True == _3513466_37) {
-Obj _3513467_37 = PRIM_CAR(expr);
-Obj _3513468_37 = PRIM_EQ(_3513467_37, getBinding(co, packageID, 153).name);
-if (True == _3513468_37) {
+Obj g__03513475_037= co->res;
+Obj g__03513189_037 = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj g__03513190_037 = g__03513475_037;
+Obj g__03513193_037 = makeNative(co->gc, 3, clofun35, 1, 5, g__03513189_037, g__03513190_037, v_expr, v_body, v_cc);
+Obj g__03513492_037 = PRIM_ISCONS(v_expr);
+if (True == g__03513492_037) {
+Obj g__03513493_037 = PRIM_CAR(v_expr);
+Obj g__03513494_037 = PRIM_EQ(g__03513493_037, getBinding(co, packageID, 153).name);
+if (True == g__03513494_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513167_37, True);
+coraCall1(co, g__03513193_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513167_37, False);
+coraCall1(co, g__03513193_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513167_37, False);
+coraCall1(co, g__03513193_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513448_37= co->res;
-Obj pat = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj _3513163_37 = _3513448_37;
-R[1] = _3513163_37;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj g__03513474_037= co->res;
+Obj v_pat = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj g__03513189_037 = g__03513474_037;
+R[1] = g__03513189_037;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_pat);
 return;
 }
 }
@@ -3279,72 +3279,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513166_37 = R[1];
-if (True == _3513166_37) {
+Obj g__03513192_037 = R[1];
+if (True == g__03513192_037) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3513453_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3513454_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3513453_37);
-Obj _3513455_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3513456_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513455_37);
-Obj _3513457_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3513458_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513457_37);
-R[1] = _3513456_37;
-R[2] = _3513454_37;
+Obj g__03513479_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03513480_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03513479_037);
+Obj g__03513481_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03513482_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03513481_037);
+Obj g__03513483_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03513484_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03513483_037);
+R[1] = g__03513482_037;
+R[2] = g__03513480_037;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), _3513458_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), g__03513484_037, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3513452_37= co->res;
-Obj _3513168_37 = R[1];
+Obj g__03513478_037= co->res;
+Obj g__03513194_037 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), _3513168_37, _3513452_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), g__03513194_037, g__03513478_037, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3513451_37= co->res;
-Obj _3513168_37 = R[1];
-Obj _3513169_37 = _3513451_37;
-R[1] = _3513168_37;
+Obj g__03513477_037= co->res;
+Obj g__03513194_037 = R[1];
+Obj g__03513195_037 = g__03513477_037;
+R[1] = g__03513194_037;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), _3513169_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), g__03513195_037, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3513450_37= co->res;
-Obj _3513168_37 = _3513450_37;
-R[1] = _3513168_37;
+Obj g__03513476_037= co->res;
+Obj g__03513194_037 = g__03513476_037;
+R[1] = g__03513194_037;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3513460_37= co->res;
-Obj _3513454_37 = R[1];
-Obj _3513461_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3513462_37 = makeCons(co->gc, _3513461_37, Nil);
-Obj _3513463_37 = makeCons(co->gc, _3513460_37, _3513462_37);
-Obj _3513464_37 = makeCons(co->gc, _3513454_37, _3513463_37);
-Obj _3513465_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513464_37);
-coraReturn(co, _3513465_37);
+Obj g__03513486_037= co->res;
+Obj g__03513480_037 = R[1];
+Obj g__03513487_037 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj g__03513488_037 = makeCons(co->gc, g__03513487_037, Nil);
+Obj g__03513489_037 = makeCons(co->gc, g__03513486_037, g__03513488_037);
+Obj g__03513490_037 = makeCons(co->gc, g__03513480_037, g__03513489_037);
+Obj g__03513491_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513490_037);
+coraReturn(co, g__03513491_037);
 return;
 }
 case 5:
 {
-Obj _3513459_37= co->res;
-Obj _3513456_37 = R[1];
-Obj _3513454_37 = R[2];
-R[1] = _3513454_37;
+Obj g__03513485_037= co->res;
+Obj g__03513482_037 = R[1];
+Obj g__03513480_037 = R[2];
+R[1] = g__03513480_037;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), _3513456_37, _3513459_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), g__03513482_037, g__03513485_037, closureRef(R[0], 4));
 return;
 }
 }
@@ -3354,10 +3354,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513446_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj g__03513472_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3513446_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), g__03513472_037);
 return;
 }
 }
@@ -3367,37 +3367,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj _3513436_37 = PRIM_CDR(pat);
-R[1] = pat;
+Obj v_pat = R[1];
+Obj g__03513462_037 = PRIM_CDR(v_pat);
+R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513436_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513462_037);
 return;
 }
 case 1:
 {
-Obj _3513441_37= co->res;
-Obj _3513439_37 = R[1];
-Obj _3513442_37 = makeCons(co->gc, _3513441_37, Nil);
-Obj _3513443_37 = makeCons(co->gc, _3513439_37, _3513442_37);
-Obj _3513444_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513443_37);
-coraReturn(co, _3513444_37);
+Obj g__03513467_037= co->res;
+Obj g__03513465_037 = R[1];
+Obj g__03513468_037 = makeCons(co->gc, g__03513467_037, Nil);
+Obj g__03513469_037 = makeCons(co->gc, g__03513465_037, g__03513468_037);
+Obj g__03513470_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513469_037);
+coraReturn(co, g__03513470_037);
 return;
 }
 case 2:
 {
-Obj _3513437_37= co->res;
-Obj pat = R[1];
-if (True == _3513437_37) {
-Obj _3513438_37 = PRIM_CAR(pat);
-coraReturn(co, _3513438_37);
+Obj g__03513463_037= co->res;
+Obj v_pat = R[1];
+if (True == g__03513463_037) {
+Obj g__03513464_037 = PRIM_CAR(v_pat);
+coraReturn(co, g__03513464_037);
 return;
 } else {
-Obj _3513439_37 = PRIM_CAR(pat);
-Obj _3513440_37 = PRIM_CDR(pat);
-R[1] = _3513439_37;
+Obj g__03513465_037 = PRIM_CAR(v_pat);
+Obj g__03513466_037 = PRIM_CDR(v_pat);
+R[1] = g__03513465_037;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3513440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), g__03513466_037);
 return;
 }
 }
@@ -3408,14 +3408,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513433_37 = PRIM_EQ(x, True);
-if (True == _3513433_37) {
+Obj v_x = R[1];
+Obj g__03513459_037 = PRIM_EQ(v_x, True);
+if (True == g__03513459_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513434_37 = PRIM_EQ(x, False);
-if (True == _3513434_37) {
+Obj g__03513460_037 = PRIM_EQ(v_x, False);
+if (True == g__03513460_037) {
 coraReturn(co, True);
 return;
 } else {
@@ -3431,10 +3431,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513431_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj g__03513457_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3513431_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), g__03513457_037);
 return;
 }
 }
@@ -3444,42 +3444,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3513419_37 = PRIM_EQ(Nil, l);
-if (True == _3513419_37) {
+Obj v_l = R[1];
+Obj g__03513445_037 = PRIM_EQ(Nil, v_l);
+if (True == g__03513445_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513420_37 = PRIM_CAR(l);
-Obj _3513421_37 = PRIM_EQ(_3513420_37, False);
-if (True == _3513421_37) {
+Obj g__03513446_037 = PRIM_CAR(v_l);
+Obj g__03513447_037 = PRIM_EQ(g__03513446_037, False);
+if (True == g__03513447_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3513422_37 = PRIM_CDR(l);
-R[1] = l;
+Obj g__03513448_037 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), _3513422_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), g__03513448_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513423_37= co->res;
-Obj l = R[1];
-Obj _3513162_37 = _3513423_37;
-Obj _3513424_37 = PRIM_EQ(_3513162_37, False);
-if (True == _3513424_37) {
+Obj g__03513449_037= co->res;
+Obj v_l = R[1];
+Obj g__03513188_037 = g__03513449_037;
+Obj g__03513450_037 = PRIM_EQ(g__03513188_037, False);
+if (True == g__03513450_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3513425_37 = PRIM_CAR(l);
-Obj _3513426_37 = makeCons(co->gc, False, Nil);
-Obj _3513427_37 = makeCons(co->gc, _3513162_37, _3513426_37);
-Obj _3513428_37 = makeCons(co->gc, _3513425_37, _3513427_37);
-Obj _3513429_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513428_37);
-coraReturn(co, _3513429_37);
+Obj g__03513451_037 = PRIM_CAR(v_l);
+Obj g__03513452_037 = makeCons(co->gc, False, Nil);
+Obj g__03513453_037 = makeCons(co->gc, g__03513188_037, g__03513452_037);
+Obj g__03513454_037 = makeCons(co->gc, g__03513451_037, g__03513453_037);
+Obj g__03513455_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513454_037);
+coraReturn(co, g__03513455_037);
 return;
 }
 }
@@ -3490,10 +3490,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513417_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj g__03513443_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3513417_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), g__03513443_037);
 return;
 }
 }
@@ -3503,42 +3503,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3513405_37 = PRIM_EQ(l, Nil);
-if (True == _3513405_37) {
+Obj v_l = R[1];
+Obj g__03513431_037 = PRIM_EQ(v_l, Nil);
+if (True == g__03513431_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3513406_37 = PRIM_CAR(l);
-Obj _3513407_37 = PRIM_EQ(_3513406_37, True);
-if (True == _3513407_37) {
+Obj g__03513432_037 = PRIM_CAR(v_l);
+Obj g__03513433_037 = PRIM_EQ(g__03513432_037, True);
+if (True == g__03513433_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513408_37 = PRIM_CDR(l);
-R[1] = l;
+Obj g__03513434_037 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), _3513408_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), g__03513434_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513409_37= co->res;
-Obj l = R[1];
-Obj _3513161_37 = _3513409_37;
-Obj _3513410_37 = PRIM_EQ(_3513161_37, True);
-if (True == _3513410_37) {
+Obj g__03513435_037= co->res;
+Obj v_l = R[1];
+Obj g__03513187_037 = g__03513435_037;
+Obj g__03513436_037 = PRIM_EQ(g__03513187_037, True);
+if (True == g__03513436_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513411_37 = PRIM_CAR(l);
-Obj _3513412_37 = makeCons(co->gc, _3513161_37, Nil);
-Obj _3513413_37 = makeCons(co->gc, True, _3513412_37);
-Obj _3513414_37 = makeCons(co->gc, _3513411_37, _3513413_37);
-Obj _3513415_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513414_37);
-coraReturn(co, _3513415_37);
+Obj g__03513437_037 = PRIM_CAR(v_l);
+Obj g__03513438_037 = makeCons(co->gc, g__03513187_037, Nil);
+Obj g__03513439_037 = makeCons(co->gc, True, g__03513438_037);
+Obj g__03513440_037 = makeCons(co->gc, g__03513437_037, g__03513439_037);
+Obj g__03513441_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513440_037);
+coraReturn(co, g__03513441_037);
 return;
 }
 }
@@ -3549,55 +3549,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513391_37 = PRIM_CDR(exp);
-Obj _3513392_37 = PRIM_EQ(Nil, _3513391_37);
-if (True == _3513392_37) {
-Obj _3513393_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3513394_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513393_37);
-coraReturn(co, _3513394_37);
+Obj v_exp = R[1];
+Obj g__03513417_037 = PRIM_CDR(v_exp);
+Obj g__03513418_037 = PRIM_EQ(Nil, g__03513417_037);
+if (True == g__03513418_037) {
+Obj g__03513419_037 = makeCons(co->gc, makeString(co->gc, "no cond match", 13), Nil);
+Obj g__03513420_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03513419_037);
+coraReturn(co, g__03513420_037);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3513398_37= co->res;
-Obj _3513397_37 = R[1];
-Obj _3513396_37 = R[2];
-Obj _3513399_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513398_37);
-Obj _3513400_37 = makeCons(co->gc, _3513399_37, Nil);
-Obj _3513401_37 = makeCons(co->gc, _3513397_37, _3513400_37);
-Obj _3513402_37 = makeCons(co->gc, _3513396_37, _3513401_37);
-Obj _3513403_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513402_37);
-coraReturn(co, _3513403_37);
+Obj g__03513424_037= co->res;
+Obj g__03513423_037 = R[1];
+Obj g__03513422_037 = R[2];
+Obj g__03513425_037 = makeCons(co->gc, getBinding(co, packageID, 129).name, g__03513424_037);
+Obj g__03513426_037 = makeCons(co->gc, g__03513425_037, Nil);
+Obj g__03513427_037 = makeCons(co->gc, g__03513423_037, g__03513426_037);
+Obj g__03513428_037 = makeCons(co->gc, g__03513422_037, g__03513427_037);
+Obj g__03513429_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513428_037);
+coraReturn(co, g__03513429_037);
 return;
 }
 case 2:
 {
-Obj _3513397_37= co->res;
-Obj exp = R[1];
-Obj _3513396_37 = R[2];
-R[1] = _3513397_37;
-R[2] = _3513396_37;
+Obj g__03513423_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513422_037 = R[2];
+R[1] = g__03513423_037;
+R[2] = g__03513422_037;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513395_37= co->res;
-Obj exp = R[1];
-Obj _3513160_37 = _3513395_37;
-Obj _3513396_37 = PRIM_CAR(_3513160_37);
-R[1] = exp;
-R[2] = _3513396_37;
+Obj g__03513421_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513186_037 = g__03513421_037;
+Obj g__03513422_037 = PRIM_CAR(g__03513186_037);
+R[1] = v_exp;
+R[2] = g__03513422_037;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513160_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), g__03513186_037);
 return;
 }
 }
@@ -3607,10 +3607,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513389_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj g__03513415_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3513389_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03513415_037);
 return;
 }
 }
@@ -3620,61 +3620,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513377_37 = PRIM_CDR(exp);
-R[1] = exp;
+Obj v_exp = R[1];
+Obj g__03513403_037 = PRIM_CDR(v_exp);
+R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), _3513377_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513403_037);
 return;
 }
 case 1:
 {
-Obj _3513383_37= co->res;
-Obj _3513381_37 = R[1];
-Obj _3513380_37 = R[2];
-Obj _3513384_37 = makeCons(co->gc, _3513383_37, Nil);
-Obj _3513385_37 = makeCons(co->gc, _3513381_37, _3513384_37);
-Obj _3513386_37 = makeCons(co->gc, _3513380_37, _3513385_37);
-Obj _3513387_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, _3513386_37);
-coraReturn(co, _3513387_37);
+Obj g__03513409_037= co->res;
+Obj g__03513407_037 = R[1];
+Obj g__03513406_037 = R[2];
+Obj g__03513410_037 = makeCons(co->gc, g__03513409_037, Nil);
+Obj g__03513411_037 = makeCons(co->gc, g__03513407_037, g__03513410_037);
+Obj g__03513412_037 = makeCons(co->gc, g__03513406_037, g__03513411_037);
+Obj g__03513413_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513412_037);
+coraReturn(co, g__03513413_037);
 return;
 }
 case 2:
 {
-Obj _3513382_37= co->res;
-Obj _3513381_37 = R[1];
-Obj _3513380_37 = R[2];
-R[1] = _3513381_37;
-R[2] = _3513380_37;
+Obj g__03513408_037= co->res;
+Obj g__03513407_037 = R[1];
+Obj g__03513406_037 = R[2];
+R[1] = g__03513407_037;
+R[2] = g__03513406_037;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), _3513382_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03513408_037);
 return;
 }
 case 3:
 {
-Obj _3513381_37= co->res;
-Obj exp = R[1];
-Obj _3513380_37 = R[2];
-R[1] = _3513381_37;
-R[2] = _3513380_37;
+Obj g__03513407_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513406_037 = R[2];
+R[1] = g__03513407_037;
+R[2] = g__03513406_037;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3513378_37= co->res;
-Obj exp = R[1];
-if (True == _3513378_37) {
-Obj _3513379_37 = PRIM_CAR(exp);
-coraReturn(co, _3513379_37);
+Obj g__03513404_037= co->res;
+Obj v_exp = R[1];
+if (True == g__03513404_037) {
+Obj g__03513405_037 = PRIM_CAR(v_exp);
+coraReturn(co, g__03513405_037);
 return;
 } else {
-Obj _3513380_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3513380_37;
+Obj g__03513406_037 = PRIM_CAR(v_exp);
+R[1] = v_exp;
+R[2] = g__03513406_037;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 }
@@ -3685,10 +3685,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513374_37 = PRIM_ISCONS(x);
-Obj _3513375_37 = primNot(_3513374_37);
-coraReturn(co, _3513375_37);
+Obj v_x = R[1];
+Obj g__03513400_037 = PRIM_ISCONS(v_x);
+Obj g__03513401_037 = primNot(g__03513400_037);
+coraReturn(co, g__03513401_037);
 return;
 }
 }
@@ -3698,19 +3698,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
-Obj _3513369_37 = PRIM_ISCONS(l);
-if (True == _3513369_37) {
-Obj _3513370_37 = PRIM_CAR(l);
-Obj _3513371_37 = PRIM_EQ(_3513370_37, x);
-if (True == _3513371_37) {
+Obj v_x = R[1];
+Obj v_l = R[2];
+Obj g__03513395_037 = PRIM_ISCONS(v_l);
+if (True == g__03513395_037) {
+Obj g__03513396_037 = PRIM_CAR(v_l);
+Obj g__03513397_037 = PRIM_EQ(g__03513396_037, v_x);
+if (True == g__03513397_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513372_37 = PRIM_CDR(l);
+Obj g__03513398_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), x, _3513372_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, g__03513398_037);
 return;
 }
 } else {
@@ -3725,45 +3725,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513361_37= co->res;
-Obj _3513360_37 = R[1];
-Obj _3513359_37 = R[2];
-Obj _3513362_37 = makeCons(co->gc, _3513361_37, Nil);
-Obj _3513363_37 = makeCons(co->gc, _3513360_37, _3513362_37);
-Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513363_37);
-Obj _3513365_37 = makeCons(co->gc, _3513364_37, Nil);
-Obj _3513366_37 = makeCons(co->gc, _3513359_37, _3513365_37);
-Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3513366_37);
-coraReturn(co, _3513367_37);
+Obj g__03513387_037= co->res;
+Obj g__03513386_037 = R[1];
+Obj g__03513385_037 = R[2];
+Obj g__03513388_037 = makeCons(co->gc, g__03513387_037, Nil);
+Obj g__03513389_037 = makeCons(co->gc, g__03513386_037, g__03513388_037);
+Obj g__03513390_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513389_037);
+Obj g__03513391_037 = makeCons(co->gc, g__03513390_037, Nil);
+Obj g__03513392_037 = makeCons(co->gc, g__03513385_037, g__03513391_037);
+Obj g__03513393_037 = makeCons(co->gc, getBinding(co, packageID, 134).name, g__03513392_037);
+coraReturn(co, g__03513393_037);
 return;
 }
 case 2:
 {
-Obj _3513360_37= co->res;
-Obj exp = R[1];
-Obj _3513359_37 = R[2];
-R[1] = _3513360_37;
-R[2] = _3513359_37;
+Obj g__03513386_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513385_037 = R[2];
+R[1] = g__03513386_037;
+R[2] = g__03513385_037;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513359_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-R[2] = _3513359_37;
+Obj g__03513385_037= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
+R[2] = g__03513385_037;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -3773,10 +3773,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513357_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj g__03513383_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3513357_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), g__03513383_037);
 return;
 }
 }
@@ -3786,46 +3786,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513349_37= co->res;
-Obj _3513348_37 = R[1];
-Obj _3513347_37 = R[2];
-Obj _3513350_37 = makeCons(co->gc, _3513348_37, _3513349_37);
-Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513350_37);
-Obj _3513352_37 = makeCons(co->gc, _3513351_37, Nil);
-Obj _3513353_37 = makeCons(co->gc, _3513347_37, _3513352_37);
-Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, _3513353_37);
-coraReturn(co, _3513354_37);
+Obj g__03513375_037= co->res;
+Obj g__03513374_037 = R[1];
+Obj g__03513373_037 = R[2];
+Obj g__03513376_037 = makeCons(co->gc, g__03513374_037, g__03513375_037);
+Obj g__03513377_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513376_037);
+Obj g__03513378_037 = makeCons(co->gc, g__03513377_037, Nil);
+Obj g__03513379_037 = makeCons(co->gc, g__03513373_037, g__03513378_037);
+Obj g__03513380_037 = makeCons(co->gc, getBinding(co, packageID, 145).name, g__03513379_037);
+coraReturn(co, g__03513380_037);
 return;
 }
 case 2:
 {
-Obj _3513348_37= co->res;
-Obj exp = R[1];
-Obj _3513347_37 = R[2];
-R[1] = _3513348_37;
-R[2] = _3513347_37;
+Obj g__03513374_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513373_037 = R[2];
+R[1] = g__03513374_037;
+R[2] = g__03513373_037;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513345_37= co->res;
-Obj exp = R[1];
-Obj _3513346_37 = makeCons(co->gc, _3513345_37, Nil);
-Obj _3513347_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513346_37);
-R[1] = exp;
-R[2] = _3513347_37;
+Obj g__03513371_037= co->res;
+Obj v_exp = R[1];
+Obj g__03513372_037 = makeCons(co->gc, g__03513371_037, Nil);
+Obj g__03513373_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513372_037);
+R[1] = v_exp;
+R[2] = g__03513373_037;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -3835,76 +3835,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513327_37 = PRIM_ISCONS(exp);
-if (True == _3513327_37) {
-Obj _3513328_37 = PRIM_CAR(exp);
-Obj _3513329_37 = PRIM_EQ(_3513328_37, globalRef(co, getBinding(co, packageID, 146)));
-if (True == _3513329_37) {
-Obj _3513330_37 = PRIM_CDR(exp);
-coraReturn(co, _3513330_37);
+Obj v_exp = R[1];
+Obj g__03513353_037 = PRIM_ISCONS(v_exp);
+if (True == g__03513353_037) {
+Obj g__03513354_037 = PRIM_CAR(v_exp);
+Obj g__03513355_037 = PRIM_EQ(g__03513354_037, globalRef(co, getBinding(co, packageID, 146)));
+if (True == g__03513355_037) {
+Obj g__03513356_037 = PRIM_CDR(v_exp);
+coraReturn(co, g__03513356_037);
 return;
 } else {
-Obj _3513331_37 = PRIM_CAR(exp);
-Obj _3513332_37 = PRIM_EQ(_3513331_37, getBinding(co, packageID, 141).name);
-if (True == _3513332_37) {
-R[1] = exp;
+Obj g__03513357_037 = PRIM_CAR(v_exp);
+Obj g__03513358_037 = PRIM_EQ(g__03513357_037, getBinding(co, packageID, 141).name);
+if (True == g__03513358_037) {
+R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 } else {
-Obj _3513339_37 = PRIM_CAR(exp);
-Obj _3513340_37 = PRIM_EQ(_3513339_37, getBinding(co, packageID, 140).name);
-if (True == _3513340_37) {
-coraReturn(co, exp);
+Obj g__03513365_037 = PRIM_CAR(v_exp);
+Obj g__03513366_037 = PRIM_EQ(g__03513365_037, getBinding(co, packageID, 140).name);
+if (True == g__03513366_037) {
+coraReturn(co, v_exp);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v_exp);
 return;
 }
 }
 }
 } else {
-coraReturn(co, exp);
+coraReturn(co, v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3513335_37= co->res;
-Obj _3513333_37 = R[1];
-Obj _3513336_37 = makeCons(co->gc, _3513335_37, Nil);
-Obj _3513337_37 = makeCons(co->gc, _3513333_37, _3513336_37);
-Obj _3513338_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, _3513337_37);
-coraReturn(co, _3513338_37);
+Obj g__03513361_037= co->res;
+Obj g__03513359_037 = R[1];
+Obj g__03513362_037 = makeCons(co->gc, g__03513361_037, Nil);
+Obj g__03513363_037 = makeCons(co->gc, g__03513359_037, g__03513362_037);
+Obj g__03513364_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513363_037);
+coraReturn(co, g__03513364_037);
 return;
 }
 case 2:
 {
-Obj _3513334_37= co->res;
-Obj _3513333_37 = R[1];
-R[1] = _3513333_37;
+Obj g__03513360_037= co->res;
+Obj g__03513359_037 = R[1];
+R[1] = g__03513359_037;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), _3513334_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), g__03513360_037);
 return;
 }
 case 3:
 {
-Obj _3513333_37= co->res;
-Obj exp = R[1];
-R[1] = _3513333_37;
+Obj g__03513359_037= co->res;
+Obj v_exp = R[1];
+R[1] = g__03513359_037;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3513342_37= co->res;
-Obj exp = R[1];
+Obj g__03513368_037= co->res;
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3513342_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), g__03513368_037);
 return;
 }
 }
@@ -3914,15 +3914,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp1 = R[1];
-Obj _3513341_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3513341_37) {
+Obj v_exp1 = R[1];
+Obj g__03513367_037 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == g__03513367_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
 }
 }
@@ -3933,9 +3933,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), exp, globalRef(co, getBinding(co, packageID, 147)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v_exp, globalRef(co, getBinding(co, packageID, 147)));
 return;
 }
 }
@@ -3945,16 +3945,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj macros = R[2];
-Obj _3513317_37 = PRIM_EQ(Nil, macros);
-if (True == _3513317_37) {
-coraReturn(co, exp);
+Obj v_exp = R[1];
+Obj v_macros = R[2];
+Obj g__03513343_037 = PRIM_EQ(Nil, v_macros);
+if (True == g__03513343_037) {
+coraReturn(co, v_exp);
 return;
 } else {
-Obj _3513324_37 = PRIM_CAR(macros);
+Obj g__03513350_037 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3513324_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), g__03513350_037);
 return;
 }
 }
@@ -3965,25 +3965,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj item = R[1];
-Obj _3513159_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3513320_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513320_37) {
-Obj _3513321_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513322_37 = PRIM_CAR(item);
-Obj _3513323_37 = PRIM_EQ(_3513321_37, _3513322_37);
-if (True == _3513323_37) {
+Obj v_item = R[1];
+Obj g__03513185_037 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj g__03513346_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03513346_037) {
+Obj g__03513347_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513348_037 = PRIM_CAR(v_item);
+Obj g__03513349_037 = PRIM_EQ(g__03513347_037, g__03513348_037);
+if (True == g__03513349_037) {
 co->ctx.sp = R;
-coraCall1(co, _3513159_37, True);
+coraCall1(co, g__03513185_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513159_37, False);
+coraCall1(co, g__03513185_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513159_37, False);
+coraCall1(co, g__03513185_037, False);
 return;
 }
 }
@@ -3994,16 +3994,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513158_37 = R[1];
-if (True == _3513158_37) {
-Obj _3513318_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513184_037 = R[1];
+if (True == g__03513184_037) {
+Obj g__03513344_037 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3513318_37, closureRef(R[0], 1));
+coraCall1(co, g__03513344_037, closureRef(R[0], 1));
 return;
 } else {
-Obj _3513319_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513345_037 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), _3513319_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), g__03513345_037);
 return;
 }
 }
@@ -4014,12 +4014,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj v = R[2];
-Obj _3513313_37 = makeCons(co->gc, n, v);
-Obj _3513314_37 = makeCons(co->gc, _3513313_37, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513315_37 = primSet(co, getBinding(co, packageID, 147).name, _3513314_37);
-coraReturn(co, _3513315_37);
+Obj v_n = R[1];
+Obj v_v = R[2];
+Obj g__03513339_037 = makeCons(co->gc, v_n, v_v);
+Obj g__03513340_037 = makeCons(co->gc, g__03513339_037, globalRef(co, getBinding(co, packageID, 147)));
+Obj g__03513341_037 = primSet(co, getBinding(co, packageID, 147).name, g__03513340_037);
+coraReturn(co, g__03513341_037);
 return;
 }
 }
@@ -4029,10 +4029,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f = R[1];
-Obj l = R[2];
+Obj v_f = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, f, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v_f, v_l);
 return;
 }
 }
@@ -4042,34 +4042,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj f = R[2];
-Obj l = R[3];
-Obj _3513303_37 = PRIM_ISCONS(l);
-if (True == _3513303_37) {
-Obj _3513304_37 = PRIM_CAR(l);
-R[1] = res;
-R[2] = l;
-R[3] = f;
+Obj v_res = R[1];
+Obj v_f = R[2];
+Obj v_l = R[3];
+Obj g__03513329_037 = PRIM_ISCONS(v_l);
+if (True == g__03513329_037) {
+Obj g__03513330_037 = PRIM_CAR(v_l);
+R[1] = v_res;
+R[2] = v_l;
+R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3513304_37);
+coraCall1(co, v_f, g__03513330_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3513305_37= co->res;
-Obj res = R[1];
-Obj l = R[2];
-Obj f = R[3];
-Obj _3513306_37 = makeCons(co->gc, _3513305_37, res);
-Obj _3513307_37 = PRIM_CDR(l);
+Obj g__03513331_037= co->res;
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v_f = R[3];
+Obj g__03513332_037 = makeCons(co->gc, g__03513331_037, v_res);
+Obj g__03513333_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), _3513306_37, f, _3513307_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), g__03513332_037, v_f, g__03513333_037);
 return;
 }
 }
@@ -4079,18 +4079,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj l = R[2];
-Obj _3513296_37 = PRIM_ISCONS(l);
-if (True == _3513296_37) {
-Obj _3513297_37 = PRIM_CAR(l);
-Obj _3513298_37 = makeCons(co->gc, _3513297_37, res);
-Obj _3513299_37 = PRIM_CDR(l);
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj g__03513322_037 = PRIM_ISCONS(v_l);
+if (True == g__03513322_037) {
+Obj g__03513323_037 = PRIM_CAR(v_l);
+Obj g__03513324_037 = makeCons(co->gc, g__03513323_037, v_res);
+Obj g__03513325_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), _3513298_37, _3513299_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), g__03513324_037, g__03513325_037);
 return;
 } else {
-coraReturn(co, res);
+coraReturn(co, v_res);
 return;
 }
 }
@@ -4101,9 +4101,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513294_37 = PRIM_ISCONS(x);
-coraReturn(co, _3513294_37);
+Obj v_x = R[1];
+Obj g__03513320_037 = PRIM_ISCONS(v_x);
+coraReturn(co, g__03513320_037);
 return;
 }
 }
@@ -4113,14 +4113,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513286_37 = PRIM_ISCONS(exp);
-if (True == _3513286_37) {
-Obj _3513287_37 = PRIM_CAR(exp);
-Obj _3513288_37 = PRIM_CDR(exp);
-R[1] = _3513287_37;
+Obj v_exp = R[1];
+Obj g__03513312_037 = PRIM_ISCONS(v_exp);
+if (True == g__03513312_037) {
+Obj g__03513313_037 = PRIM_CAR(v_exp);
+Obj g__03513314_037 = PRIM_CDR(v_exp);
+R[1] = g__03513313_037;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), _3513288_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), g__03513314_037);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4129,12 @@ return;
 }
 case 1:
 {
-Obj _3513289_37= co->res;
-Obj _3513287_37 = R[1];
-Obj _3513290_37 = makeCons(co->gc, _3513289_37, Nil);
-Obj _3513291_37 = makeCons(co->gc, _3513287_37, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, _3513291_37);
-coraReturn(co, _3513292_37);
+Obj g__03513315_037= co->res;
+Obj g__03513313_037 = R[1];
+Obj g__03513316_037 = makeCons(co->gc, g__03513315_037, Nil);
+Obj g__03513317_037 = makeCons(co->gc, g__03513313_037, g__03513316_037);
+Obj g__03513318_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513317_037);
+coraReturn(co, g__03513318_037);
 return;
 }
 }
@@ -4144,11 +4144,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513282_37 = PRIM_CDR(x);
-Obj _3513283_37 = PRIM_CDR(_3513282_37);
-Obj _3513284_37 = PRIM_CDR(_3513283_37);
-coraReturn(co, _3513284_37);
+Obj v_x = R[1];
+Obj g__03513308_037 = PRIM_CDR(v_x);
+Obj g__03513309_037 = PRIM_CDR(g__03513308_037);
+Obj g__03513310_037 = PRIM_CDR(g__03513309_037);
+coraReturn(co, g__03513310_037);
 return;
 }
 }
@@ -4158,12 +4158,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513277_37 = PRIM_CDR(x);
-Obj _3513278_37 = PRIM_CDR(_3513277_37);
-Obj _3513279_37 = PRIM_CDR(_3513278_37);
-Obj _3513280_37 = PRIM_CAR(_3513279_37);
-coraReturn(co, _3513280_37);
+Obj v_x = R[1];
+Obj g__03513303_037 = PRIM_CDR(v_x);
+Obj g__03513304_037 = PRIM_CDR(g__03513303_037);
+Obj g__03513305_037 = PRIM_CDR(g__03513304_037);
+Obj g__03513306_037 = PRIM_CAR(g__03513305_037);
+coraReturn(co, g__03513306_037);
 return;
 }
 }
@@ -4173,11 +4173,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513273_37 = PRIM_CDR(x);
-Obj _3513274_37 = PRIM_CDR(_3513273_37);
-Obj _3513275_37 = PRIM_CAR(_3513274_37);
-coraReturn(co, _3513275_37);
+Obj v_x = R[1];
+Obj g__03513299_037 = PRIM_CDR(v_x);
+Obj g__03513300_037 = PRIM_CDR(g__03513299_037);
+Obj g__03513301_037 = PRIM_CAR(g__03513300_037);
+coraReturn(co, g__03513301_037);
 return;
 }
 }
@@ -4187,10 +4187,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513270_37 = PRIM_CDR(x);
-Obj _3513271_37 = PRIM_CDR(_3513270_37);
-coraReturn(co, _3513271_37);
+Obj v_x = R[1];
+Obj g__03513296_037 = PRIM_CDR(v_x);
+Obj g__03513297_037 = PRIM_CDR(g__03513296_037);
+coraReturn(co, g__03513297_037);
 return;
 }
 }
@@ -4200,10 +4200,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513267_37 = PRIM_CAR(x);
-Obj _3513268_37 = PRIM_CDR(_3513267_37);
-coraReturn(co, _3513268_37);
+Obj v_x = R[1];
+Obj g__03513293_037 = PRIM_CAR(v_x);
+Obj g__03513294_037 = PRIM_CDR(g__03513293_037);
+coraReturn(co, g__03513294_037);
 return;
 }
 }
@@ -4213,10 +4213,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513264_37 = PRIM_CAR(x);
-Obj _3513265_37 = PRIM_CAR(_3513264_37);
-coraReturn(co, _3513265_37);
+Obj v_x = R[1];
+Obj g__03513290_037 = PRIM_CAR(v_x);
+Obj g__03513291_037 = PRIM_CAR(g__03513290_037);
+coraReturn(co, g__03513291_037);
 return;
 }
 }
@@ -4226,10 +4226,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513261_37 = PRIM_CDR(x);
-Obj _3513262_37 = PRIM_CAR(_3513261_37);
-coraReturn(co, _3513262_37);
+Obj v_x = R[1];
+Obj g__03513287_037 = PRIM_CDR(v_x);
+Obj g__03513288_037 = PRIM_CAR(g__03513287_037);
+coraReturn(co, g__03513288_037);
 return;
 }
 }
@@ -4239,9 +4239,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513259_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3513259_37);
+Obj v_x = R[1];
+Obj g__03513285_037 = PRIM_EQ(v_x, Nil);
+coraReturn(co, g__03513285_037);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 0807924..da53fd4 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -155,7 +155,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 131);
+Binding *__symbolTable = malloc(sizeof(Binding) * 132);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
@@ -197,96 +197,97 @@ __symbolTable[37] = bindSymbol(co, intern("cora/lib/toc#closure-convert-pass"));
 __symbolTable[38] = bindSymbol(co, intern("cora/lib/toc#parse-pass"));
 __symbolTable[39] = bindSymbol(co, intern("cora/lib/toc#code-gen-func-declare"));
 __symbolTable[40] = bindSymbol(co, intern("cora/lib/toc#generate-cont"));
-__symbolTable[41] = bindSymbol(co, intern("cora/lib/toc/internal#escape-str"));
-__symbolTable[42] = bindSymbol(co, intern("cora/lib/toc#generate-group-name"));
-__symbolTable[43] = bindSymbol(co, intern("cora/lib/toc#generate-inst-list"));
-__symbolTable[44] = bindSymbol(co, intern("cora/lib/toc/internal#generate-sym"));
-__symbolTable[45] = bindSymbol(co, intern("cora/lib/toc#recover-from-frame"));
-__symbolTable[46] = bindSymbol(co, intern("cora/lib/toc#generate-inst"));
-__symbolTable[47] = bindSymbol(co, intern("cora/lib/toc/internal#generate-num"));
-__symbolTable[48] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"));
-__symbolTable[49] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
-__symbolTable[50] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
-__symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
-__symbolTable[52] = bindSymbol(co, intern("cora/init#value"));
-__symbolTable[53] = bindSymbol(co, intern("cora/init#vector-set!"));
-__symbolTable[54] = bindSymbol(co, intern("cora/lib/toc#append-result"));
-__symbolTable[55] = bindSymbol(co, intern("cora/init#vector-ref"));
-__symbolTable[56] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
-__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
-__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
-__symbolTable[59] = bindSymbol(co, intern("cora/init#cdddr"));
-__symbolTable[60] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
-__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
-__symbolTable[62] = bindSymbol(co, intern("%continuation"));
-__symbolTable[63] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
-__symbolTable[64] = bindSymbol(co, intern("cora/init#caar"));
-__symbolTable[65] = bindSymbol(co, intern("cora/init#pair?"));
-__symbolTable[66] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
-__symbolTable[67] = bindSymbol(co, intern("cora/init#reverse"));
-__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
-__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify"));
-__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#id"));
-__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
-__symbolTable[72] = bindSymbol(co, intern("return"));
-__symbolTable[73] = bindSymbol(co, intern("call"));
-__symbolTable[74] = bindSymbol(co, intern("tailcall"));
-__symbolTable[75] = bindSymbol(co, intern("continuation"));
-__symbolTable[76] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
-__symbolTable[77] = bindSymbol(co, intern("%closure-ref"));
-__symbolTable[78] = bindSymbol(co, intern("%closure"));
-__symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
-__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[81] = bindSymbol(co, intern("cora/init#elem?"));
-__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[84] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[85] = bindSymbol(co, intern("quote"));
-__symbolTable[86] = bindSymbol(co, intern("do"));
-__symbolTable[87] = bindSymbol(co, intern("let"));
-__symbolTable[88] = bindSymbol(co, intern("if"));
-__symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[90] = bindSymbol(co, intern("lambda"));
-__symbolTable[91] = bindSymbol(co, intern("%builtin"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[93] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[94] = bindSymbol(co, intern("%global"));
-__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[96] = bindSymbol(co, intern("%const"));
-__symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[99] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[105] = bindSymbol(co, intern("string?"));
-__symbolTable[106] = bindSymbol(co, intern("integer?"));
-__symbolTable[107] = bindSymbol(co, intern("not"));
-__symbolTable[108] = bindSymbol(co, intern("symbol?"));
-__symbolTable[109] = bindSymbol(co, intern("gensym"));
-__symbolTable[110] = bindSymbol(co, intern("<"));
-__symbolTable[111] = bindSymbol(co, intern(">"));
-__symbolTable[112] = bindSymbol(co, intern("="));
-__symbolTable[113] = bindSymbol(co, intern("/"));
-__symbolTable[114] = bindSymbol(co, intern("*"));
-__symbolTable[115] = bindSymbol(co, intern("-"));
-__symbolTable[116] = bindSymbol(co, intern("+"));
-__symbolTable[117] = bindSymbol(co, intern("cons?"));
-__symbolTable[118] = bindSymbol(co, intern("cons"));
-__symbolTable[119] = bindSymbol(co, intern("cdr"));
-__symbolTable[120] = bindSymbol(co, intern("car"));
-__symbolTable[121] = bindSymbol(co, intern("set"));
-__symbolTable[122] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[127] = bindSymbol(co, intern("cora/init#error"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[41] = bindSymbol(co, intern("cora/init#bytes-length"));
+__symbolTable[42] = bindSymbol(co, intern("cora/lib/toc/internal#escape-str"));
+__symbolTable[43] = bindSymbol(co, intern("cora/lib/toc#generate-group-name"));
+__symbolTable[44] = bindSymbol(co, intern("cora/lib/toc#generate-inst-list"));
+__symbolTable[45] = bindSymbol(co, intern("cora/lib/toc/internal#generate-sym"));
+__symbolTable[46] = bindSymbol(co, intern("cora/lib/toc#recover-from-frame"));
+__symbolTable[47] = bindSymbol(co, intern("cora/lib/toc#generate-inst"));
+__symbolTable[48] = bindSymbol(co, intern("cora/lib/toc/internal#generate-num"));
+__symbolTable[49] = bindSymbol(co, intern("cora/lib/toc/internal#generate-str"));
+__symbolTable[50] = bindSymbol(co, intern("cora/lib/toc#save-to-frame"));
+__symbolTable[51] = bindSymbol(co, intern("cora/lib/toc#symbol-offset"));
+__symbolTable[52] = bindSymbol(co, intern("cora/lib/toc#symbol-offset-h"));
+__symbolTable[53] = bindSymbol(co, intern("cora/init#value"));
+__symbolTable[54] = bindSymbol(co, intern("cora/init#vector-set!"));
+__symbolTable[55] = bindSymbol(co, intern("cora/lib/toc#append-result"));
+__symbolTable[56] = bindSymbol(co, intern("cora/init#vector-ref"));
+__symbolTable[57] = bindSymbol(co, intern("cora/lib/toc#collect-lambda"));
+__symbolTable[58] = bindSymbol(co, intern("cora/lib/toc#lambda-frame-size"));
+__symbolTable[59] = bindSymbol(co, intern("cora/lib/toc#rewrite-lambda-final"));
+__symbolTable[60] = bindSymbol(co, intern("cora/init#cdddr"));
+__symbolTable[61] = bindSymbol(co, intern("cora/lib/toc#collect-cont-list"));
+__symbolTable[62] = bindSymbol(co, intern("cora/lib/toc#collect-cont"));
+__symbolTable[63] = bindSymbol(co, intern("%continuation"));
+__symbolTable[64] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
+__symbolTable[65] = bindSymbol(co, intern("cora/init#caar"));
+__symbolTable[66] = bindSymbol(co, intern("cora/init#pair?"));
+__symbolTable[67] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
+__symbolTable[68] = bindSymbol(co, intern("cora/init#reverse"));
+__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
+__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#tailify"));
+__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#id"));
+__symbolTable[72] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
+__symbolTable[73] = bindSymbol(co, intern("return"));
+__symbolTable[74] = bindSymbol(co, intern("call"));
+__symbolTable[75] = bindSymbol(co, intern("tailcall"));
+__symbolTable[76] = bindSymbol(co, intern("continuation"));
+__symbolTable[77] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
+__symbolTable[78] = bindSymbol(co, intern("%closure-ref"));
+__symbolTable[79] = bindSymbol(co, intern("%closure"));
+__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
+__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#diff"));
+__symbolTable[82] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[83] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[84] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[85] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[86] = bindSymbol(co, intern("quote"));
+__symbolTable[87] = bindSymbol(co, intern("do"));
+__symbolTable[88] = bindSymbol(co, intern("let"));
+__symbolTable[89] = bindSymbol(co, intern("if"));
+__symbolTable[90] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[91] = bindSymbol(co, intern("lambda"));
+__symbolTable[92] = bindSymbol(co, intern("%builtin"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[94] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[95] = bindSymbol(co, intern("%global"));
+__symbolTable[96] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[97] = bindSymbol(co, intern("%const"));
+__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[100] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[101] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[102] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[104] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[106] = bindSymbol(co, intern("string?"));
+__symbolTable[107] = bindSymbol(co, intern("integer?"));
+__symbolTable[108] = bindSymbol(co, intern("not"));
+__symbolTable[109] = bindSymbol(co, intern("symbol?"));
+__symbolTable[110] = bindSymbol(co, intern("gensym"));
+__symbolTable[111] = bindSymbol(co, intern("<"));
+__symbolTable[112] = bindSymbol(co, intern(">"));
+__symbolTable[113] = bindSymbol(co, intern("="));
+__symbolTable[114] = bindSymbol(co, intern("/"));
+__symbolTable[115] = bindSymbol(co, intern("*"));
+__symbolTable[116] = bindSymbol(co, intern("-"));
+__symbolTable[117] = bindSymbol(co, intern("+"));
+__symbolTable[118] = bindSymbol(co, intern("cons?"));
+__symbolTable[119] = bindSymbol(co, intern("cons"));
+__symbolTable[120] = bindSymbol(co, intern("cdr"));
+__symbolTable[121] = bindSymbol(co, intern("car"));
+__symbolTable[122] = bindSymbol(co, intern("set"));
+__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[128] = bindSymbol(co, intern("cora/init#error"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[131] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 co->ctx.fn = clofun148;
 co->ctx.label = 0;
@@ -297,159 +298,159 @@ static void clofun148(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun148, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeString(co->gc, "cora/lib/toc/internal", 21));
 return;
 }
 case 1:
 {
-Obj _3519286_37= co->res;
-Obj _3519292_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun114, 2, 0));
-Obj _3519298_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun115, 2, 0));
-Obj _3519320_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun117, 3, 0));
-Obj _3519339_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun119, 3, 0));
-Obj _3519349_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun122, 3, 0));
-Obj _3519390_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun127, 1, 0));
-Obj _3519429_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun130, 4, 0));
-Obj _3519481_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun135, 2, 0));
-Obj _3519482_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun136, 2, 0));
-Obj _3519496_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun144, 1, 0));
-Obj _3519497_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3519510_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun146, 1, 0));
-Obj _3519520_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun147, 2, 0));
-coraReturn(co, _3519520_37);
+Obj g__03519315_037= co->res;
+Obj g__03519321_037 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj g__03519327_037 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun115, 2, 0));
+Obj g__03519349_037 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun117, 3, 0));
+Obj g__03519369_037 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun119, 3, 0));
+Obj g__03519379_037 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun122, 3, 0));
+Obj g__03519420_037 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun127, 1, 0));
+Obj g__03519459_037 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun130, 4, 0));
+Obj g__03519511_037 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun135, 2, 0));
+Obj g__03519512_037 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun136, 2, 0));
+Obj g__03519526_037 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun144, 1, 0));
+Obj g__03519527_037 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj g__03519540_037 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun146, 1, 0));
+Obj g__03519550_037 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun147, 2, 0));
+coraReturn(co, g__03519550_037);
 return;
 }
 case 2:
 {
-Obj _3517857_37= co->res;
-Obj _3517858_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3517873_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3517879_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3517889_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3517890_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3517897_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3517898_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3517899_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517898_37);
-Obj _3517900_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3517899_37);
-Obj _3517901_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3517902_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517901_37);
-Obj _3517903_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3517902_37);
-Obj _3517904_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3517905_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517904_37);
-Obj _3517906_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3517905_37);
-Obj _3517907_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3517908_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517907_37);
-Obj _3517909_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3517908_37);
-Obj _3517910_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3517911_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517910_37);
-Obj _3517912_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3517911_37);
-Obj _3517913_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3517914_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517913_37);
-Obj _3517915_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3517914_37);
-Obj _3517916_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3517917_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517916_37);
-Obj _3517918_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3517917_37);
-Obj _3517919_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3517920_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517919_37);
-Obj _3517921_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3517920_37);
-Obj _3517922_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3517923_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517922_37);
-Obj _3517924_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3517923_37);
-Obj _3517925_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3517926_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517925_37);
-Obj _3517927_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3517926_37);
-Obj _3517928_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3517929_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517928_37);
-Obj _3517930_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3517929_37);
-Obj _3517931_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3517932_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517931_37);
-Obj _3517933_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3517932_37);
-Obj _3517934_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3517935_37 = makeCons(co->gc, MAKE_NUMBER(0), _3517934_37);
-Obj _3517936_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3517935_37);
-Obj _3517937_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3517938_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517937_37);
-Obj _3517939_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3517938_37);
-Obj _3517940_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3517941_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517940_37);
-Obj _3517942_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3517941_37);
-Obj _3517943_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3517944_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517943_37);
-Obj _3517945_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3517944_37);
-Obj _3517946_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3517947_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517946_37);
-Obj _3517948_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3517947_37);
-Obj _3517949_37 = makeCons(co->gc, _3517948_37, Nil);
-Obj _3517950_37 = makeCons(co->gc, _3517945_37, _3517949_37);
-Obj _3517951_37 = makeCons(co->gc, _3517942_37, _3517950_37);
-Obj _3517952_37 = makeCons(co->gc, _3517939_37, _3517951_37);
-Obj _3517953_37 = makeCons(co->gc, _3517936_37, _3517952_37);
-Obj _3517954_37 = makeCons(co->gc, _3517933_37, _3517953_37);
-Obj _3517955_37 = makeCons(co->gc, _3517930_37, _3517954_37);
-Obj _3517956_37 = makeCons(co->gc, _3517927_37, _3517955_37);
-Obj _3517957_37 = makeCons(co->gc, _3517924_37, _3517956_37);
-Obj _3517958_37 = makeCons(co->gc, _3517921_37, _3517957_37);
-Obj _3517959_37 = makeCons(co->gc, _3517918_37, _3517958_37);
-Obj _3517960_37 = makeCons(co->gc, _3517915_37, _3517959_37);
-Obj _3517961_37 = makeCons(co->gc, _3517912_37, _3517960_37);
-Obj _3517962_37 = makeCons(co->gc, _3517909_37, _3517961_37);
-Obj _3517963_37 = makeCons(co->gc, _3517906_37, _3517962_37);
-Obj _3517964_37 = makeCons(co->gc, _3517903_37, _3517963_37);
-Obj _3517965_37 = makeCons(co->gc, _3517900_37, _3517964_37);
-Obj _3517966_37 = primSet(co, getBinding(co, packageID, 122).name, _3517965_37);
-Obj _3517970_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3517973_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3517976_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3517981_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3518222_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun24, 3, 0));
-Obj _3518233_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj _3518244_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun28, 2, 0));
-Obj _3518305_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun35, 1, 0));
-Obj _3518480_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3518553_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun48, 2, 0));
-Obj _3518556_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3518693_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun58, 2, 0));
-Obj _3518716_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun61, 3, 0));
-Obj _3518793_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun65, 2, 0));
-Obj _3518824_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun69, 3, 0));
-Obj _3518830_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun72, 4, 0));
-Obj _3518835_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun74, 2, 0));
-Obj _3518844_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun76, 1, 0));
-Obj _3518895_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun78, 2, 0));
-Obj _3518903_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun79, 2, 0));
-Obj _3518910_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3518915_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun81, 2, 0));
-Obj _3518921_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun82, 3, 0));
-Obj _3518922_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3518929_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun85, 5, 0));
-Obj _3518936_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun87, 5, 0));
-Obj _3519223_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun100, 5, 0));
-Obj _3519237_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun102, 5, 0));
-Obj _3519259_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun104, 5, 0));
-Obj _3519261_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj _3519265_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun106, 2, 0));
-Obj _3519266_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun107, 2, 0));
-Obj _3519267_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj _3519268_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun109, 1, 0));
-Obj _3519269_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun110, 1, 0));
-Obj _3519276_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun111, 1, 0));
-Obj _3519283_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj g__03517883_037= co->res;
+Obj g__03517884_037 = primSet(co, getBinding(co, packageID, 130).name, Nil);
+Obj g__03517899_037 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj g__03517905_037 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj g__03517915_037 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj g__03517916_037 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj g__03517923_037 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj g__03517924_037 = makeCons(co->gc, makeString(co->gc, "primSet", 7), Nil);
+Obj g__03517925_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517924_037);
+Obj g__03517926_037 = makeCons(co->gc, getBinding(co, packageID, 122).name, g__03517925_037);
+Obj g__03517927_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CAR", 8), Nil);
+Obj g__03517928_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517927_037);
+Obj g__03517929_037 = makeCons(co->gc, getBinding(co, packageID, 121).name, g__03517928_037);
+Obj g__03517930_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CDR", 8), Nil);
+Obj g__03517931_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517930_037);
+Obj g__03517932_037 = makeCons(co->gc, getBinding(co, packageID, 120).name, g__03517931_037);
+Obj g__03517933_037 = makeCons(co->gc, makeString(co->gc, "makeCons", 8), Nil);
+Obj g__03517934_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517933_037);
+Obj g__03517935_037 = makeCons(co->gc, getBinding(co, packageID, 119).name, g__03517934_037);
+Obj g__03517936_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ISCONS", 11), Nil);
+Obj g__03517937_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517936_037);
+Obj g__03517938_037 = makeCons(co->gc, getBinding(co, packageID, 118).name, g__03517937_037);
+Obj g__03517939_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ADD", 8), Nil);
+Obj g__03517940_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517939_037);
+Obj g__03517941_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03517940_037);
+Obj g__03517942_037 = makeCons(co->gc, makeString(co->gc, "PRIM_SUB", 8), Nil);
+Obj g__03517943_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517942_037);
+Obj g__03517944_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03517943_037);
+Obj g__03517945_037 = makeCons(co->gc, makeString(co->gc, "PRIM_MUL", 8), Nil);
+Obj g__03517946_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517945_037);
+Obj g__03517947_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03517946_037);
+Obj g__03517948_037 = makeCons(co->gc, makeString(co->gc, "primDiv", 7), Nil);
+Obj g__03517949_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517948_037);
+Obj g__03517950_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03517949_037);
+Obj g__03517951_037 = makeCons(co->gc, makeString(co->gc, "PRIM_EQ", 7), Nil);
+Obj g__03517952_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517951_037);
+Obj g__03517953_037 = makeCons(co->gc, getBinding(co, packageID, 113).name, g__03517952_037);
+Obj g__03517954_037 = makeCons(co->gc, makeString(co->gc, "PRIM_GT", 7), Nil);
+Obj g__03517955_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517954_037);
+Obj g__03517956_037 = makeCons(co->gc, getBinding(co, packageID, 112).name, g__03517955_037);
+Obj g__03517957_037 = makeCons(co->gc, makeString(co->gc, "PRIM_LT", 7), Nil);
+Obj g__03517958_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517957_037);
+Obj g__03517959_037 = makeCons(co->gc, getBinding(co, packageID, 111).name, g__03517958_037);
+Obj g__03517960_037 = makeCons(co->gc, makeString(co->gc, "primGenSym", 10), Nil);
+Obj g__03517961_037 = makeCons(co->gc, MAKE_NUMBER(0), g__03517960_037);
+Obj g__03517962_037 = makeCons(co->gc, getBinding(co, packageID, 110).name, g__03517961_037);
+Obj g__03517963_037 = makeCons(co->gc, makeString(co->gc, "primIsSymbol", 12), Nil);
+Obj g__03517964_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517963_037);
+Obj g__03517965_037 = makeCons(co->gc, getBinding(co, packageID, 109).name, g__03517964_037);
+Obj g__03517966_037 = makeCons(co->gc, makeString(co->gc, "primNot", 7), Nil);
+Obj g__03517967_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517966_037);
+Obj g__03517968_037 = makeCons(co->gc, getBinding(co, packageID, 108).name, g__03517967_037);
+Obj g__03517969_037 = makeCons(co->gc, makeString(co->gc, "primIsNumber", 12), Nil);
+Obj g__03517970_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517969_037);
+Obj g__03517971_037 = makeCons(co->gc, getBinding(co, packageID, 107).name, g__03517970_037);
+Obj g__03517972_037 = makeCons(co->gc, makeString(co->gc, "primIsString", 12), Nil);
+Obj g__03517973_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517972_037);
+Obj g__03517974_037 = makeCons(co->gc, getBinding(co, packageID, 106).name, g__03517973_037);
+Obj g__03517975_037 = makeCons(co->gc, g__03517974_037, Nil);
+Obj g__03517976_037 = makeCons(co->gc, g__03517971_037, g__03517975_037);
+Obj g__03517977_037 = makeCons(co->gc, g__03517968_037, g__03517976_037);
+Obj g__03517978_037 = makeCons(co->gc, g__03517965_037, g__03517977_037);
+Obj g__03517979_037 = makeCons(co->gc, g__03517962_037, g__03517978_037);
+Obj g__03517980_037 = makeCons(co->gc, g__03517959_037, g__03517979_037);
+Obj g__03517981_037 = makeCons(co->gc, g__03517956_037, g__03517980_037);
+Obj g__03517982_037 = makeCons(co->gc, g__03517953_037, g__03517981_037);
+Obj g__03517983_037 = makeCons(co->gc, g__03517950_037, g__03517982_037);
+Obj g__03517984_037 = makeCons(co->gc, g__03517947_037, g__03517983_037);
+Obj g__03517985_037 = makeCons(co->gc, g__03517944_037, g__03517984_037);
+Obj g__03517986_037 = makeCons(co->gc, g__03517941_037, g__03517985_037);
+Obj g__03517987_037 = makeCons(co->gc, g__03517938_037, g__03517986_037);
+Obj g__03517988_037 = makeCons(co->gc, g__03517935_037, g__03517987_037);
+Obj g__03517989_037 = makeCons(co->gc, g__03517932_037, g__03517988_037);
+Obj g__03517990_037 = makeCons(co->gc, g__03517929_037, g__03517989_037);
+Obj g__03517991_037 = makeCons(co->gc, g__03517926_037, g__03517990_037);
+Obj g__03517992_037 = primSet(co, getBinding(co, packageID, 123).name, g__03517991_037);
+Obj g__03517996_037 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj g__03517999_037 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj g__03518002_037 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj g__03518007_037 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj g__03518248_037 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
+Obj g__03518259_037 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj g__03518270_037 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun28, 2, 0));
+Obj g__03518331_037 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun35, 1, 0));
+Obj g__03518506_037 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj g__03518579_037 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun48, 2, 0));
+Obj g__03518582_037 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj g__03518719_037 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun58, 2, 0));
+Obj g__03518742_037 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun61, 3, 0));
+Obj g__03518819_037 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun65, 2, 0));
+Obj g__03518850_037 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun69, 3, 0));
+Obj g__03518856_037 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun72, 4, 0));
+Obj g__03518861_037 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun74, 2, 0));
+Obj g__03518870_037 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun76, 1, 0));
+Obj g__03518921_037 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun78, 2, 0));
+Obj g__03518929_037 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj g__03518936_037 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj g__03518941_037 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun81, 2, 0));
+Obj g__03518947_037 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun82, 3, 0));
+Obj g__03518948_037 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj g__03518955_037 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj g__03518962_037 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun87, 5, 0));
+Obj g__03519252_037 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj g__03519266_037 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun102, 5, 0));
+Obj g__03519288_037 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun104, 5, 0));
+Obj g__03519290_037 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj g__03519294_037 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj g__03519295_037 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun107, 2, 0));
+Obj g__03519296_037 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj g__03519297_037 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj g__03519298_037 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj g__03519305_037 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun111, 1, 0));
+Obj g__03519312_037 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun112, 2, 0));
 saveCont(co, clofun148, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun113, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3517856_37= co->res;
+Obj g__03517882_037= co->res;
 saveCont(co, clofun148, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeString(co->gc, "cora/lib/hash-h", 15));
 return;
 }
 case 4:
 {
-Obj _3517855_37= co->res;
+Obj g__03517881_037= co->res;
 saveCont(co, clofun148, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeString(co->gc, "cora/lib/io", 11));
 return;
 }
 }
@@ -459,96 +460,96 @@ static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj from = R[1];
-Obj to = R[2];
-Obj _3519511_37 = primGenSym(co);
-Obj _3517852_37 = _3519511_37;
-Obj _3519512_37 = primSet(co, _3517852_37, Nil);
-R[1] = from;
-R[2] = to;
-R[3] = _3517852_37;
+Obj v_from = R[1];
+Obj v_to = R[2];
+Obj g__03519541_037 = primGenSym(co);
+Obj g__03517878_037 = g__03519541_037;
+Obj g__03519542_037 = primSet(co, g__03517878_037, Nil);
+R[1] = v_from;
+R[2] = v_to;
+R[3] = g__03517878_037;
 saveCont(co, clofun147, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), _3517852_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), g__03517878_037);
 return;
 }
 case 1:
 {
-Obj _3519519_37= co->res;
-Obj _3517854_37 = R[1];
+Obj g__03519549_037= co->res;
+Obj g__03517880_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), _3517854_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), g__03517880_037);
 return;
 }
 case 2:
 {
-Obj _3519518_37= co->res;
-Obj _3517853_37 = R[1];
-Obj _3517854_37 = R[2];
-R[1] = _3517854_37;
+Obj g__03519548_037= co->res;
+Obj g__03517879_037 = R[1];
+Obj g__03517880_037 = R[2];
+R[1] = g__03517880_037;
 saveCont(co, clofun147, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), _3517854_37, _3517853_37, _3519518_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), g__03517880_037, g__03517879_037, g__03519548_037);
 return;
 }
 case 3:
 {
-Obj _3519517_37= co->res;
-Obj _3517852_37 = R[1];
-Obj _3517853_37 = R[2];
-Obj _3517854_37 = _3519517_37;
-R[1] = _3517853_37;
-R[2] = _3517854_37;
+Obj g__03519547_037= co->res;
+Obj g__03517878_037 = R[1];
+Obj g__03517879_037 = R[2];
+Obj g__03517880_037 = g__03519547_037;
+R[1] = g__03517879_037;
+R[2] = g__03517880_037;
 saveCont(co, clofun147, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517852_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517878_037);
 return;
 }
 case 4:
 {
-Obj _3519516_37= co->res;
-Obj to = R[1];
-Obj _3517852_37 = R[2];
-Obj _3517853_37 = _3519516_37;
-R[1] = _3517852_37;
-R[2] = _3517853_37;
+Obj g__03519546_037= co->res;
+Obj v_to = R[1];
+Obj g__03517878_037 = R[2];
+Obj g__03517879_037 = g__03519546_037;
+R[1] = g__03517878_037;
+R[2] = g__03517879_037;
 saveCont(co, clofun147, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj _3519515_37= co->res;
-Obj _3519513_37 = R[1];
-Obj to = R[2];
-Obj _3517852_37 = R[3];
-R[1] = to;
-R[2] = _3517852_37;
+Obj g__03519545_037= co->res;
+Obj g__03519543_037 = R[1];
+Obj v_to = R[2];
+Obj g__03517878_037 = R[3];
+R[1] = v_to;
+R[2] = g__03517878_037;
 saveCont(co, clofun147, 4, R);
-coraCall1(co, _3519513_37, _3519515_37);
+coraCall1(co, g__03519543_037, g__03519545_037);
 return;
 }
 case 6:
 {
-Obj _3519514_37= co->res;
-Obj _3519513_37 = R[1];
-Obj to = R[2];
-Obj _3517852_37 = R[3];
-R[1] = _3519513_37;
-R[2] = to;
-R[3] = _3517852_37;
+Obj g__03519544_037= co->res;
+Obj g__03519543_037 = R[1];
+Obj v_to = R[2];
+Obj g__03517878_037 = R[3];
+R[1] = g__03519543_037;
+R[2] = v_to;
+R[3] = g__03517878_037;
 saveCont(co, clofun147, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3519514_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), g__03519544_037);
 return;
 }
 case 7:
 {
-Obj _3519513_37= co->res;
-Obj from = R[1];
-Obj to = R[2];
-Obj _3517852_37 = R[3];
-R[1] = _3519513_37;
-R[2] = to;
-R[3] = _3517852_37;
+Obj g__03519543_037= co->res;
+Obj v_from = R[1];
+Obj v_to = R[2];
+Obj g__03517878_037 = R[3];
+R[1] = g__03519543_037;
+R[2] = v_to;
+R[3] = g__03517878_037;
 saveCont(co, clofun147, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
@@ -558,97 +559,97 @@ static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj file_45path = R[1];
+Obj v_file_045path = R[1];
 saveCont(co, clofun146, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_045path);
 return;
 }
 case 1:
 {
-Obj _3519505_37= co->res;
-Obj _3517848_37 = R[1];
+Obj g__03519535_037= co->res;
+Obj g__03517874_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517874_037);
 return;
 }
 case 2:
 {
-Obj _3519504_37= co->res;
-Obj _3517848_37 = R[1];
-R[1] = _3517848_37;
+Obj g__03519534_037= co->res;
+Obj g__03517874_037 = R[1];
+R[1] = g__03517874_037;
 saveCont(co, clofun146, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517874_037);
 return;
 }
 case 3:
 {
-Obj _3519507_37= co->res;
-Obj _3517848_37 = R[1];
+Obj g__03519537_037= co->res;
+Obj g__03517874_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517874_037);
 return;
 }
 case 4:
 {
-Obj _3519506_37= co->res;
-Obj _3517848_37 = R[1];
-R[1] = _3517848_37;
+Obj g__03519536_037= co->res;
+Obj g__03517874_037 = R[1];
+R[1] = g__03517874_037;
 saveCont(co, clofun146, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517874_037);
 return;
 }
 case 5:
 {
-Obj _3519509_37= co->res;
-Obj _3517848_37 = R[1];
+Obj g__03519539_037= co->res;
+Obj g__03517874_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517874_037);
 return;
 }
 case 6:
 {
-Obj _3519508_37= co->res;
-Obj _3517848_37 = R[1];
-R[1] = _3517848_37;
+Obj g__03519538_037= co->res;
+Obj g__03517874_037 = R[1];
+R[1] = g__03517874_037;
 saveCont(co, clofun146, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517874_037);
 return;
 }
 case 7:
 {
-Obj _3519501_37= co->res;
-Obj _3517851_37 = R[1];
-Obj _3517848_37 = R[2];
-if (True == _3519501_37) {
-Obj _3519502_37 = PRIM_CAR(_3517848_37);
-Obj _3519503_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519502_37);
-if (True == _3519503_37) {
-R[1] = _3517848_37;
+Obj g__03519531_037= co->res;
+Obj g__03517877_037 = R[1];
+Obj g__03517874_037 = R[2];
+if (True == g__03519531_037) {
+Obj g__03519532_037 = PRIM_CAR(g__03517874_037);
+Obj g__03519533_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519532_037);
+if (True == g__03519533_037) {
+R[1] = g__03517874_037;
 saveCont(co, clofun146, 2, R);
-coraCall1(co, _3517851_37, True);
+coraCall1(co, g__03517877_037, True);
 return;
 } else {
-R[1] = _3517848_37;
+R[1] = g__03517874_037;
 saveCont(co, clofun146, 4, R);
-coraCall1(co, _3517851_37, False);
+coraCall1(co, g__03517877_037, False);
 return;
 }
 } else {
-R[1] = _3517848_37;
+R[1] = g__03517874_037;
 saveCont(co, clofun146, 6, R);
-coraCall1(co, _3517851_37, False);
+coraCall1(co, g__03517877_037, False);
 return;
 }
 }
 case 8:
 {
-Obj _3519498_37= co->res;
-Obj _3517848_37 = _3519498_37;
-Obj _3517851_37 = makeNative(co->gc, 2, clofun145, 1, 1, _3517848_37);
-R[1] = _3517851_37;
-R[2] = _3517848_37;
+Obj g__03519528_037= co->res;
+Obj g__03517874_037 = g__03519528_037;
+Obj g__03517877_037 = makeNative(co->gc, 2, clofun145, 1, 1, g__03517874_037);
+R[1] = g__03517877_037;
+R[2] = g__03517874_037;
 saveCont(co, clofun146, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517848_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), g__03517874_037);
 return;
 }
 }
@@ -658,14 +659,14 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517850_37 = R[1];
-if (True == _3517850_37) {
-Obj _3519499_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3519499_37);
+Obj g__03517876_037 = R[1];
+if (True == g__03517876_037) {
+Obj g__03519529_037 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, g__03519529_037);
 return;
 } else {
-Obj _3519500_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3519500_37);
+Obj g__03519530_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, g__03519530_037);
 return;
 }
 }
@@ -676,27 +677,27 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517577_37 = R[1];
-Obj _3517844_37 = makeNative(co->gc, 1, clofun141, 0, 1, _3517577_37);
-Obj _3519491_37 = PRIM_ISCONS(_3517577_37);
-if (True == _3519491_37) {
-Obj _3519492_37 = PRIM_CAR(_3517577_37);
-Obj _3519493_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519492_37);
-if (True == _3519493_37) {
-Obj _3519494_37 = PRIM_CDR(_3517577_37);
-Obj _3517847_37 = _3519494_37;
-Obj _3519495_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3517847_37);
+Obj g__03517603_037 = R[1];
+Obj g__03517870_037 = makeNative(co->gc, 1, clofun141, 0, 1, g__03517603_037);
+Obj g__03519521_037 = PRIM_ISCONS(g__03517603_037);
+if (True == g__03519521_037) {
+Obj g__03519522_037 = PRIM_CAR(g__03517603_037);
+Obj g__03519523_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519522_037);
+if (True == g__03519523_037) {
+Obj g__03519524_037 = PRIM_CDR(g__03517603_037);
+Obj g__03517873_037 = g__03519524_037;
+Obj g__03519525_037 = makeCons(co->gc, getBinding(co, packageID, 18).name, g__03517873_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519495_37, makeNative(co->gc, 2, clofun143, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03519525_037, makeNative(co->gc, 2, clofun143, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517844_37);
+coraCall0(co, g__03517870_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517844_37);
+coraCall0(co, g__03517870_037);
 return;
 }
 }
@@ -707,9 +708,9 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun142, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun142, 2, 0));
 return;
 }
 }
@@ -719,10 +720,10 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 }
@@ -732,26 +733,26 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517845_37 = makeNative(co->gc, 1, clofun138, 0, 1, closureRef(R[0], 0));
-Obj _3519486_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519486_37) {
-Obj _3519487_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519488_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519487_37);
-if (True == _3519488_37) {
-Obj _3519489_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517846_37 = _3519489_37;
-Obj _3519490_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517846_37);
+Obj g__03517871_037 = makeNative(co->gc, 1, clofun138, 0, 1, closureRef(R[0], 0));
+Obj g__03519516_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519516_037) {
+Obj g__03519517_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519518_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519517_037);
+if (True == g__03519518_037) {
+Obj g__03519519_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517872_037 = g__03519519_037;
+Obj g__03519520_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03517872_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519490_37, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03519520_037, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517845_37);
+coraCall0(co, g__03517871_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517845_37);
+coraCall0(co, g__03517871_037);
 return;
 }
 }
@@ -762,9 +763,9 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
@@ -774,10 +775,10 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 }
@@ -787,9 +788,9 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3519483_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03519513_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3519483_37, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03519513_037, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
 return;
 }
 }
@@ -799,17 +800,17 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 saveCont(co, clofun137, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj _3519484_37= co->res;
-Obj _3519485_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519484_37);
-coraReturn(co, _3519485_37);
+Obj g__03519514_037= co->res;
+Obj g__03519515_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03519514_037);
+coraReturn(co, g__03519515_037);
 return;
 }
 }
@@ -819,14 +820,14 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), v_type, v_code);
 return;
 } else {
-coraReturn(co, code);
+coraReturn(co, v_code);
 return;
 }
 }
@@ -837,50 +838,50 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517570_37 = R[1];
-Obj _3517571_37 = R[2];
-Obj _3517833_37 = makeNative(co->gc, 2, clofun134, 0, 2, _3517570_37, _3517571_37);
-Obj _3519469_37 = PRIM_ISCONS(_3517570_37);
-if (True == _3519469_37) {
-Obj _3519470_37 = PRIM_CAR(_3517570_37);
-Obj _3519471_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519470_37);
-if (True == _3519471_37) {
-Obj _3519472_37 = PRIM_CDR(_3517570_37);
-Obj _3519473_37 = PRIM_ISCONS(_3519472_37);
-if (True == _3519473_37) {
-Obj _3519474_37 = PRIM_CDR(_3517570_37);
-Obj _3519475_37 = PRIM_CAR(_3519474_37);
-Obj _3517842_37 = _3519475_37;
-Obj _3519476_37 = PRIM_CDR(_3517570_37);
-Obj _3519477_37 = PRIM_CDR(_3519476_37);
-Obj _3517843_37 = _3519477_37;
-R[1] = _3517842_37;
+Obj g__03517596_037 = R[1];
+Obj g__03517597_037 = R[2];
+Obj g__03517859_037 = makeNative(co->gc, 2, clofun134, 0, 2, g__03517596_037, g__03517597_037);
+Obj g__03519499_037 = PRIM_ISCONS(g__03517596_037);
+if (True == g__03519499_037) {
+Obj g__03519500_037 = PRIM_CAR(g__03517596_037);
+Obj g__03519501_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519500_037);
+if (True == g__03519501_037) {
+Obj g__03519502_037 = PRIM_CDR(g__03517596_037);
+Obj g__03519503_037 = PRIM_ISCONS(g__03519502_037);
+if (True == g__03519503_037) {
+Obj g__03519504_037 = PRIM_CDR(g__03517596_037);
+Obj g__03519505_037 = PRIM_CAR(g__03519504_037);
+Obj g__03517868_037 = g__03519505_037;
+Obj g__03519506_037 = PRIM_CDR(g__03517596_037);
+Obj g__03519507_037 = PRIM_CDR(g__03519506_037);
+Obj g__03517869_037 = g__03519507_037;
+R[1] = g__03517868_037;
 saveCont(co, clofun135, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517843_37, _3517571_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517869_037, g__03517597_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517833_37);
+coraCall0(co, g__03517859_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517833_37);
+coraCall0(co, g__03517859_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517833_37);
+coraCall0(co, g__03517859_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519478_37= co->res;
-Obj _3517842_37 = R[1];
-Obj _3519479_37 = makeCons(co->gc, _3517842_37, _3519478_37);
-Obj _3519480_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3519479_37);
-coraReturn(co, _3519480_37);
+Obj g__03519508_037= co->res;
+Obj g__03517868_037 = R[1];
+Obj g__03519509_037 = makeCons(co->gc, g__03517868_037, g__03519508_037);
+Obj g__03519510_037 = makeCons(co->gc, getBinding(co, packageID, 18).name, g__03519509_037);
+coraReturn(co, g__03519510_037);
 return;
 }
 }
@@ -890,69 +891,69 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517834_37 = makeNative(co->gc, 2, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3519448_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519448_37) {
-Obj _3519449_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519450_37 = PRIM_ISCONS(_3519449_37);
-if (True == _3519450_37) {
-Obj _3519451_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519452_37 = PRIM_CAR(_3519451_37);
-Obj _3519453_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519452_37);
-if (True == _3519453_37) {
-Obj _3519454_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519455_37 = PRIM_CDR(_3519454_37);
-Obj _3519456_37 = PRIM_ISCONS(_3519455_37);
-if (True == _3519456_37) {
-Obj _3519457_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519458_37 = PRIM_CDR(_3519457_37);
-Obj _3519459_37 = PRIM_CAR(_3519458_37);
-Obj _3517840_37 = _3519459_37;
-Obj _3519460_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519461_37 = PRIM_CDR(_3519460_37);
-Obj _3519462_37 = PRIM_CDR(_3519461_37);
-Obj _3519463_37 = PRIM_EQ(Nil, _3519462_37);
-if (True == _3519463_37) {
-Obj _3519464_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517841_37 = _3519464_37;
-Obj _3519465_37 = makeCons(co->gc, _3517840_37, Nil);
-Obj _3519466_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3519465_37);
-R[1] = _3519466_37;
+Obj g__03517860_037 = makeNative(co->gc, 2, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03519478_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519478_037) {
+Obj g__03519479_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519480_037 = PRIM_ISCONS(g__03519479_037);
+if (True == g__03519480_037) {
+Obj g__03519481_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519482_037 = PRIM_CAR(g__03519481_037);
+Obj g__03519483_037 = PRIM_EQ(getBinding(co, packageID, 21).name, g__03519482_037);
+if (True == g__03519483_037) {
+Obj g__03519484_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519485_037 = PRIM_CDR(g__03519484_037);
+Obj g__03519486_037 = PRIM_ISCONS(g__03519485_037);
+if (True == g__03519486_037) {
+Obj g__03519487_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519488_037 = PRIM_CDR(g__03519487_037);
+Obj g__03519489_037 = PRIM_CAR(g__03519488_037);
+Obj g__03517866_037 = g__03519489_037;
+Obj g__03519490_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519491_037 = PRIM_CDR(g__03519490_037);
+Obj g__03519492_037 = PRIM_CDR(g__03519491_037);
+Obj g__03519493_037 = PRIM_EQ(Nil, g__03519492_037);
+if (True == g__03519493_037) {
+Obj g__03519494_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517867_037 = g__03519494_037;
+Obj g__03519495_037 = makeCons(co->gc, g__03517866_037, Nil);
+Obj g__03519496_037 = makeCons(co->gc, getBinding(co, packageID, 21).name, g__03519495_037);
+R[1] = g__03519496_037;
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517841_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517867_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517834_37);
+coraCall0(co, g__03517860_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517834_37);
+coraCall0(co, g__03517860_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517834_37);
+coraCall0(co, g__03517860_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517834_37);
+coraCall0(co, g__03517860_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517834_37);
+coraCall0(co, g__03517860_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519467_37= co->res;
-Obj _3519466_37 = R[1];
-Obj _3519468_37 = makeCons(co->gc, _3519466_37, _3519467_37);
-coraReturn(co, _3519468_37);
+Obj g__03519497_037= co->res;
+Obj g__03519496_037 = R[1];
+Obj g__03519498_037 = makeCons(co->gc, g__03519496_037, g__03519497_037);
+coraReturn(co, g__03519498_037);
 return;
 }
 }
@@ -962,48 +963,48 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517835_37 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3519436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519436_37) {
-Obj _3519437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519438_37 = PRIM_ISCONS(_3519437_37);
-if (True == _3519438_37) {
-Obj _3519439_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519440_37 = PRIM_CAR(_3519439_37);
-Obj _3519441_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519440_37);
-if (True == _3519441_37) {
-Obj _3519442_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519443_37 = PRIM_CDR(_3519442_37);
-Obj _3517838_37 = _3519443_37;
-Obj _3519444_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517839_37 = _3519444_37;
-Obj _3519445_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3517838_37);
-R[1] = _3519445_37;
+Obj g__03517861_037 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03519466_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519466_037) {
+Obj g__03519467_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519468_037 = PRIM_ISCONS(g__03519467_037);
+if (True == g__03519468_037) {
+Obj g__03519469_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519470_037 = PRIM_CAR(g__03519469_037);
+Obj g__03519471_037 = PRIM_EQ(getBinding(co, packageID, 20).name, g__03519470_037);
+if (True == g__03519471_037) {
+Obj g__03519472_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519473_037 = PRIM_CDR(g__03519472_037);
+Obj g__03517864_037 = g__03519473_037;
+Obj g__03519474_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517865_037 = g__03519474_037;
+Obj g__03519475_037 = makeCons(co->gc, getBinding(co, packageID, 20).name, g__03517864_037);
+R[1] = g__03519475_037;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517839_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517865_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517835_37);
+coraCall0(co, g__03517861_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517835_37);
+coraCall0(co, g__03517861_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517835_37);
+coraCall0(co, g__03517861_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519446_37= co->res;
-Obj _3519445_37 = R[1];
-Obj _3519447_37 = makeCons(co->gc, _3519445_37, _3519446_37);
-coraReturn(co, _3519447_37);
+Obj g__03519476_037= co->res;
+Obj g__03519475_037 = R[1];
+Obj g__03519477_037 = makeCons(co->gc, g__03519475_037, g__03519476_037);
+coraReturn(co, g__03519477_037);
 return;
 }
 }
@@ -1013,33 +1014,33 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517836_37 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3519430_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519430_37) {
-Obj _3519431_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519432_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519431_37);
-if (True == _3519432_37) {
-Obj _3519433_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517837_37 = _3519433_37;
+Obj g__03517862_037 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj g__03519460_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519460_037) {
+Obj g__03519461_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519462_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519461_037);
+if (True == g__03519462_037) {
+Obj g__03519463_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517863_037 = g__03519463_037;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517837_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517863_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517836_37);
+coraCall0(co, g__03517862_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517836_37);
+coraCall0(co, g__03517862_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519434_37= co->res;
-Obj _3519435_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519434_37);
-coraReturn(co, _3519435_37);
+Obj g__03519464_037= co->res;
+Obj g__03519465_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03519464_037);
+coraReturn(co, g__03519465_037);
 return;
 }
 }
@@ -1060,73 +1061,73 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517562_37 = R[1];
-Obj _3517563_37 = R[2];
-Obj _3517564_37 = R[3];
-Obj _3517565_37 = R[4];
-Obj _3519391_37 = PRIM_EQ(Nil, _3517562_37);
-if (True == _3519391_37) {
-R[1] = _3517564_37;
-R[2] = _3517565_37;
+Obj g__03517588_037 = R[1];
+Obj g__03517589_037 = R[2];
+Obj g__03517590_037 = R[3];
+Obj g__03517591_037 = R[4];
+Obj g__03519421_037 = PRIM_EQ(Nil, g__03517588_037);
+if (True == g__03519421_037) {
+R[1] = g__03517590_037;
+R[2] = g__03517591_037;
 saveCont(co, clofun130, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517563_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517589_037);
 return;
 } else {
-Obj _3517825_37 = makeNative(co->gc, 1, clofun129, 0, 4, _3517562_37, _3517563_37, _3517564_37, _3517565_37);
-Obj _3519418_37 = PRIM_ISCONS(_3517562_37);
-if (True == _3519418_37) {
-Obj _3519419_37 = PRIM_CAR(_3517562_37);
-Obj _3519420_37 = PRIM_ISCONS(_3519419_37);
-if (True == _3519420_37) {
-Obj _3519421_37 = PRIM_CAR(_3517562_37);
-Obj _3519422_37 = PRIM_CAR(_3519421_37);
-Obj _3519423_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3519422_37);
-if (True == _3519423_37) {
-Obj _3519424_37 = PRIM_CAR(_3517562_37);
-Obj _3519425_37 = PRIM_CDR(_3519424_37);
-Obj _3517831_37 = _3519425_37;
-Obj _3519426_37 = PRIM_CDR(_3517562_37);
-Obj _3517832_37 = _3519426_37;
-Obj _3519427_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517831_37);
-Obj _3519428_37 = makeCons(co->gc, _3519427_37, _3517563_37);
+Obj g__03517851_037 = makeNative(co->gc, 1, clofun129, 0, 4, g__03517588_037, g__03517589_037, g__03517590_037, g__03517591_037);
+Obj g__03519448_037 = PRIM_ISCONS(g__03517588_037);
+if (True == g__03519448_037) {
+Obj g__03519449_037 = PRIM_CAR(g__03517588_037);
+Obj g__03519450_037 = PRIM_ISCONS(g__03519449_037);
+if (True == g__03519450_037) {
+Obj g__03519451_037 = PRIM_CAR(g__03517588_037);
+Obj g__03519452_037 = PRIM_CAR(g__03519451_037);
+Obj g__03519453_037 = PRIM_EQ(getBinding(co, packageID, 10).name, g__03519452_037);
+if (True == g__03519453_037) {
+Obj g__03519454_037 = PRIM_CAR(g__03517588_037);
+Obj g__03519455_037 = PRIM_CDR(g__03519454_037);
+Obj g__03517857_037 = g__03519455_037;
+Obj g__03519456_037 = PRIM_CDR(g__03517588_037);
+Obj g__03517858_037 = g__03519456_037;
+Obj g__03519457_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03517857_037);
+Obj g__03519458_037 = makeCons(co->gc, g__03519457_037, g__03517589_037);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517832_37, _3519428_37, _3517564_37, _3517565_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517858_037, g__03519458_037, g__03517590_037, g__03517591_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517825_37);
+coraCall0(co, g__03517851_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517825_37);
+coraCall0(co, g__03517851_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517825_37);
+coraCall0(co, g__03517851_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3519393_37= co->res;
-Obj _3517565_37 = R[1];
-Obj _3519392_37 = R[2];
+Obj g__03519423_037= co->res;
+Obj g__03517591_037 = R[1];
+Obj g__03519422_037 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3517565_37, _3519392_37, _3519393_37);
+coraCall2(co, g__03517591_037, g__03519422_037, g__03519423_037);
 return;
 }
 case 2:
 {
-Obj _3519392_37= co->res;
-Obj _3517564_37 = R[1];
-Obj _3517565_37 = R[2];
-R[1] = _3517565_37;
-R[2] = _3519392_37;
+Obj g__03519422_037= co->res;
+Obj g__03517590_037 = R[1];
+Obj g__03517591_037 = R[2];
+R[1] = g__03517591_037;
+R[2] = g__03519422_037;
 saveCont(co, clofun130, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517564_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517590_037);
 return;
 }
 }
@@ -1136,39 +1137,39 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517826_37 = makeNative(co->gc, 1, clofun128, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3519407_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519407_37) {
-Obj _3519408_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519409_37 = PRIM_ISCONS(_3519408_37);
-if (True == _3519409_37) {
-Obj _3519410_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519411_37 = PRIM_CAR(_3519410_37);
-Obj _3519412_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3519411_37);
-if (True == _3519412_37) {
-Obj _3519413_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519414_37 = PRIM_CDR(_3519413_37);
-Obj _3517829_37 = _3519414_37;
-Obj _3519415_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517830_37 = _3519415_37;
-Obj _3519416_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, _3517829_37);
-Obj _3519417_37 = makeCons(co->gc, _3519416_37, closureRef(R[0], 1));
+Obj g__03517852_037 = makeNative(co->gc, 1, clofun128, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03519437_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519437_037) {
+Obj g__03519438_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519439_037 = PRIM_ISCONS(g__03519438_037);
+if (True == g__03519439_037) {
+Obj g__03519440_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519441_037 = PRIM_CAR(g__03519440_037);
+Obj g__03519442_037 = PRIM_EQ(getBinding(co, packageID, 12).name, g__03519441_037);
+if (True == g__03519442_037) {
+Obj g__03519443_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519444_037 = PRIM_CDR(g__03519443_037);
+Obj g__03517855_037 = g__03519444_037;
+Obj g__03519445_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517856_037 = g__03519445_037;
+Obj g__03519446_037 = makeCons(co->gc, getBinding(co, packageID, 11).name, g__03517855_037);
+Obj g__03519447_037 = makeCons(co->gc, g__03519446_037, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517830_37, _3519417_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517856_037, g__03519447_037, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517826_37);
+coraCall0(co, g__03517852_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517826_37);
+coraCall0(co, g__03517852_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517826_37);
+coraCall0(co, g__03517852_037);
 return;
 }
 }
@@ -1179,28 +1180,28 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3519394_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519394_37) {
-Obj _3519395_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517827_37 = _3519395_37;
-Obj _3519396_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517828_37 = _3519396_37;
-Obj _3519397_37 = makeCons(co->gc, _3517827_37, Nil);
-Obj _3519398_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3519397_37);
-Obj _3519399_37 = makeCons(co->gc, _3519398_37, Nil);
-Obj _3519400_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3519399_37);
-Obj _3519401_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3519402_37 = makeCons(co->gc, _3519401_37, Nil);
-Obj _3519403_37 = makeCons(co->gc, _3519400_37, _3519402_37);
-Obj _3519404_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3519403_37);
-Obj _3519405_37 = makeCons(co->gc, _3519404_37, closureRef(R[0], 1));
-Obj _3519406_37 = makeCons(co->gc, _3517827_37, closureRef(R[0], 2));
+Obj g__03519424_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519424_037) {
+Obj g__03519425_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517853_037 = g__03519425_037;
+Obj g__03519426_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517854_037 = g__03519426_037;
+Obj g__03519427_037 = makeCons(co->gc, g__03517853_037, Nil);
+Obj g__03519428_037 = makeCons(co->gc, getBinding(co, packageID, 14).name, g__03519427_037);
+Obj g__03519429_037 = makeCons(co->gc, g__03519428_037, Nil);
+Obj g__03519430_037 = makeCons(co->gc, getBinding(co, packageID, 15).name, g__03519429_037);
+Obj g__03519431_037 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj g__03519432_037 = makeCons(co->gc, g__03519431_037, Nil);
+Obj g__03519433_037 = makeCons(co->gc, g__03519430_037, g__03519432_037);
+Obj g__03519434_037 = makeCons(co->gc, getBinding(co, packageID, 16).name, g__03519433_037);
+Obj g__03519435_037 = makeCons(co->gc, g__03519434_037, closureRef(R[0], 1));
+Obj g__03519436_037 = makeCons(co->gc, g__03517853_037, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517828_37, _3519405_37, _3519406_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517854_037, g__03519435_037, g__03519436_037, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -1211,37 +1212,37 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517556_37 = R[1];
-Obj _3517816_37 = makeNative(co->gc, 1, clofun126, 0, 1, _3517556_37);
-Obj _3519381_37 = PRIM_ISCONS(_3517556_37);
-if (True == _3519381_37) {
-Obj _3519382_37 = PRIM_CAR(_3517556_37);
-Obj _3519383_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519382_37);
-if (True == _3519383_37) {
-Obj _3519384_37 = PRIM_CDR(_3517556_37);
-Obj _3519385_37 = PRIM_ISCONS(_3519384_37);
-if (True == _3519385_37) {
-Obj _3519386_37 = PRIM_CDR(_3517556_37);
-Obj _3519387_37 = PRIM_CAR(_3519386_37);
-Obj _3519388_37 = PRIM_CDR(_3517556_37);
-Obj _3519389_37 = PRIM_CDR(_3519388_37);
-Obj _3517824_37 = _3519389_37;
+Obj g__03517582_037 = R[1];
+Obj g__03517842_037 = makeNative(co->gc, 1, clofun126, 0, 1, g__03517582_037);
+Obj g__03519411_037 = PRIM_ISCONS(g__03517582_037);
+if (True == g__03519411_037) {
+Obj g__03519412_037 = PRIM_CAR(g__03517582_037);
+Obj g__03519413_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519412_037);
+if (True == g__03519413_037) {
+Obj g__03519414_037 = PRIM_CDR(g__03517582_037);
+Obj g__03519415_037 = PRIM_ISCONS(g__03519414_037);
+if (True == g__03519415_037) {
+Obj g__03519416_037 = PRIM_CDR(g__03517582_037);
+Obj g__03519417_037 = PRIM_CAR(g__03519416_037);
+Obj g__03519418_037 = PRIM_CDR(g__03517582_037);
+Obj g__03519419_037 = PRIM_CDR(g__03519418_037);
+Obj g__03517850_037 = g__03519419_037;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517824_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517850_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517816_37);
+coraCall0(co, g__03517842_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517816_37);
+coraCall0(co, g__03517842_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517816_37);
+coraCall0(co, g__03517842_037);
 return;
 }
 }
@@ -1252,25 +1253,25 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517817_37 = makeNative(co->gc, 1, clofun125, 0, 1, closureRef(R[0], 0));
-Obj _3519377_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519377_37) {
-Obj _3519378_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519379_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519378_37);
-if (True == _3519379_37) {
-Obj _3519380_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517823_37 = _3519380_37;
+Obj g__03517843_037 = makeNative(co->gc, 1, clofun125, 0, 1, closureRef(R[0], 0));
+Obj g__03519407_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519407_037) {
+Obj g__03519408_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519409_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519408_037);
+if (True == g__03519409_037) {
+Obj g__03519410_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517849_037 = g__03519410_037;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517823_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517849_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517817_37);
+coraCall0(co, g__03517843_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517817_37);
+coraCall0(co, g__03517843_037);
 return;
 }
 }
@@ -1281,36 +1282,36 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517818_37 = makeNative(co->gc, 2, clofun124, 0, 1, closureRef(R[0], 0));
-Obj _3519368_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519368_37) {
-Obj _3519369_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519370_37 = PRIM_ISCONS(_3519369_37);
-if (True == _3519370_37) {
-Obj _3519371_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519372_37 = PRIM_CAR(_3519371_37);
-Obj _3519373_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519372_37);
-if (True == _3519373_37) {
-Obj _3519374_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519375_37 = PRIM_CDR(_3519374_37);
-Obj _3519376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517822_37 = _3519376_37;
+Obj g__03517844_037 = makeNative(co->gc, 2, clofun124, 0, 1, closureRef(R[0], 0));
+Obj g__03519398_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519398_037) {
+Obj g__03519399_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519400_037 = PRIM_ISCONS(g__03519399_037);
+if (True == g__03519400_037) {
+Obj g__03519401_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519402_037 = PRIM_CAR(g__03519401_037);
+Obj g__03519403_037 = PRIM_EQ(getBinding(co, packageID, 20).name, g__03519402_037);
+if (True == g__03519403_037) {
+Obj g__03519404_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519405_037 = PRIM_CDR(g__03519404_037);
+Obj g__03519406_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517848_037 = g__03519406_037;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517822_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517848_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517818_37);
+coraCall0(co, g__03517844_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517818_37);
+coraCall0(co, g__03517844_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517818_37);
+coraCall0(co, g__03517844_037);
 return;
 }
 }
@@ -1321,67 +1322,67 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517819_37 = makeNative(co->gc, 1, clofun123, 0, 0);
-Obj _3519350_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519350_37) {
-Obj _3519351_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519352_37 = PRIM_ISCONS(_3519351_37);
-if (True == _3519352_37) {
-Obj _3519353_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519354_37 = PRIM_CAR(_3519353_37);
-Obj _3519355_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519354_37);
-if (True == _3519355_37) {
-Obj _3519356_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519357_37 = PRIM_CDR(_3519356_37);
-Obj _3519358_37 = PRIM_ISCONS(_3519357_37);
-if (True == _3519358_37) {
-Obj _3519359_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519360_37 = PRIM_CDR(_3519359_37);
-Obj _3519361_37 = PRIM_CAR(_3519360_37);
-Obj _3517820_37 = _3519361_37;
-Obj _3519362_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519363_37 = PRIM_CDR(_3519362_37);
-Obj _3519364_37 = PRIM_CDR(_3519363_37);
-Obj _3519365_37 = PRIM_EQ(Nil, _3519364_37);
-if (True == _3519365_37) {
-Obj _3519366_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517821_37 = _3519366_37;
-R[1] = _3517821_37;
+Obj g__03517845_037 = makeNative(co->gc, 1, clofun123, 0, 0);
+Obj g__03519380_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519380_037) {
+Obj g__03519381_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519382_037 = PRIM_ISCONS(g__03519381_037);
+if (True == g__03519382_037) {
+Obj g__03519383_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519384_037 = PRIM_CAR(g__03519383_037);
+Obj g__03519385_037 = PRIM_EQ(getBinding(co, packageID, 21).name, g__03519384_037);
+if (True == g__03519385_037) {
+Obj g__03519386_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519387_037 = PRIM_CDR(g__03519386_037);
+Obj g__03519388_037 = PRIM_ISCONS(g__03519387_037);
+if (True == g__03519388_037) {
+Obj g__03519389_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519390_037 = PRIM_CDR(g__03519389_037);
+Obj g__03519391_037 = PRIM_CAR(g__03519390_037);
+Obj g__03517846_037 = g__03519391_037;
+Obj g__03519392_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519393_037 = PRIM_CDR(g__03519392_037);
+Obj g__03519394_037 = PRIM_CDR(g__03519393_037);
+Obj g__03519395_037 = PRIM_EQ(Nil, g__03519394_037);
+if (True == g__03519395_037) {
+Obj g__03519396_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517847_037 = g__03519396_037;
+R[1] = g__03517847_037;
 saveCont(co, clofun124, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3517820_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03517846_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517819_37);
+coraCall0(co, g__03517845_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517819_37);
+coraCall0(co, g__03517845_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517819_37);
+coraCall0(co, g__03517845_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517819_37);
+coraCall0(co, g__03517845_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517819_37);
+coraCall0(co, g__03517845_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519367_37= co->res;
-Obj _3517821_37 = R[1];
+Obj g__03519397_037= co->res;
+Obj g__03517847_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517821_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517847_037);
 return;
 }
 }
@@ -1401,102 +1402,102 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj bc = R[2];
-Obj globals = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_to = R[1];
+Obj v_bc = R[2];
+Obj v_globals = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "#include \"types.h\"\n", 19));
 return;
 }
 case 1:
 {
-Obj _3519348_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
+Obj g__03519378_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun121, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun121, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj _3519347_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj g__03519377_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3519347_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, g__03519377_037);
 return;
 }
 case 3:
 {
-Obj _3519346_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj g__03519376_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_bc);
 return;
 }
 case 4:
 {
-Obj _3519345_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj g__03519375_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "\n\n", 2));
 return;
 }
 case 5:
 {
-Obj _3519342_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj g__03519372_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 1, to), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 1, v_to), v_bc);
 return;
 }
 case 6:
 {
-Obj _3519341_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj g__03519371_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "static int packageID = -1;\n", 27));
 return;
 }
 case 7:
 {
-Obj _3519340_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj g__03519370_037= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun122, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "#include \"runtime.h\"\n\n", 22));
 return;
 }
 }
@@ -1506,9 +1507,9 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
+Obj v_group = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
 return;
 }
 }
@@ -1518,17 +1519,17 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
-Obj _3519343_37 = PRIM_CAR(group);
+Obj v_group = R[1];
+Obj g__03519373_037 = PRIM_CAR(v_group);
 saveCont(co, clofun120, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3519343_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), g__03519373_037);
 return;
 }
 case 1:
 {
-Obj _3519344_37= co->res;
+Obj g__03519374_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeString(co->gc, ";\n", 2));
 return;
 }
 }
@@ -1538,140 +1539,140 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj globals = R[2];
-Obj label = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_label = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun119, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n", 49));
 return;
 }
 case 1:
 {
-Obj _3519338_37= co->res;
-Obj to = R[1];
+Obj g__03519368_037= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "co->ctx.label = 0;\n}\n\n", 22));
 return;
 }
 case 2:
 {
-Obj _3519337_37= co->res;
-Obj to = R[1];
-R[1] = to;
+Obj g__03519367_037= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
 saveCont(co, clofun119, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, ";\n", 2));
 return;
 }
 case 3:
 {
-Obj _3519336_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = to;
+Obj g__03519366_037= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_to;
 saveCont(co, clofun119, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj _3519335_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj g__03519365_037= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun119, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "co->ctx.fn = ", 13));
 return;
 }
 case 5:
 {
-Obj _3519334_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj g__03519364_037= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun119, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "addPackage(co, packageID, __symbolTable);\n", 42));
 return;
 }
 case 6:
 {
-Obj _3519326_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = label;
-R[2] = to;
+Obj g__03519355_037= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun119, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun118, 2, 1, to), MAKE_NUMBER(0), globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun118, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 7:
 {
-Obj _3519325_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj g__03519354_037= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, ");\n", 3));
 return;
 }
 case 8:
 {
-Obj _3519324_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj g__03519353_037= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun119, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3519324_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, g__03519353_037);
 return;
 }
 case 9:
 {
-Obj _3519323_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj g__03519352_037= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun119, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_globals);
 return;
 }
 case 10:
 {
-Obj _3519322_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj g__03519351_037= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun119, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * ", 50));
 return;
 }
 case 11:
 {
-Obj _3519321_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+Obj g__03519350_037= co->res;
+Obj v_globals = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_globals;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun119, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n", 55));
 return;
 }
 }
@@ -1681,70 +1682,79 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj sym = R[2];
-R[1] = sym;
-R[2] = acc;
-saveCont(co, clofun118, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
+Obj v_acc = R[1];
+Obj v_sym = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun118, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeString(co->gc, "__symbolTable[", 14));
 return;
 }
 case 1:
 {
-Obj _3519332_37= co->res;
-Obj acc = R[1];
-Obj _3519333_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3519333_37);
+Obj g__03519362_037= co->res;
+Obj v_acc = R[1];
+Obj g__03519363_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03519363_037);
 return;
 }
 case 2:
 {
-Obj _3519331_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03519361_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeString(co->gc, "\"));\n", 5));
 return;
 }
 case 3:
 {
-Obj _3519330_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03519360_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun118, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3519330_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), g__03519360_037);
 return;
 }
 case 4:
 {
-Obj _3519329_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj g__03519359_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun118, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), g__03519359_037);
 return;
 }
 case 5:
 {
-Obj _3519328_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
+Obj g__03519358_037= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v_sym);
 return;
 }
 case 6:
 {
-Obj _3519327_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
+Obj g__03519357_037= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
 saveCont(co, clofun118, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeString(co->gc, "] = bindSymbol(co, intern(\"", 27));
+return;
+}
+case 7:
+{
+Obj g__03519356_037= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun118, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
@@ -1754,221 +1764,221 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj group = R[2];
-Obj globals = R[3];
-Obj _3519299_37 = PRIM_CAR(group);
-Obj _3517812_37 = _3519299_37;
-R[1] = globals;
-R[2] = _3517812_37;
-R[3] = to;
+Obj v_to = R[1];
+Obj v_group = R[2];
+Obj v_globals = R[3];
+Obj g__03519328_037 = PRIM_CAR(v_group);
+Obj g__03517838_037 = g__03519328_037;
+R[1] = v_globals;
+R[2] = g__03517838_037;
+R[3] = v_to;
 saveCont(co, clofun117, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_group);
 return;
 }
 case 1:
 {
-Obj _3519319_37= co->res;
-Obj to = R[1];
+Obj g__03519348_037= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "}\n\n", 3));
 return;
 }
 case 2:
 {
-Obj _3519318_37= co->res;
-Obj to = R[1];
-R[1] = to;
+Obj g__03519347_037= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
 saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "}\n", 2));
 return;
 }
 case 3:
 {
-Obj _3519317_37= co->res;
-Obj globals = R[1];
-Obj _3517812_37 = R[2];
-Obj _3517813_37 = R[3];
-Obj to = R[4];
-R[1] = to;
+Obj g__03519346_037= co->res;
+Obj v_globals = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517839_037 = R[3];
+Obj v_to = R[4];
+R[1] = v_to;
 saveCont(co, clofun117, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun116, 2, 4, globals, _3517812_37, _3517813_37, to), MAKE_NUMBER(1), _3519317_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun116, 2, 4, v_globals, g__03517838_037, g__03517839_037, v_to), MAKE_NUMBER(1), g__03519346_037);
 return;
 }
 case 4:
 {
-Obj _3519309_37= co->res;
-Obj globals = R[1];
-Obj _3517812_37 = R[2];
-Obj _3517813_37 = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = _3517812_37;
-R[3] = _3517813_37;
-R[4] = to;
+Obj g__03519338_037= co->res;
+Obj v_globals = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517839_037 = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = g__03517838_037;
+R[3] = g__03517839_037;
+R[4] = v_to;
 saveCont(co, clofun117, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), _3517813_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), g__03517839_037);
 return;
 }
 case 5:
 {
-Obj _3519308_37= co->res;
-Obj globals = R[1];
-Obj _3517812_37 = R[2];
-Obj _3517813_37 = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = _3517812_37;
-R[3] = _3517813_37;
-R[4] = to;
+Obj g__03519337_037= co->res;
+Obj v_globals = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517839_037 = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = g__03517838_037;
+R[3] = g__03517839_037;
+R[4] = v_to;
 saveCont(co, clofun117, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "}\n", 2));
 return;
 }
 case 6:
 {
-Obj _3519307_37= co->res;
-Obj _3517814_37 = R[1];
-Obj _3517815_37 = R[2];
-Obj globals = R[3];
-Obj _3517812_37 = R[4];
-Obj _3517813_37 = R[5];
-Obj to = R[6];
-R[1] = globals;
-R[2] = _3517812_37;
-R[3] = _3517813_37;
-R[4] = to;
+Obj g__03519336_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517841_037 = R[2];
+Obj v_globals = R[3];
+Obj g__03517838_037 = R[4];
+Obj g__03517839_037 = R[5];
+Obj v_to = R[6];
+R[1] = v_globals;
+R[2] = g__03517838_037;
+R[3] = g__03517839_037;
+R[4] = v_to;
 saveCont(co, clofun117, 5, R);
-Obj __args[5] = {globals, _3517812_37, _3517814_37, to, _3517815_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {v_globals, g__03517838_037, g__03517840_037, v_to, g__03517841_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3519306_37= co->res;
-Obj _3517814_37 = R[1];
-Obj _3517815_37 = R[2];
-Obj globals = R[3];
-Obj _3517812_37 = R[4];
-Obj _3517813_37 = R[5];
-Obj to = R[6];
-R[1] = _3517814_37;
-R[2] = _3517815_37;
-R[3] = globals;
-R[4] = _3517812_37;
-R[5] = _3517813_37;
-R[6] = to;
+Obj g__03519335_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517841_037 = R[2];
+Obj v_globals = R[3];
+Obj g__03517838_037 = R[4];
+Obj g__03517839_037 = R[5];
+Obj v_to = R[6];
+R[1] = g__03517840_037;
+R[2] = g__03517841_037;
+R[3] = v_globals;
+R[4] = g__03517838_037;
+R[5] = g__03517839_037;
+R[6] = v_to;
 saveCont(co, clofun117, 6, R);
-Obj __args[5] = {globals, _3517812_37, Nil, to, _3517814_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
+Obj __args[5] = {v_globals, g__03517838_037, Nil, v_to, g__03517840_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3519305_37= co->res;
-Obj _3517814_37 = R[1];
-Obj _3517815_37 = R[2];
-Obj globals = R[3];
-Obj _3517812_37 = R[4];
-Obj _3517813_37 = R[5];
-Obj to = R[6];
-R[1] = _3517814_37;
-R[2] = _3517815_37;
-R[3] = globals;
-R[4] = _3517812_37;
-R[5] = _3517813_37;
-R[6] = to;
+Obj g__03519334_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517841_037 = R[2];
+Obj v_globals = R[3];
+Obj g__03517838_037 = R[4];
+Obj g__03517839_037 = R[5];
+Obj v_to = R[6];
+R[1] = g__03517840_037;
+R[2] = g__03517841_037;
+R[3] = v_globals;
+R[4] = g__03517838_037;
+R[5] = g__03517839_037;
+R[6] = v_to;
 saveCont(co, clofun117, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "case 0:\n{\n", 10));
 return;
 }
 case 9:
 {
-Obj _3519304_37= co->res;
-Obj _3517814_37 = R[1];
-Obj _3517815_37 = R[2];
-Obj globals = R[3];
-Obj _3517812_37 = R[4];
-Obj _3517813_37 = R[5];
-Obj to = R[6];
-R[1] = _3517814_37;
-R[2] = _3517815_37;
-R[3] = globals;
-R[4] = _3517812_37;
-R[5] = _3517813_37;
-R[6] = to;
+Obj g__03519333_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517841_037 = R[2];
+Obj v_globals = R[3];
+Obj g__03517838_037 = R[4];
+Obj g__03517839_037 = R[5];
+Obj v_to = R[6];
+R[1] = g__03517840_037;
+R[2] = g__03517841_037;
+R[3] = v_globals;
+R[4] = g__03517838_037;
+R[5] = g__03517839_037;
+R[6] = v_to;
 saveCont(co, clofun117, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, " switch (label) {\n", 18));
 return;
 }
 case 10:
 {
-Obj _3519303_37= co->res;
-Obj _3517814_37 = R[1];
-Obj _3517815_37 = R[2];
-Obj globals = R[3];
-Obj _3517812_37 = R[4];
-Obj _3517813_37 = R[5];
-Obj to = R[6];
-R[1] = _3517814_37;
-R[2] = _3517815_37;
-R[3] = globals;
-R[4] = _3517812_37;
-R[5] = _3517813_37;
-R[6] = to;
+Obj g__03519332_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517841_037 = R[2];
+Obj v_globals = R[3];
+Obj g__03517838_037 = R[4];
+Obj g__03517839_037 = R[5];
+Obj v_to = R[6];
+R[1] = g__03517840_037;
+R[2] = g__03517841_037;
+R[3] = v_globals;
+R[4] = g__03517838_037;
+R[5] = g__03517839_037;
+R[6] = v_to;
 saveCont(co, clofun117, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, " {\n", 3));
 return;
 }
 case 11:
 {
-Obj _3519302_37= co->res;
-Obj _3517814_37 = R[1];
-Obj globals = R[2];
-Obj _3517812_37 = R[3];
-Obj _3517813_37 = R[4];
-Obj to = R[5];
-Obj _3517815_37 = _3519302_37;
-R[1] = _3517814_37;
-R[2] = _3517815_37;
-R[3] = globals;
-R[4] = _3517812_37;
-R[5] = _3517813_37;
-R[6] = to;
+Obj g__03519331_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj v_globals = R[2];
+Obj g__03517838_037 = R[3];
+Obj g__03517839_037 = R[4];
+Obj v_to = R[5];
+Obj g__03517841_037 = g__03519331_037;
+R[1] = g__03517840_037;
+R[2] = g__03517841_037;
+R[3] = v_globals;
+R[4] = g__03517838_037;
+R[5] = g__03517839_037;
+R[6] = v_to;
 saveCont(co, clofun117, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, _3517812_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, g__03517838_037);
 return;
 }
 case 12:
 {
-Obj _3519301_37= co->res;
-Obj globals = R[1];
-Obj _3517812_37 = R[2];
-Obj _3517813_37 = R[3];
-Obj to = R[4];
-Obj _3517814_37 = _3519301_37;
-R[1] = _3517814_37;
-R[2] = globals;
-R[3] = _3517812_37;
-R[4] = _3517813_37;
-R[5] = to;
+Obj g__03519330_037= co->res;
+Obj v_globals = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517839_037 = R[3];
+Obj v_to = R[4];
+Obj g__03517840_037 = g__03519330_037;
+R[1] = g__03517840_037;
+R[2] = v_globals;
+R[3] = g__03517838_037;
+R[4] = g__03517839_037;
+R[5] = v_to;
 saveCont(co, clofun117, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517813_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), g__03517839_037);
 return;
 }
 case 13:
 {
-Obj _3519300_37= co->res;
-Obj globals = R[1];
-Obj _3517812_37 = R[2];
-Obj to = R[3];
-Obj _3517813_37 = _3519300_37;
-R[1] = globals;
-R[2] = _3517812_37;
-R[3] = _3517813_37;
-R[4] = to;
+Obj g__03519329_037= co->res;
+Obj v_globals = R[1];
+Obj g__03517838_037 = R[2];
+Obj v_to = R[3];
+Obj g__03517839_037 = g__03519329_037;
+R[1] = v_globals;
+R[2] = g__03517838_037;
+R[3] = g__03517839_037;
+R[4] = v_to;
 saveCont(co, clofun117, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517813_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), g__03517839_037);
 return;
 }
 }
@@ -1978,73 +1988,73 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj cont = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_cont = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun116, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "case ", 5));
 return;
 }
 case 1:
 {
-Obj _3519315_37= co->res;
-Obj acc = R[1];
-Obj _3519316_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3519316_37);
+Obj g__03519344_037= co->res;
+Obj v_acc = R[1];
+Obj g__03519345_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03519345_037);
 return;
 }
 case 2:
 {
-Obj _3519314_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03519343_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "}\n", 2));
 return;
 }
 case 3:
 {
-Obj _3519313_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj g__03519342_037= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun116, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3519313_37, closureRef(R[0], 3), cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), g__03519342_037, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3519312_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj g__03519341_037= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun116, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3519311_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj g__03519340_037= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun116, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ":\n{\n", 4));
 return;
 }
 case 6:
 {
-Obj _3519310_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj g__03519339_037= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun116, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -2054,38 +2064,38 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517552_37 = R[1];
-Obj _3517553_37 = R[2];
-Obj _3519293_37 = PRIM_EQ(Nil, _3517553_37);
-if (True == _3519293_37) {
+Obj g__03517578_037 = R[1];
+Obj g__03517579_037 = R[2];
+Obj g__03519322_037 = PRIM_EQ(Nil, g__03517579_037);
+if (True == g__03519322_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3519294_37 = PRIM_ISCONS(_3517553_37);
-if (True == _3519294_37) {
-Obj _3519295_37 = PRIM_CAR(_3517553_37);
-Obj _3517810_37 = _3519295_37;
-Obj _3519296_37 = PRIM_CDR(_3517553_37);
-Obj _3517811_37 = _3519296_37;
-R[1] = _3517552_37;
-R[2] = _3517811_37;
+Obj g__03519323_037 = PRIM_ISCONS(g__03517579_037);
+if (True == g__03519323_037) {
+Obj g__03519324_037 = PRIM_CAR(g__03517579_037);
+Obj g__03517836_037 = g__03519324_037;
+Obj g__03519325_037 = PRIM_CDR(g__03517579_037);
+Obj g__03517837_037 = g__03519325_037;
+R[1] = g__03517578_037;
+R[2] = g__03517837_037;
 saveCont(co, clofun115, 1, R);
-coraCall1(co, _3517552_37, _3517810_37);
+coraCall1(co, g__03517578_037, g__03517836_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3519297_37= co->res;
-Obj _3517552_37 = R[1];
-Obj _3517811_37 = R[2];
+Obj g__03519326_037= co->res;
+Obj g__03517578_037 = R[1];
+Obj g__03517837_037 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3517552_37, _3517811_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), g__03517578_037, g__03517837_037);
 return;
 }
 }
@@ -2095,47 +2105,47 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
-R[1] = exp;
+Obj v_globals = R[1];
+Obj v_exp = R[2];
+R[1] = v_exp;
 saveCont(co, clofun114, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3519291_37= co->res;
+Obj g__03519320_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3519291_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), g__03519320_037);
 return;
 }
 case 2:
 {
-Obj _3519290_37= co->res;
+Obj g__03519319_037= co->res;
 saveCont(co, clofun114, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3519290_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), g__03519319_037);
 return;
 }
 case 3:
 {
-Obj _3519289_37= co->res;
+Obj g__03519318_037= co->res;
 saveCont(co, clofun114, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3519289_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), g__03519318_037);
 return;
 }
 case 4:
 {
-Obj _3519288_37= co->res;
+Obj g__03519317_037= co->res;
 saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3519288_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), g__03519317_037);
 return;
 }
 case 5:
 {
-Obj _3519287_37= co->res;
-Obj exp = R[1];
+Obj g__03519316_037= co->res;
+Obj v_exp = R[1];
 saveCont(co, clofun114, 4, R);
-coraCall1(co, _3519287_37, exp);
+coraCall1(co, g__03519316_037, v_exp);
 return;
 }
 }
@@ -2145,29 +2155,29 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun113, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3519285_37= co->res;
-Obj _3517808_37 = R[1];
-Obj _3517809_37 = _3519285_37;
+Obj g__03519314_037= co->res;
+Obj g__03517834_037 = R[1];
+Obj g__03517835_037 = g__03519314_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3517808_37, _3517809_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), g__03517834_037, g__03517835_037);
 return;
 }
 case 2:
 {
-Obj _3519284_37= co->res;
-Obj exp = R[1];
-Obj _3517808_37 = _3519284_37;
-R[1] = _3517808_37;
+Obj g__03519313_037= co->res;
+Obj v_exp = R[1];
+Obj g__03517834_037 = g__03519313_037;
+R[1] = g__03517834_037;
 saveCont(co, clofun113, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
 return;
 }
 }
@@ -2177,27 +2187,27 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517548_37 = R[1];
-Obj _3517549_37 = R[2];
-Obj _3519277_37 = PRIM_EQ(Nil, _3517549_37);
-if (True == _3519277_37) {
-coraReturn(co, _3517548_37);
+Obj g__03517574_037 = R[1];
+Obj g__03517575_037 = R[2];
+Obj g__03519306_037 = PRIM_EQ(Nil, g__03517575_037);
+if (True == g__03519306_037) {
+coraReturn(co, g__03517574_037);
 return;
 } else {
-Obj _3519278_37 = PRIM_ISCONS(_3517549_37);
-if (True == _3519278_37) {
-Obj _3519279_37 = PRIM_CAR(_3517549_37);
-Obj _3517806_37 = _3519279_37;
-Obj _3519280_37 = PRIM_CDR(_3517549_37);
-Obj _3517807_37 = _3519280_37;
-Obj _3519281_37 = makeCons(co->gc, _3517548_37, Nil);
-Obj _3519282_37 = makeCons(co->gc, _3517806_37, _3519281_37);
+Obj g__03519307_037 = PRIM_ISCONS(g__03517575_037);
+if (True == g__03519307_037) {
+Obj g__03519308_037 = PRIM_CAR(g__03517575_037);
+Obj g__03517832_037 = g__03519308_037;
+Obj g__03519309_037 = PRIM_CDR(g__03517575_037);
+Obj g__03517833_037 = g__03519309_037;
+Obj g__03519310_037 = makeCons(co->gc, g__03517574_037, Nil);
+Obj g__03519311_037 = makeCons(co->gc, g__03517832_037, g__03519310_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3519282_37, _3517807_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), g__03519311_037, g__03517833_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -2209,70 +2219,70 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun111, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3519275_37= co->res;
-Obj _3517803_37 = R[1];
+Obj g__03519304_037= co->res;
+Obj g__03517829_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517803_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), g__03517829_037, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3519274_37= co->res;
-Obj _3517803_37 = R[1];
-Obj _3517805_37 = _3519274_37;
-R[1] = _3517803_37;
+Obj g__03519303_037= co->res;
+Obj g__03517829_037 = R[1];
+Obj g__03517831_037 = g__03519303_037;
+R[1] = g__03517829_037;
 saveCont(co, clofun111, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517803_37, _3517805_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), g__03517829_037, g__03517831_037);
 return;
 }
 case 3:
 {
-Obj _3519273_37= co->res;
-Obj _3517803_37 = R[1];
-Obj _3517804_37 = _3519273_37;
-R[1] = _3517803_37;
+Obj g__03519302_037= co->res;
+Obj g__03517829_037 = R[1];
+Obj g__03517830_037 = g__03519302_037;
+R[1] = g__03517829_037;
 saveCont(co, clofun111, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, _3517804_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), Nil, g__03517830_037);
 return;
 }
 case 4:
 {
-Obj _3519272_37= co->res;
-Obj exp = R[1];
-Obj _3517803_37 = R[2];
-R[1] = _3517803_37;
+Obj g__03519301_037= co->res;
+Obj v_exp = R[1];
+Obj g__03517829_037 = R[2];
+R[1] = g__03517829_037;
 saveCont(co, clofun111, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517803_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), g__03517829_037, v_exp);
 return;
 }
 case 5:
 {
-Obj _3519271_37= co->res;
-Obj exp = R[1];
-Obj _3517803_37 = R[2];
-R[1] = exp;
-R[2] = _3517803_37;
+Obj g__03519300_037= co->res;
+Obj v_exp = R[1];
+Obj g__03517829_037 = R[2];
+R[1] = v_exp;
+R[2] = g__03517829_037;
 saveCont(co, clofun111, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517803_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), g__03517829_037, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3519270_37= co->res;
-Obj exp = R[1];
-Obj _3517803_37 = _3519270_37;
-R[1] = exp;
-R[2] = _3517803_37;
+Obj g__03519299_037= co->res;
+Obj v_exp = R[1];
+Obj g__03517829_037 = g__03519299_037;
+R[1] = v_exp;
+R[2] = g__03517829_037;
 saveCont(co, clofun111, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517803_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), g__03517829_037, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2282,9 +2292,9 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), Nil, v_exp);
 return;
 }
 }
@@ -2294,9 +2304,9 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), exp, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v_exp, globalRef(co, getBinding(co, packageID, 71)));
 return;
 }
 }
@@ -2306,9 +2316,9 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), Nil, v_exp);
 return;
 }
 }
@@ -2318,10 +2328,10 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
+Obj v_globals = R[1];
+Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, globals, exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), Nil, v_globals, v_exp);
 return;
 }
 }
@@ -2331,39 +2341,39 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = label;
-R[2] = w;
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_label;
+R[2] = v_w;
 saveCont(co, clofun106, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeString(co->gc, "static void ", 12));
 return;
 }
 case 1:
 {
-Obj _3519264_37= co->res;
-Obj w = R[1];
+Obj g__03519293_037= co->res;
+Obj v_w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj _3519263_37= co->res;
-Obj w = R[1];
-R[1] = w;
+Obj g__03519292_037= co->res;
+Obj v_w = R[1];
+R[1] = v_w;
 saveCont(co, clofun106, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeString(co->gc, "(struct Cora* co, int label, Obj *R", 35));
 return;
 }
 case 3:
 {
-Obj _3519262_37= co->res;
-Obj label = R[1];
-Obj w = R[2];
-R[1] = w;
+Obj g__03519291_037= co->res;
+Obj v_label = R[1];
+Obj v_w = R[2];
+R[1] = v_w;
 saveCont(co, clofun106, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_w, v_label);
 return;
 }
 }
@@ -2373,21 +2383,21 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = w;
-R[2] = label;
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_w;
+R[2] = v_label;
 saveCont(co, clofun105, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeString(co->gc, "clofun", 6));
 return;
 }
 case 1:
 {
-Obj _3519260_37= co->res;
-Obj w = R[1];
-Obj label = R[2];
+Obj g__03519289_037= co->res;
+Obj v_w = R[1];
+Obj v_label = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, v_label);
 return;
 }
 }
@@ -2397,136 +2407,136 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517542_37 = R[1];
-Obj _3517543_37 = R[2];
-Obj _3517544_37 = R[3];
-Obj _3517545_37 = R[4];
-Obj _3517546_37 = R[5];
-Obj _3517799_37 = makeNative(co->gc, 1, clofun103, 0, 0);
-Obj _3519238_37 = PRIM_ISCONS(_3517546_37);
-if (True == _3519238_37) {
-Obj _3519239_37 = PRIM_CAR(_3517546_37);
-Obj _3519240_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3519239_37);
-if (True == _3519240_37) {
-Obj _3519241_37 = PRIM_CDR(_3517546_37);
-Obj _3519242_37 = PRIM_ISCONS(_3519241_37);
-if (True == _3519242_37) {
-Obj _3519243_37 = PRIM_CDR(_3517546_37);
-Obj _3519244_37 = PRIM_CAR(_3519243_37);
-Obj _3517800_37 = _3519244_37;
-Obj _3519245_37 = PRIM_CDR(_3517546_37);
-Obj _3519246_37 = PRIM_CDR(_3519245_37);
-Obj _3519247_37 = PRIM_ISCONS(_3519246_37);
-if (True == _3519247_37) {
-Obj _3519248_37 = PRIM_CDR(_3517546_37);
-Obj _3519249_37 = PRIM_CDR(_3519248_37);
-Obj _3519250_37 = PRIM_CAR(_3519249_37);
-Obj _3517801_37 = _3519250_37;
-Obj _3519251_37 = PRIM_CDR(_3517546_37);
-Obj _3519252_37 = PRIM_CDR(_3519251_37);
-Obj _3519253_37 = PRIM_CDR(_3519252_37);
-Obj _3517802_37 = _3519253_37;
-R[1] = _3517800_37;
-R[2] = _3517802_37;
-R[3] = _3517542_37;
-R[4] = _3517543_37;
-R[5] = _3517544_37;
-R[6] = _3517545_37;
-R[7] = _3517801_37;
+Obj g__03517568_037 = R[1];
+Obj g__03517569_037 = R[2];
+Obj g__03517570_037 = R[3];
+Obj g__03517571_037 = R[4];
+Obj g__03517572_037 = R[5];
+Obj g__03517825_037 = makeNative(co->gc, 1, clofun103, 0, 0);
+Obj g__03519267_037 = PRIM_ISCONS(g__03517572_037);
+if (True == g__03519267_037) {
+Obj g__03519268_037 = PRIM_CAR(g__03517572_037);
+Obj g__03519269_037 = PRIM_EQ(getBinding(co, packageID, 63).name, g__03519268_037);
+if (True == g__03519269_037) {
+Obj g__03519270_037 = PRIM_CDR(g__03517572_037);
+Obj g__03519271_037 = PRIM_ISCONS(g__03519270_037);
+if (True == g__03519271_037) {
+Obj g__03519272_037 = PRIM_CDR(g__03517572_037);
+Obj g__03519273_037 = PRIM_CAR(g__03519272_037);
+Obj g__03517826_037 = g__03519273_037;
+Obj g__03519274_037 = PRIM_CDR(g__03517572_037);
+Obj g__03519275_037 = PRIM_CDR(g__03519274_037);
+Obj g__03519276_037 = PRIM_ISCONS(g__03519275_037);
+if (True == g__03519276_037) {
+Obj g__03519277_037 = PRIM_CDR(g__03517572_037);
+Obj g__03519278_037 = PRIM_CDR(g__03519277_037);
+Obj g__03519279_037 = PRIM_CAR(g__03519278_037);
+Obj g__03517827_037 = g__03519279_037;
+Obj g__03519280_037 = PRIM_CDR(g__03517572_037);
+Obj g__03519281_037 = PRIM_CDR(g__03519280_037);
+Obj g__03519282_037 = PRIM_CDR(g__03519281_037);
+Obj g__03517828_037 = g__03519282_037;
+R[1] = g__03517826_037;
+R[2] = g__03517828_037;
+R[3] = g__03517568_037;
+R[4] = g__03517569_037;
+R[5] = g__03517570_037;
+R[6] = g__03517571_037;
+R[7] = g__03517827_037;
 saveCont(co, clofun104, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517545_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), g__03517571_037, makeString(co->gc, "Obj ", 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517799_37);
+coraCall0(co, g__03517825_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517799_37);
+coraCall0(co, g__03517825_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517799_37);
+coraCall0(co, g__03517825_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517799_37);
+coraCall0(co, g__03517825_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519258_37= co->res;
-Obj _3517542_37 = R[1];
-Obj _3517543_37 = R[2];
-Obj _3517544_37 = R[3];
-Obj _3517545_37 = R[4];
-Obj _3517801_37 = R[5];
+Obj g__03519287_037= co->res;
+Obj g__03517568_037 = R[1];
+Obj g__03517569_037 = R[2];
+Obj g__03517570_037 = R[3];
+Obj g__03517571_037 = R[4];
+Obj g__03517827_037 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3517542_37, _3517543_37, _3517544_37, _3517545_37, _3517801_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {g__03517568_037, g__03517569_037, g__03517570_037, g__03517571_037, g__03517827_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3519257_37= co->res;
-Obj _3517802_37 = R[1];
-Obj _3517542_37 = R[2];
-Obj _3517543_37 = R[3];
-Obj _3517544_37 = R[4];
-Obj _3517545_37 = R[5];
-Obj _3517801_37 = R[6];
-R[1] = _3517542_37;
-R[2] = _3517543_37;
-R[3] = _3517544_37;
-R[4] = _3517545_37;
-R[5] = _3517801_37;
+Obj g__03519286_037= co->res;
+Obj g__03517828_037 = R[1];
+Obj g__03517568_037 = R[2];
+Obj g__03517569_037 = R[3];
+Obj g__03517570_037 = R[4];
+Obj g__03517571_037 = R[5];
+Obj g__03517827_037 = R[6];
+R[1] = g__03517568_037;
+R[2] = g__03517569_037;
+R[3] = g__03517570_037;
+R[4] = g__03517571_037;
+R[5] = g__03517827_037;
 saveCont(co, clofun104, 1, R);
-Obj __args[5] = {_3517542_37, _3517543_37, _3517544_37, _3517545_37, _3517802_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
+Obj __args[5] = {g__03517568_037, g__03517569_037, g__03517570_037, g__03517571_037, g__03517828_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3519256_37= co->res;
-Obj _3517802_37 = R[1];
-Obj _3517542_37 = R[2];
-Obj _3517543_37 = R[3];
-Obj _3517544_37 = R[4];
-Obj _3517545_37 = R[5];
-Obj _3517801_37 = R[6];
-R[1] = _3517802_37;
-R[2] = _3517542_37;
-R[3] = _3517543_37;
-R[4] = _3517544_37;
-R[5] = _3517545_37;
-R[6] = _3517801_37;
+Obj g__03519285_037= co->res;
+Obj g__03517828_037 = R[1];
+Obj g__03517568_037 = R[2];
+Obj g__03517569_037 = R[3];
+Obj g__03517570_037 = R[4];
+Obj g__03517571_037 = R[5];
+Obj g__03517827_037 = R[6];
+R[1] = g__03517828_037;
+R[2] = g__03517568_037;
+R[3] = g__03517569_037;
+R[4] = g__03517570_037;
+R[5] = g__03517571_037;
+R[6] = g__03517827_037;
 saveCont(co, clofun104, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517545_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), g__03517571_037, makeString(co->gc, "= co->res;\n", 11));
 return;
 }
 case 4:
 {
-Obj _3519254_37= co->res;
-Obj _3517800_37 = R[1];
-Obj _3517802_37 = R[2];
-Obj _3517542_37 = R[3];
-Obj _3517543_37 = R[4];
-Obj _3517544_37 = R[5];
-Obj _3517545_37 = R[6];
-Obj _3517801_37 = R[7];
-Obj _3519255_37 = PRIM_CAR(_3517800_37);
-R[1] = _3517802_37;
-R[2] = _3517542_37;
-R[3] = _3517543_37;
-R[4] = _3517544_37;
-R[5] = _3517545_37;
-R[6] = _3517801_37;
+Obj g__03519283_037= co->res;
+Obj g__03517826_037 = R[1];
+Obj g__03517828_037 = R[2];
+Obj g__03517568_037 = R[3];
+Obj g__03517569_037 = R[4];
+Obj g__03517570_037 = R[5];
+Obj g__03517571_037 = R[6];
+Obj g__03517827_037 = R[7];
+Obj g__03519284_037 = PRIM_CAR(g__03517826_037);
+R[1] = g__03517828_037;
+R[2] = g__03517568_037;
+R[3] = g__03517569_037;
+R[4] = g__03517570_037;
+R[5] = g__03517571_037;
+R[6] = g__03517827_037;
 saveCont(co, clofun104, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3517545_37, _3519255_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), g__03517571_037, g__03519284_037);
 return;
 }
 }
@@ -2537,7 +2547,7 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -2547,25 +2557,25 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj l = R[5];
-Obj _3519224_37 = primGenSym(co);
-Obj _3517796_37 = _3519224_37;
-Obj _3519235_37 = primSet(co, _3517796_37, makeNative(co->gc, 2, clofun101, 1, 5, globals, self, env, w, _3517796_37));
-R[1] = l;
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_l = R[5];
+Obj g__03519253_037 = primGenSym(co);
+Obj g__03517822_037 = g__03519253_037;
+Obj g__03519264_037 = primSet(co, g__03517822_037, makeNative(co->gc, 2, clofun101, 1, 5, v_globals, v_self, v_env, v_w, g__03517822_037));
+R[1] = v_l;
 saveCont(co, clofun102, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517796_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517822_037);
 return;
 }
 case 1:
 {
-Obj _3519236_37= co->res;
-Obj l = R[1];
+Obj g__03519265_037= co->res;
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3519236_37, l);
+coraCall1(co, g__03519265_037, v_l);
 return;
 }
 }
@@ -2575,80 +2585,80 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3519225_37 = PRIM_EQ(Nil, x);
-if (True == _3519225_37) {
+Obj v_x = R[1];
+Obj g__03519254_037 = PRIM_EQ(Nil, v_x);
+if (True == g__03519254_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3519226_37 = PRIM_ISCONS(x);
-if (True == _3519226_37) {
-Obj _3519227_37 = PRIM_CAR(x);
-Obj _3517797_37 = _3519227_37;
-Obj _3519228_37 = PRIM_CDR(x);
-Obj _3517798_37 = _3519228_37;
-R[1] = _3517798_37;
+Obj g__03519255_037 = PRIM_ISCONS(v_x);
+if (True == g__03519255_037) {
+Obj g__03519256_037 = PRIM_CAR(v_x);
+Obj g__03517823_037 = g__03519256_037;
+Obj g__03519257_037 = PRIM_CDR(v_x);
+Obj g__03517824_037 = g__03519257_037;
+R[1] = g__03517824_037;
 saveCont(co, clofun101, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3517797_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03517823_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3519233_37= co->res;
-Obj _3517798_37 = R[1];
+Obj g__03519262_037= co->res;
+Obj g__03517824_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3519233_37, _3517798_37);
+coraCall1(co, g__03519262_037, g__03517824_037);
 return;
 }
 case 2:
 {
-Obj _3519232_37= co->res;
-Obj _3517798_37 = R[1];
-R[1] = _3517798_37;
+Obj g__03519261_037= co->res;
+Obj g__03517824_037 = R[1];
+R[1] = g__03517824_037;
 saveCont(co, clofun101, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3519234_37= co->res;
-Obj _3517798_37 = R[1];
+Obj g__03519263_037= co->res;
+Obj g__03517824_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3519234_37, _3517798_37);
+coraCall1(co, g__03519263_037, g__03517824_037);
 return;
 }
 case 4:
 {
-Obj _3519230_37= co->res;
-Obj _3517798_37 = R[1];
-Obj _3519231_37 = primNot(_3519230_37);
-if (True == _3519231_37) {
-R[1] = _3517798_37;
+Obj g__03519259_037= co->res;
+Obj g__03517824_037 = R[1];
+Obj g__03519260_037 = primNot(g__03519259_037);
+if (True == g__03519260_037) {
+R[1] = g__03517824_037;
 saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ", ", 2));
 return;
 } else {
 Nil;
-R[1] = _3517798_37;
+R[1] = g__03517824_037;
 saveCont(co, clofun101, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj _3519229_37= co->res;
-Obj _3517798_37 = R[1];
-R[1] = _3517798_37;
+Obj g__03519258_037= co->res;
+Obj g__03517824_037 = R[1];
+R[1] = g__03517824_037;
 saveCont(co, clofun101, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517798_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517824_037);
 return;
 }
 }
@@ -2658,27 +2668,27 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env1 = R[3];
-Obj w = R[4];
-Obj x1 = R[5];
-Obj _3518937_37 = primGenSym(co);
-Obj _3517759_37 = _3518937_37;
-Obj _3519221_37 = primSet(co, _3517759_37, makeNative(co->gc, 3, clofun99, 2, 4, self, _3517759_37, globals, w));
-R[1] = x1;
-R[2] = env1;
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env1 = R[3];
+Obj v_w = R[4];
+Obj v_x1 = R[5];
+Obj g__03518963_037 = primGenSym(co);
+Obj g__03517785_037 = g__03518963_037;
+Obj g__03519250_037 = primSet(co, g__03517785_037, makeNative(co->gc, 3, clofun99, 2, 4, v_self, g__03517785_037, v_globals, v_w));
+R[1] = v_x1;
+R[2] = v_env1;
 saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517759_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517785_037);
 return;
 }
 case 1:
 {
-Obj _3519222_37= co->res;
-Obj x1 = R[1];
-Obj env1 = R[2];
+Obj g__03519251_037= co->res;
+Obj v_x1 = R[1];
+Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3519222_37, x1, env1);
+coraCall2(co, g__03519251_037, v_x1, v_env1);
 return;
 }
 }
@@ -2688,76 +2698,76 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x2 = R[1];
-Obj env = R[2];
-Obj _3518938_37 = primIsSymbol(x2);
-if (True == _3518938_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
-return;
-} else {
-Obj _3517760_37 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3519208_37 = PRIM_ISCONS(x2);
-if (True == _3519208_37) {
-Obj _3519209_37 = PRIM_CAR(x2);
-Obj _3519210_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3519209_37);
-if (True == _3519210_37) {
-Obj _3519211_37 = PRIM_CDR(x2);
-Obj _3519212_37 = PRIM_ISCONS(_3519211_37);
-if (True == _3519212_37) {
-Obj _3519213_37 = PRIM_CDR(x2);
-Obj _3519214_37 = PRIM_CAR(_3519213_37);
-Obj _3517795_37 = _3519214_37;
-Obj _3519215_37 = PRIM_CDR(x2);
-Obj _3519216_37 = PRIM_CDR(_3519215_37);
-Obj _3519217_37 = PRIM_EQ(Nil, _3519216_37);
-if (True == _3519217_37) {
-R[1] = _3517795_37;
+Obj v_x2 = R[1];
+Obj v_env = R[2];
+Obj g__03518964_037 = primIsSymbol(v_x2);
+if (True == g__03518964_037) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
+return;
+} else {
+Obj g__03517786_037 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj g__03519237_037 = PRIM_ISCONS(v_x2);
+if (True == g__03519237_037) {
+Obj g__03519238_037 = PRIM_CAR(v_x2);
+Obj g__03519239_037 = PRIM_EQ(getBinding(co, packageID, 95).name, g__03519238_037);
+if (True == g__03519239_037) {
+Obj g__03519240_037 = PRIM_CDR(v_x2);
+Obj g__03519241_037 = PRIM_ISCONS(g__03519240_037);
+if (True == g__03519241_037) {
+Obj g__03519242_037 = PRIM_CDR(v_x2);
+Obj g__03519243_037 = PRIM_CAR(g__03519242_037);
+Obj g__03517821_037 = g__03519243_037;
+Obj g__03519244_037 = PRIM_CDR(v_x2);
+Obj g__03519245_037 = PRIM_CDR(g__03519244_037);
+Obj g__03519246_037 = PRIM_EQ(Nil, g__03519245_037);
+if (True == g__03519246_037) {
+R[1] = g__03517821_037;
 saveCont(co, clofun99, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "globalRef(co, getBinding(co, packageID, ", 40));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517760_37);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517760_37);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517760_37);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517760_37);
+coraCall0(co, g__03517786_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3519220_37= co->res;
+Obj g__03519249_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "))", 2));
 return;
 }
 case 2:
 {
-Obj _3519219_37= co->res;
+Obj g__03519248_037= co->res;
 saveCont(co, clofun99, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3519219_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), g__03519248_037);
 return;
 }
 case 3:
 {
-Obj _3519218_37= co->res;
-Obj _3517795_37 = R[1];
+Obj g__03519247_037= co->res;
+Obj g__03517821_037 = R[1];
 saveCont(co, clofun99, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517795_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), g__03517821_037, closureRef(R[0], 2));
 return;
 }
 }
@@ -2767,60 +2777,60 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517761_37 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3519196_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3519196_37) {
-Obj _3519197_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3519198_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3519197_37);
-if (True == _3519198_37) {
-Obj _3519199_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3519200_37 = PRIM_ISCONS(_3519199_37);
-if (True == _3519200_37) {
-Obj _3519201_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3519202_37 = PRIM_CAR(_3519201_37);
-Obj _3517794_37 = _3519202_37;
-Obj _3519203_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3519204_37 = PRIM_CDR(_3519203_37);
-Obj _3519205_37 = PRIM_EQ(Nil, _3519204_37);
-if (True == _3519205_37) {
-R[1] = _3517794_37;
+Obj g__03517787_037 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj g__03519225_037 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == g__03519225_037) {
+Obj g__03519226_037 = PRIM_CAR(closureRef(R[0], 4));
+Obj g__03519227_037 = PRIM_EQ(getBinding(co, packageID, 78).name, g__03519226_037);
+if (True == g__03519227_037) {
+Obj g__03519228_037 = PRIM_CDR(closureRef(R[0], 4));
+Obj g__03519229_037 = PRIM_ISCONS(g__03519228_037);
+if (True == g__03519229_037) {
+Obj g__03519230_037 = PRIM_CDR(closureRef(R[0], 4));
+Obj g__03519231_037 = PRIM_CAR(g__03519230_037);
+Obj g__03517820_037 = g__03519231_037;
+Obj g__03519232_037 = PRIM_CDR(closureRef(R[0], 4));
+Obj g__03519233_037 = PRIM_CDR(g__03519232_037);
+Obj g__03519234_037 = PRIM_EQ(Nil, g__03519233_037);
+if (True == g__03519234_037) {
+R[1] = g__03517820_037;
 saveCont(co, clofun98, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "closureRef(R[0], ", 17));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517761_37);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517761_37);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517761_37);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517761_37);
+coraCall0(co, g__03517787_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519207_37= co->res;
+Obj g__03519236_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj _3519206_37= co->res;
-Obj _3517794_37 = R[1];
+Obj g__03519235_037= co->res;
+Obj g__03517820_037 = R[1];
 saveCont(co, clofun98, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517794_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517820_037);
 return;
 }
 }
@@ -2830,151 +2840,178 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517762_37 = makeNative(co->gc, 4, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3519172_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3519172_37) {
-Obj _3519173_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3519174_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3519173_37);
-if (True == _3519174_37) {
-Obj _3519175_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3519176_37 = PRIM_ISCONS(_3519175_37);
-if (True == _3519176_37) {
-Obj _3519177_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3519178_37 = PRIM_CAR(_3519177_37);
-Obj _3517793_37 = _3519178_37;
-Obj _3519179_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3519180_37 = PRIM_CDR(_3519179_37);
-Obj _3519181_37 = PRIM_EQ(Nil, _3519180_37);
-if (True == _3519181_37) {
-Obj _3519182_37 = primIsSymbol(_3517793_37);
-if (True == _3519182_37) {
-R[1] = _3517793_37;
+Obj g__03517788_037 = makeNative(co->gc, 4, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03519198_037 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == g__03519198_037) {
+Obj g__03519199_037 = PRIM_CAR(closureRef(R[0], 3));
+Obj g__03519200_037 = PRIM_EQ(getBinding(co, packageID, 97).name, g__03519199_037);
+if (True == g__03519200_037) {
+Obj g__03519201_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03519202_037 = PRIM_ISCONS(g__03519201_037);
+if (True == g__03519202_037) {
+Obj g__03519203_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03519204_037 = PRIM_CAR(g__03519203_037);
+Obj g__03517819_037 = g__03519204_037;
+Obj g__03519205_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03519206_037 = PRIM_CDR(g__03519205_037);
+Obj g__03519207_037 = PRIM_EQ(Nil, g__03519206_037);
+if (True == g__03519207_037) {
+Obj g__03519208_037 = primIsSymbol(g__03517819_037);
+if (True == g__03519208_037) {
+R[1] = g__03517819_037;
 saveCont(co, clofun97, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "getBinding(co, packageID, ", 26));
 return;
 } else {
-R[1] = _3517793_37;
-saveCont(co, clofun97, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517793_37);
+R[1] = g__03517819_037;
+saveCont(co, clofun97, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517819_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517762_37);
+coraCall0(co, g__03517788_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517762_37);
+coraCall0(co, g__03517788_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517762_37);
+coraCall0(co, g__03517788_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517762_37);
+coraCall0(co, g__03517788_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519185_37= co->res;
+Obj g__03519211_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ").name", 6));
 return;
 }
 case 2:
 {
-Obj _3519184_37= co->res;
+Obj g__03519210_037= co->res;
 saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3519184_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519210_037);
 return;
 }
 case 3:
 {
-Obj _3519183_37= co->res;
-Obj _3517793_37 = R[1];
+Obj g__03519209_037= co->res;
+Obj g__03517819_037 = R[1];
 saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517793_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), g__03517819_037, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3519188_37= co->res;
+Obj g__03519214_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 5:
 {
-Obj _3519187_37= co->res;
-Obj _3517793_37 = R[1];
+Obj g__03519213_037= co->res;
+Obj g__03517819_037 = R[1];
 saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517793_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517819_037);
 return;
 }
 case 6:
 {
-Obj _3519192_37= co->res;
+Obj g__03519221_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 7:
 {
-Obj _3519191_37= co->res;
+Obj g__03519220_037= co->res;
 saveCont(co, clofun97, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3519191_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519220_037);
 return;
 }
 case 8:
 {
-Obj _3519190_37= co->res;
-Obj _3517793_37 = R[1];
+Obj g__03519219_037= co->res;
+Obj g__03517819_037 = R[1];
 saveCont(co, clofun97, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), _3517793_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), g__03517819_037);
 return;
 }
 case 9:
 {
-Obj _3519186_37= co->res;
-Obj _3517793_37 = R[1];
-if (True == _3519186_37) {
-R[1] = _3517793_37;
+Obj g__03519218_037= co->res;
+Obj g__03517819_037 = R[1];
+R[1] = g__03517819_037;
+saveCont(co, clofun97, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "\", ", 3));
+return;
+}
+case 10:
+{
+Obj g__03519217_037= co->res;
+Obj g__03517819_037 = R[1];
+R[1] = g__03517819_037;
+saveCont(co, clofun97, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), g__03519217_037);
+return;
+}
+case 11:
+{
+Obj g__03519216_037= co->res;
+Obj g__03517819_037 = R[1];
+R[1] = g__03517819_037;
+saveCont(co, clofun97, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), g__03517819_037);
+return;
+}
+case 12:
+{
+Obj g__03519212_037= co->res;
+Obj g__03517819_037 = R[1];
+if (True == g__03519212_037) {
+R[1] = g__03517819_037;
 saveCont(co, clofun97, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "MAKE_NUMBER(", 12));
 return;
 } else {
-Obj _3519189_37 = primIsString(_3517793_37);
-if (True == _3519189_37) {
-R[1] = _3517793_37;
-saveCont(co, clofun97, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
+Obj g__03519215_037 = primIsString(g__03517819_037);
+if (True == g__03519215_037) {
+R[1] = g__03517819_037;
+saveCont(co, clofun97, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "makeString(co->gc, \"", 20));
 return;
 } else {
-Obj _3519193_37 = PRIM_EQ(_3517793_37, Nil);
-if (True == _3519193_37) {
+Obj g__03519222_037 = PRIM_EQ(g__03517819_037, Nil);
+if (True == g__03519222_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "Nil", 3));
 return;
 } else {
-Obj _3519194_37 = PRIM_EQ(_3517793_37, True);
-if (True == _3519194_37) {
+Obj g__03519223_037 = PRIM_EQ(g__03517819_037, True);
+if (True == g__03519223_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "True", 4));
 return;
 } else {
-Obj _3519195_37 = PRIM_EQ(_3517793_37, False);
-if (True == _3519195_37) {
+Obj g__03519224_037 = PRIM_EQ(g__03517819_037, False);
+if (True == g__03519224_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "False", 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no cond match", 13));
 return;
 }
 }
@@ -2989,173 +3026,173 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517763_37 = makeNative(co->gc, 3, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3519137_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3519137_37) {
-Obj _3519138_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3519139_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3519138_37);
-if (True == _3519139_37) {
-Obj _3519140_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519141_37 = PRIM_ISCONS(_3519140_37);
-if (True == _3519141_37) {
-Obj _3519142_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519143_37 = PRIM_CAR(_3519142_37);
-Obj _3517790_37 = _3519143_37;
-Obj _3519144_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519145_37 = PRIM_CDR(_3519144_37);
-Obj _3519146_37 = PRIM_ISCONS(_3519145_37);
-if (True == _3519146_37) {
-Obj _3519147_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519148_37 = PRIM_CDR(_3519147_37);
-Obj _3519149_37 = PRIM_CAR(_3519148_37);
-Obj _3517791_37 = _3519149_37;
-Obj _3519150_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519151_37 = PRIM_CDR(_3519150_37);
-Obj _3519152_37 = PRIM_CDR(_3519151_37);
-Obj _3519153_37 = PRIM_ISCONS(_3519152_37);
-if (True == _3519153_37) {
-Obj _3519154_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519155_37 = PRIM_CDR(_3519154_37);
-Obj _3519156_37 = PRIM_CDR(_3519155_37);
-Obj _3519157_37 = PRIM_CAR(_3519156_37);
-Obj _3517792_37 = _3519157_37;
-Obj _3519158_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519159_37 = PRIM_CDR(_3519158_37);
-Obj _3519160_37 = PRIM_CDR(_3519159_37);
-Obj _3519161_37 = PRIM_CDR(_3519160_37);
-Obj _3519162_37 = PRIM_EQ(Nil, _3519161_37);
-if (True == _3519162_37) {
-R[1] = _3517791_37;
-R[2] = _3517790_37;
-R[3] = _3517792_37;
+Obj g__03517789_037 = makeNative(co->gc, 3, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj g__03519163_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519163_037) {
+Obj g__03519164_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519165_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03519164_037);
+if (True == g__03519165_037) {
+Obj g__03519166_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519167_037 = PRIM_ISCONS(g__03519166_037);
+if (True == g__03519167_037) {
+Obj g__03519168_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519169_037 = PRIM_CAR(g__03519168_037);
+Obj g__03517816_037 = g__03519169_037;
+Obj g__03519170_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519171_037 = PRIM_CDR(g__03519170_037);
+Obj g__03519172_037 = PRIM_ISCONS(g__03519171_037);
+if (True == g__03519172_037) {
+Obj g__03519173_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519174_037 = PRIM_CDR(g__03519173_037);
+Obj g__03519175_037 = PRIM_CAR(g__03519174_037);
+Obj g__03517817_037 = g__03519175_037;
+Obj g__03519176_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519177_037 = PRIM_CDR(g__03519176_037);
+Obj g__03519178_037 = PRIM_CDR(g__03519177_037);
+Obj g__03519179_037 = PRIM_ISCONS(g__03519178_037);
+if (True == g__03519179_037) {
+Obj g__03519180_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519181_037 = PRIM_CDR(g__03519180_037);
+Obj g__03519182_037 = PRIM_CDR(g__03519181_037);
+Obj g__03519183_037 = PRIM_CAR(g__03519182_037);
+Obj g__03517818_037 = g__03519183_037;
+Obj g__03519184_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519185_037 = PRIM_CDR(g__03519184_037);
+Obj g__03519186_037 = PRIM_CDR(g__03519185_037);
+Obj g__03519187_037 = PRIM_CDR(g__03519186_037);
+Obj g__03519188_037 = PRIM_EQ(Nil, g__03519187_037);
+if (True == g__03519188_037) {
+R[1] = g__03517817_037;
+R[2] = g__03517816_037;
+R[3] = g__03517818_037;
 saveCont(co, clofun96, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517790_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517816_037, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517763_37);
+coraCall0(co, g__03517789_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517763_37);
+coraCall0(co, g__03517789_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517763_37);
+coraCall0(co, g__03517789_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517763_37);
+coraCall0(co, g__03517789_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517763_37);
+coraCall0(co, g__03517789_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517763_37);
+coraCall0(co, g__03517789_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519170_37= co->res;
-Obj _3517790_37 = R[1];
-Obj _3517792_37 = R[2];
-Obj _3519171_37 = makeCons(co->gc, _3517790_37, closureRef(R[0], 5));
+Obj g__03519196_037= co->res;
+Obj g__03517816_037 = R[1];
+Obj g__03517818_037 = R[2];
+Obj g__03519197_037 = makeCons(co->gc, g__03517816_037, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3519170_37, _3517792_37, _3519171_37);
+coraCall2(co, g__03519196_037, g__03517818_037, g__03519197_037);
 return;
 }
 case 2:
 {
-Obj _3519169_37= co->res;
-Obj _3517790_37 = R[1];
-Obj _3517792_37 = R[2];
-R[1] = _3517790_37;
-R[2] = _3517792_37;
+Obj g__03519195_037= co->res;
+Obj g__03517816_037 = R[1];
+Obj g__03517818_037 = R[2];
+R[1] = g__03517816_037;
+R[2] = g__03517818_037;
 saveCont(co, clofun96, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3519168_37= co->res;
-Obj _3517790_37 = R[1];
-Obj _3517792_37 = R[2];
-R[1] = _3517790_37;
-R[2] = _3517792_37;
+Obj g__03519194_037= co->res;
+Obj g__03517816_037 = R[1];
+Obj g__03517818_037 = R[2];
+R[1] = g__03517816_037;
+R[2] = g__03517818_037;
 saveCont(co, clofun96, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ";\n", 2));
 return;
 }
 case 4:
 {
-Obj _3519167_37= co->res;
-Obj _3517791_37 = R[1];
-Obj _3517790_37 = R[2];
-Obj _3517792_37 = R[3];
-R[1] = _3517790_37;
-R[2] = _3517792_37;
+Obj g__03519193_037= co->res;
+Obj g__03517817_037 = R[1];
+Obj g__03517816_037 = R[2];
+Obj g__03517818_037 = R[3];
+R[1] = g__03517816_037;
+R[2] = g__03517818_037;
 saveCont(co, clofun96, 3, R);
-coraCall2(co, _3519167_37, _3517791_37, closureRef(R[0], 5));
+coraCall2(co, g__03519193_037, g__03517817_037, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3519166_37= co->res;
-Obj _3517791_37 = R[1];
-Obj _3517790_37 = R[2];
-Obj _3517792_37 = R[3];
-R[1] = _3517791_37;
-R[2] = _3517790_37;
-R[3] = _3517792_37;
+Obj g__03519192_037= co->res;
+Obj g__03517817_037 = R[1];
+Obj g__03517816_037 = R[2];
+Obj g__03517818_037 = R[3];
+R[1] = g__03517817_037;
+R[2] = g__03517816_037;
+R[3] = g__03517818_037;
 saveCont(co, clofun96, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3519165_37= co->res;
-Obj _3517791_37 = R[1];
-Obj _3517790_37 = R[2];
-Obj _3517792_37 = R[3];
-R[1] = _3517791_37;
-R[2] = _3517790_37;
-R[3] = _3517792_37;
+Obj g__03519191_037= co->res;
+Obj g__03517817_037 = R[1];
+Obj g__03517816_037 = R[2];
+Obj g__03517818_037 = R[3];
+R[1] = g__03517817_037;
+R[2] = g__03517816_037;
+R[3] = g__03517818_037;
 saveCont(co, clofun96, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, " = ", 3));
 return;
 }
 case 7:
 {
-Obj _3519164_37= co->res;
-Obj _3517791_37 = R[1];
-Obj _3517790_37 = R[2];
-Obj _3517792_37 = R[3];
-R[1] = _3517791_37;
-R[2] = _3517790_37;
-R[3] = _3517792_37;
+Obj g__03519190_037= co->res;
+Obj g__03517817_037 = R[1];
+Obj g__03517816_037 = R[2];
+Obj g__03517818_037 = R[3];
+R[1] = g__03517817_037;
+R[2] = g__03517816_037;
+R[3] = g__03517818_037;
 saveCont(co, clofun96, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), _3517790_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), g__03517816_037);
 return;
 }
 case 8:
 {
-Obj _3519163_37= co->res;
-Obj _3517791_37 = R[1];
-Obj _3517790_37 = R[2];
-Obj _3517792_37 = R[3];
-R[1] = _3517791_37;
-R[2] = _3517790_37;
-R[3] = _3517792_37;
+Obj g__03519189_037= co->res;
+Obj g__03517817_037 = R[1];
+Obj g__03517816_037 = R[2];
+Obj g__03517818_037 = R[3];
+R[1] = g__03517817_037;
+R[2] = g__03517816_037;
+R[3] = g__03517818_037;
 saveCont(co, clofun96, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "Obj ", 4));
 return;
 }
 }
@@ -3165,155 +3202,155 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517764_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3519107_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3519107_37) {
-Obj _3519108_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3519109_37 = PRIM_ISCONS(_3519108_37);
-if (True == _3519109_37) {
-Obj _3519110_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3519111_37 = PRIM_CAR(_3519110_37);
-Obj _3519112_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3519111_37);
-if (True == _3519112_37) {
-Obj _3519113_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3519114_37 = PRIM_CDR(_3519113_37);
-Obj _3519115_37 = PRIM_ISCONS(_3519114_37);
-if (True == _3519115_37) {
-Obj _3519116_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3519117_37 = PRIM_CDR(_3519116_37);
-Obj _3519118_37 = PRIM_CAR(_3519117_37);
-Obj _3517788_37 = _3519118_37;
-Obj _3519119_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3519120_37 = PRIM_CDR(_3519119_37);
-Obj _3519121_37 = PRIM_CDR(_3519120_37);
-Obj _3519122_37 = PRIM_EQ(Nil, _3519121_37);
-if (True == _3519122_37) {
-Obj _3519123_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517789_37 = _3519123_37;
-R[1] = _3517788_37;
-R[2] = _3517789_37;
+Obj g__03517790_037 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519133_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03519133_037) {
+Obj g__03519134_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519135_037 = PRIM_ISCONS(g__03519134_037);
+if (True == g__03519135_037) {
+Obj g__03519136_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519137_037 = PRIM_CAR(g__03519136_037);
+Obj g__03519138_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03519137_037);
+if (True == g__03519138_037) {
+Obj g__03519139_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519140_037 = PRIM_CDR(g__03519139_037);
+Obj g__03519141_037 = PRIM_ISCONS(g__03519140_037);
+if (True == g__03519141_037) {
+Obj g__03519142_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519143_037 = PRIM_CDR(g__03519142_037);
+Obj g__03519144_037 = PRIM_CAR(g__03519143_037);
+Obj g__03517814_037 = g__03519144_037;
+Obj g__03519145_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519146_037 = PRIM_CDR(g__03519145_037);
+Obj g__03519147_037 = PRIM_CDR(g__03519146_037);
+Obj g__03519148_037 = PRIM_EQ(Nil, g__03519147_037);
+if (True == g__03519148_037) {
+Obj g__03519149_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03517815_037 = g__03519149_037;
+R[1] = g__03517814_037;
+R[2] = g__03517815_037;
 saveCont(co, clofun95, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), _3517788_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), g__03517814_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517764_37);
+coraCall0(co, g__03517790_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517764_37);
+coraCall0(co, g__03517790_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517764_37);
+coraCall0(co, g__03517790_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517764_37);
+coraCall0(co, g__03517790_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517764_37);
+coraCall0(co, g__03517790_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519128_37= co->res;
+Obj g__03519154_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj _3519127_37= co->res;
-Obj _3517789_37 = R[1];
+Obj g__03519153_037= co->res;
+Obj g__03517815_037 = R[1];
 saveCont(co, clofun95, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3519131_37= co->res;
+Obj g__03519157_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 4:
 {
-Obj _3519130_37= co->res;
-Obj _3517789_37 = R[1];
+Obj g__03519156_037= co->res;
+Obj g__03517815_037 = R[1];
 saveCont(co, clofun95, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3519134_37= co->res;
+Obj g__03519160_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 6:
 {
-Obj _3519133_37= co->res;
-Obj _3517789_37 = R[1];
+Obj g__03519159_037= co->res;
+Obj g__03517815_037 = R[1];
 saveCont(co, clofun95, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3519136_37= co->res;
+Obj g__03519162_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 8:
 {
-Obj _3519135_37= co->res;
-Obj _3517789_37 = R[1];
+Obj g__03519161_037= co->res;
+Obj g__03517815_037 = R[1];
 saveCont(co, clofun95, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517789_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3519125_37= co->res;
-Obj _3517788_37 = R[1];
-Obj _3517789_37 = R[2];
-Obj _3519126_37 = PRIM_EQ(_3517788_37, getBinding(co, packageID, 121).name);
-if (True == _3519126_37) {
-R[1] = _3517789_37;
+Obj g__03519151_037= co->res;
+Obj g__03517814_037 = R[1];
+Obj g__03517815_037 = R[2];
+Obj g__03519152_037 = PRIM_EQ(g__03517814_037, getBinding(co, packageID, 122).name);
+if (True == g__03519152_037) {
+R[1] = g__03517815_037;
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co, ", 5));
 return;
 } else {
-Obj _3519129_37 = PRIM_EQ(_3517788_37, getBinding(co, packageID, 109).name);
-if (True == _3519129_37) {
-R[1] = _3517789_37;
+Obj g__03519155_037 = PRIM_EQ(g__03517814_037, getBinding(co, packageID, 110).name);
+if (True == g__03519155_037) {
+R[1] = g__03517815_037;
 saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co", 3));
 return;
 } else {
-Obj _3519132_37 = PRIM_EQ(_3517788_37, getBinding(co, packageID, 118).name);
-if (True == _3519132_37) {
-R[1] = _3517789_37;
+Obj g__03519158_037 = PRIM_EQ(g__03517814_037, getBinding(co, packageID, 119).name);
+if (True == g__03519158_037) {
+R[1] = g__03517815_037;
 saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co->gc, ", 9));
 return;
 } else {
-R[1] = _3517789_37;
+R[1] = g__03517815_037;
 saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(", 1));
 return;
 }
 }
@@ -3321,13 +3358,13 @@ return;
 }
 case 10:
 {
-Obj _3519124_37= co->res;
-Obj _3517788_37 = R[1];
-Obj _3517789_37 = R[2];
-R[1] = _3517788_37;
-R[2] = _3517789_37;
+Obj g__03519150_037= co->res;
+Obj g__03517814_037 = R[1];
+Obj g__03517815_037 = R[2];
+R[1] = g__03517814_037;
+R[2] = g__03517815_037;
 saveCont(co, clofun95, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3519124_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), g__03519150_037);
 return;
 }
 }
@@ -3337,167 +3374,167 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517765_37 = makeNative(co->gc, 5, clofun93, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3519072_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3519072_37) {
-Obj _3519073_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3519074_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3519073_37);
-if (True == _3519074_37) {
-Obj _3519075_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519076_37 = PRIM_ISCONS(_3519075_37);
-if (True == _3519076_37) {
-Obj _3519077_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519078_37 = PRIM_CAR(_3519077_37);
-Obj _3517785_37 = _3519078_37;
-Obj _3519079_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519080_37 = PRIM_CDR(_3519079_37);
-Obj _3519081_37 = PRIM_ISCONS(_3519080_37);
-if (True == _3519081_37) {
-Obj _3519082_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519083_37 = PRIM_CDR(_3519082_37);
-Obj _3519084_37 = PRIM_CAR(_3519083_37);
-Obj _3517786_37 = _3519084_37;
-Obj _3519085_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519086_37 = PRIM_CDR(_3519085_37);
-Obj _3519087_37 = PRIM_CDR(_3519086_37);
-Obj _3519088_37 = PRIM_ISCONS(_3519087_37);
-if (True == _3519088_37) {
-Obj _3519089_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519090_37 = PRIM_CDR(_3519089_37);
-Obj _3519091_37 = PRIM_CDR(_3519090_37);
-Obj _3519092_37 = PRIM_CAR(_3519091_37);
-Obj _3517787_37 = _3519092_37;
-Obj _3519093_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519094_37 = PRIM_CDR(_3519093_37);
-Obj _3519095_37 = PRIM_CDR(_3519094_37);
-Obj _3519096_37 = PRIM_CDR(_3519095_37);
-Obj _3519097_37 = PRIM_EQ(Nil, _3519096_37);
-if (True == _3519097_37) {
-R[1] = _3517785_37;
-R[2] = _3517786_37;
-R[3] = _3517787_37;
+Obj g__03517791_037 = makeNative(co->gc, 5, clofun93, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519098_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519098_037) {
+Obj g__03519099_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519100_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03519099_037);
+if (True == g__03519100_037) {
+Obj g__03519101_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519102_037 = PRIM_ISCONS(g__03519101_037);
+if (True == g__03519102_037) {
+Obj g__03519103_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519104_037 = PRIM_CAR(g__03519103_037);
+Obj g__03517811_037 = g__03519104_037;
+Obj g__03519105_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519106_037 = PRIM_CDR(g__03519105_037);
+Obj g__03519107_037 = PRIM_ISCONS(g__03519106_037);
+if (True == g__03519107_037) {
+Obj g__03519108_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519109_037 = PRIM_CDR(g__03519108_037);
+Obj g__03519110_037 = PRIM_CAR(g__03519109_037);
+Obj g__03517812_037 = g__03519110_037;
+Obj g__03519111_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519112_037 = PRIM_CDR(g__03519111_037);
+Obj g__03519113_037 = PRIM_CDR(g__03519112_037);
+Obj g__03519114_037 = PRIM_ISCONS(g__03519113_037);
+if (True == g__03519114_037) {
+Obj g__03519115_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519116_037 = PRIM_CDR(g__03519115_037);
+Obj g__03519117_037 = PRIM_CDR(g__03519116_037);
+Obj g__03519118_037 = PRIM_CAR(g__03519117_037);
+Obj g__03517813_037 = g__03519118_037;
+Obj g__03519119_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519120_037 = PRIM_CDR(g__03519119_037);
+Obj g__03519121_037 = PRIM_CDR(g__03519120_037);
+Obj g__03519122_037 = PRIM_CDR(g__03519121_037);
+Obj g__03519123_037 = PRIM_EQ(Nil, g__03519122_037);
+if (True == g__03519123_037) {
+R[1] = g__03517811_037;
+R[2] = g__03517812_037;
+R[3] = g__03517813_037;
 saveCont(co, clofun94, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "if (True == ", 12));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517765_37);
+coraCall0(co, g__03517791_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517765_37);
+coraCall0(co, g__03517791_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517765_37);
+coraCall0(co, g__03517791_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517765_37);
+coraCall0(co, g__03517791_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517765_37);
+coraCall0(co, g__03517791_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517765_37);
+coraCall0(co, g__03517791_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519106_37= co->res;
+Obj g__03519132_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "}\n", 2));
 return;
 }
 case 2:
 {
-Obj _3519105_37= co->res;
-Obj _3517787_37 = R[1];
+Obj g__03519131_037= co->res;
+Obj g__03517813_037 = R[1];
 saveCont(co, clofun94, 1, R);
-coraCall2(co, _3519105_37, _3517787_37, closureRef(R[0], 4));
+coraCall2(co, g__03519131_037, g__03517813_037, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3519104_37= co->res;
-Obj _3517787_37 = R[1];
-R[1] = _3517787_37;
+Obj g__03519130_037= co->res;
+Obj g__03517813_037 = R[1];
+R[1] = g__03517813_037;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3519103_37= co->res;
-Obj _3517787_37 = R[1];
-R[1] = _3517787_37;
+Obj g__03519129_037= co->res;
+Obj g__03517813_037 = R[1];
+R[1] = g__03517813_037;
 saveCont(co, clofun94, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "} else {\n", 9));
 return;
 }
 case 5:
 {
-Obj _3519102_37= co->res;
-Obj _3517786_37 = R[1];
-Obj _3517787_37 = R[2];
-R[1] = _3517787_37;
+Obj g__03519128_037= co->res;
+Obj g__03517812_037 = R[1];
+Obj g__03517813_037 = R[2];
+R[1] = g__03517813_037;
 saveCont(co, clofun94, 4, R);
-coraCall2(co, _3519102_37, _3517786_37, closureRef(R[0], 4));
+coraCall2(co, g__03519128_037, g__03517812_037, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3519101_37= co->res;
-Obj _3517786_37 = R[1];
-Obj _3517787_37 = R[2];
-R[1] = _3517786_37;
-R[2] = _3517787_37;
+Obj g__03519127_037= co->res;
+Obj g__03517812_037 = R[1];
+Obj g__03517813_037 = R[2];
+R[1] = g__03517812_037;
+R[2] = g__03517813_037;
 saveCont(co, clofun94, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3519100_37= co->res;
-Obj _3517786_37 = R[1];
-Obj _3517787_37 = R[2];
-R[1] = _3517786_37;
-R[2] = _3517787_37;
+Obj g__03519126_037= co->res;
+Obj g__03517812_037 = R[1];
+Obj g__03517813_037 = R[2];
+R[1] = g__03517812_037;
+R[2] = g__03517813_037;
 saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ") {\n", 4));
 return;
 }
 case 8:
 {
-Obj _3519099_37= co->res;
-Obj _3517785_37 = R[1];
-Obj _3517786_37 = R[2];
-Obj _3517787_37 = R[3];
-R[1] = _3517786_37;
-R[2] = _3517787_37;
+Obj g__03519125_037= co->res;
+Obj g__03517811_037 = R[1];
+Obj g__03517812_037 = R[2];
+Obj g__03517813_037 = R[3];
+R[1] = g__03517812_037;
+R[2] = g__03517813_037;
 saveCont(co, clofun94, 7, R);
-coraCall2(co, _3519099_37, _3517785_37, closureRef(R[0], 4));
+coraCall2(co, g__03519125_037, g__03517811_037, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3519098_37= co->res;
-Obj _3517785_37 = R[1];
-Obj _3517786_37 = R[2];
-Obj _3517787_37 = R[3];
-R[1] = _3517785_37;
-R[2] = _3517786_37;
-R[3] = _3517787_37;
+Obj g__03519124_037= co->res;
+Obj g__03517811_037 = R[1];
+Obj g__03517812_037 = R[2];
+Obj g__03517813_037 = R[3];
+R[1] = g__03517811_037;
+R[2] = g__03517812_037;
+R[3] = g__03517813_037;
 saveCont(co, clofun94, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3507,201 +3544,201 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517766_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3519034_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3519034_37) {
-Obj _3519035_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3519036_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3519035_37);
-if (True == _3519036_37) {
-Obj _3519037_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519038_37 = PRIM_ISCONS(_3519037_37);
-if (True == _3519038_37) {
-Obj _3519039_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519040_37 = PRIM_CAR(_3519039_37);
-Obj _3517781_37 = _3519040_37;
-Obj _3519041_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519042_37 = PRIM_CDR(_3519041_37);
-Obj _3519043_37 = PRIM_ISCONS(_3519042_37);
-if (True == _3519043_37) {
-Obj _3519044_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519045_37 = PRIM_CDR(_3519044_37);
-Obj _3519046_37 = PRIM_CAR(_3519045_37);
-Obj _3517782_37 = _3519046_37;
-Obj _3519047_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519048_37 = PRIM_CDR(_3519047_37);
-Obj _3519049_37 = PRIM_CDR(_3519048_37);
-Obj _3519050_37 = PRIM_ISCONS(_3519049_37);
-if (True == _3519050_37) {
-Obj _3519051_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519052_37 = PRIM_CDR(_3519051_37);
-Obj _3519053_37 = PRIM_CDR(_3519052_37);
-Obj _3519054_37 = PRIM_CAR(_3519053_37);
-Obj _3517783_37 = _3519054_37;
-Obj _3519055_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3519056_37 = PRIM_CDR(_3519055_37);
-Obj _3519057_37 = PRIM_CDR(_3519056_37);
-Obj _3519058_37 = PRIM_CDR(_3519057_37);
-Obj _3517784_37 = _3519058_37;
-R[1] = _3517783_37;
-R[2] = _3517781_37;
-R[3] = _3517782_37;
-R[4] = _3517784_37;
+Obj g__03517792_037 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj g__03519060_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03519060_037) {
+Obj g__03519061_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519062_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03519061_037);
+if (True == g__03519062_037) {
+Obj g__03519063_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519064_037 = PRIM_ISCONS(g__03519063_037);
+if (True == g__03519064_037) {
+Obj g__03519065_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519066_037 = PRIM_CAR(g__03519065_037);
+Obj g__03517807_037 = g__03519066_037;
+Obj g__03519067_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519068_037 = PRIM_CDR(g__03519067_037);
+Obj g__03519069_037 = PRIM_ISCONS(g__03519068_037);
+if (True == g__03519069_037) {
+Obj g__03519070_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519071_037 = PRIM_CDR(g__03519070_037);
+Obj g__03519072_037 = PRIM_CAR(g__03519071_037);
+Obj g__03517808_037 = g__03519072_037;
+Obj g__03519073_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519074_037 = PRIM_CDR(g__03519073_037);
+Obj g__03519075_037 = PRIM_CDR(g__03519074_037);
+Obj g__03519076_037 = PRIM_ISCONS(g__03519075_037);
+if (True == g__03519076_037) {
+Obj g__03519077_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519078_037 = PRIM_CDR(g__03519077_037);
+Obj g__03519079_037 = PRIM_CDR(g__03519078_037);
+Obj g__03519080_037 = PRIM_CAR(g__03519079_037);
+Obj g__03517809_037 = g__03519080_037;
+Obj g__03519081_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519082_037 = PRIM_CDR(g__03519081_037);
+Obj g__03519083_037 = PRIM_CDR(g__03519082_037);
+Obj g__03519084_037 = PRIM_CDR(g__03519083_037);
+Obj g__03517810_037 = g__03519084_037;
+R[1] = g__03517809_037;
+R[2] = g__03517807_037;
+R[3] = g__03517808_037;
+R[4] = g__03517810_037;
 saveCont(co, clofun93, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "makeNative(co->gc, ", 19));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517766_37);
+coraCall0(co, g__03517792_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517766_37);
+coraCall0(co, g__03517792_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517766_37);
+coraCall0(co, g__03517792_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517766_37);
+coraCall0(co, g__03517792_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517766_37);
+coraCall0(co, g__03517792_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519071_37= co->res;
+Obj g__03519097_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj _3519070_37= co->res;
-Obj _3517784_37 = R[1];
+Obj g__03519096_037= co->res;
+Obj g__03517810_037 = R[1];
 saveCont(co, clofun93, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517784_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517810_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3519068_37= co->res;
-Obj _3517784_37 = R[1];
-Obj _3519069_37 = primNot(_3519068_37);
-if (True == _3519069_37) {
-R[1] = _3517784_37;
+Obj g__03519094_037= co->res;
+Obj g__03517810_037 = R[1];
+Obj g__03519095_037 = primNot(g__03519094_037);
+if (True == g__03519095_037) {
+R[1] = g__03517810_037;
 saveCont(co, clofun93, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 }
 case 4:
 {
-Obj _3519067_37= co->res;
-Obj _3517784_37 = R[1];
-R[1] = _3517784_37;
+Obj g__03519093_037= co->res;
+Obj g__03517810_037 = R[1];
+R[1] = g__03517810_037;
 saveCont(co, clofun93, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517784_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517810_037);
 return;
 }
 case 5:
 {
-Obj _3519066_37= co->res;
-Obj _3517784_37 = R[1];
-R[1] = _3517784_37;
+Obj g__03519092_037= co->res;
+Obj g__03517810_037 = R[1];
+R[1] = g__03517810_037;
 saveCont(co, clofun93, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3519066_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519092_037);
 return;
 }
 case 6:
 {
-Obj _3519065_37= co->res;
-Obj _3517784_37 = R[1];
-R[1] = _3517784_37;
+Obj g__03519091_037= co->res;
+Obj g__03517810_037 = R[1];
+R[1] = g__03517810_037;
 saveCont(co, clofun93, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517784_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517810_037);
 return;
 }
 case 7:
 {
-Obj _3519064_37= co->res;
-Obj _3517784_37 = R[1];
-R[1] = _3517784_37;
+Obj g__03519090_037= co->res;
+Obj g__03517810_037 = R[1];
+R[1] = g__03517810_037;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 8:
 {
-Obj _3519063_37= co->res;
-Obj _3517782_37 = R[1];
-Obj _3517784_37 = R[2];
-R[1] = _3517784_37;
+Obj g__03519089_037= co->res;
+Obj g__03517808_037 = R[1];
+Obj g__03517810_037 = R[2];
+R[1] = g__03517810_037;
 saveCont(co, clofun93, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517782_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517808_037);
 return;
 }
 case 9:
 {
-Obj _3519062_37= co->res;
-Obj _3517782_37 = R[1];
-Obj _3517784_37 = R[2];
-R[1] = _3517782_37;
-R[2] = _3517784_37;
+Obj g__03519088_037= co->res;
+Obj g__03517808_037 = R[1];
+Obj g__03517810_037 = R[2];
+R[1] = g__03517808_037;
+R[2] = g__03517810_037;
 saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 10:
 {
-Obj _3519061_37= co->res;
-Obj _3517781_37 = R[1];
-Obj _3517782_37 = R[2];
-Obj _3517784_37 = R[3];
-R[1] = _3517782_37;
-R[2] = _3517784_37;
+Obj g__03519087_037= co->res;
+Obj g__03517807_037 = R[1];
+Obj g__03517808_037 = R[2];
+Obj g__03517810_037 = R[3];
+R[1] = g__03517808_037;
+R[2] = g__03517810_037;
 saveCont(co, clofun93, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), _3517781_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), g__03517807_037);
 return;
 }
 case 11:
 {
-Obj _3519060_37= co->res;
-Obj _3517781_37 = R[1];
-Obj _3517782_37 = R[2];
-Obj _3517784_37 = R[3];
-R[1] = _3517781_37;
-R[2] = _3517782_37;
-R[3] = _3517784_37;
+Obj g__03519086_037= co->res;
+Obj g__03517807_037 = R[1];
+Obj g__03517808_037 = R[2];
+Obj g__03517810_037 = R[3];
+R[1] = g__03517807_037;
+R[2] = g__03517808_037;
+R[3] = g__03517810_037;
 saveCont(co, clofun93, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 12:
 {
-Obj _3519059_37= co->res;
-Obj _3517783_37 = R[1];
-Obj _3517781_37 = R[2];
-Obj _3517782_37 = R[3];
-Obj _3517784_37 = R[4];
-R[1] = _3517781_37;
-R[2] = _3517782_37;
-R[3] = _3517784_37;
+Obj g__03519085_037= co->res;
+Obj g__03517809_037 = R[1];
+Obj g__03517807_037 = R[2];
+Obj g__03517808_037 = R[3];
+Obj g__03517810_037 = R[4];
+R[1] = g__03517807_037;
+R[2] = g__03517808_037;
+R[3] = g__03517810_037;
 saveCont(co, clofun93, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517783_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517809_037);
 return;
 }
 }
@@ -3711,96 +3748,96 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517767_37 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3519013_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3519013_37) {
-Obj _3519014_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3519015_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3519014_37);
-if (True == _3519015_37) {
-Obj _3519016_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519017_37 = PRIM_ISCONS(_3519016_37);
-if (True == _3519017_37) {
-Obj _3519018_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519019_37 = PRIM_CAR(_3519018_37);
-Obj _3517779_37 = _3519019_37;
-Obj _3519020_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519021_37 = PRIM_CDR(_3519020_37);
-Obj _3519022_37 = PRIM_ISCONS(_3519021_37);
-if (True == _3519022_37) {
-Obj _3519023_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519024_37 = PRIM_CDR(_3519023_37);
-Obj _3519025_37 = PRIM_CAR(_3519024_37);
-Obj _3517780_37 = _3519025_37;
-Obj _3519026_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519027_37 = PRIM_CDR(_3519026_37);
-Obj _3519028_37 = PRIM_CDR(_3519027_37);
-Obj _3519029_37 = PRIM_EQ(Nil, _3519028_37);
-if (True == _3519029_37) {
-R[1] = _3517779_37;
-R[2] = _3517780_37;
+Obj g__03517793_037 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj g__03519039_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519039_037) {
+Obj g__03519040_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519041_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03519040_037);
+if (True == g__03519041_037) {
+Obj g__03519042_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519043_037 = PRIM_ISCONS(g__03519042_037);
+if (True == g__03519043_037) {
+Obj g__03519044_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519045_037 = PRIM_CAR(g__03519044_037);
+Obj g__03517805_037 = g__03519045_037;
+Obj g__03519046_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519047_037 = PRIM_CDR(g__03519046_037);
+Obj g__03519048_037 = PRIM_ISCONS(g__03519047_037);
+if (True == g__03519048_037) {
+Obj g__03519049_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519050_037 = PRIM_CDR(g__03519049_037);
+Obj g__03519051_037 = PRIM_CAR(g__03519050_037);
+Obj g__03517806_037 = g__03519051_037;
+Obj g__03519052_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519053_037 = PRIM_CDR(g__03519052_037);
+Obj g__03519054_037 = PRIM_CDR(g__03519053_037);
+Obj g__03519055_037 = PRIM_EQ(Nil, g__03519054_037);
+if (True == g__03519055_037) {
+R[1] = g__03517805_037;
+R[2] = g__03517806_037;
 saveCont(co, clofun92, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517767_37);
+coraCall0(co, g__03517793_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517767_37);
+coraCall0(co, g__03517793_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517767_37);
+coraCall0(co, g__03517793_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517767_37);
+coraCall0(co, g__03517793_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517767_37);
+coraCall0(co, g__03517793_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519033_37= co->res;
-Obj _3517780_37 = R[1];
+Obj g__03519059_037= co->res;
+Obj g__03517806_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3519033_37, _3517780_37, closureRef(R[0], 5));
+coraCall2(co, g__03519059_037, g__03517806_037, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3519032_37= co->res;
-Obj _3517780_37 = R[1];
-R[1] = _3517780_37;
+Obj g__03519058_037= co->res;
+Obj g__03517806_037 = R[1];
+R[1] = g__03517806_037;
 saveCont(co, clofun92, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3519031_37= co->res;
-Obj _3517780_37 = R[1];
-R[1] = _3517780_37;
+Obj g__03519057_037= co->res;
+Obj g__03517806_037 = R[1];
+R[1] = g__03517806_037;
 saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ";\n", 2));
 return;
 }
 case 4:
 {
-Obj _3519030_37= co->res;
-Obj _3517779_37 = R[1];
-Obj _3517780_37 = R[2];
-R[1] = _3517780_37;
+Obj g__03519056_037= co->res;
+Obj g__03517805_037 = R[1];
+Obj g__03517806_037 = R[2];
+R[1] = g__03517806_037;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, _3519030_37, _3517779_37, closureRef(R[0], 5));
+coraCall2(co, g__03519056_037, g__03517805_037, closureRef(R[0], 5));
 return;
 }
 }
@@ -3810,76 +3847,76 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517768_37 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518999_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518999_37) {
-Obj _3519000_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3519001_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3519000_37);
-if (True == _3519001_37) {
-Obj _3519002_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519003_37 = PRIM_ISCONS(_3519002_37);
-if (True == _3519003_37) {
-Obj _3519004_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519005_37 = PRIM_CAR(_3519004_37);
-Obj _3517778_37 = _3519005_37;
-Obj _3519006_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3519007_37 = PRIM_CDR(_3519006_37);
-Obj _3519008_37 = PRIM_EQ(Nil, _3519007_37);
-if (True == _3519008_37) {
-R[1] = _3517778_37;
+Obj g__03517794_037 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519025_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519025_037) {
+Obj g__03519026_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519027_037 = PRIM_EQ(getBinding(co, packageID, 73).name, g__03519026_037);
+if (True == g__03519027_037) {
+Obj g__03519028_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519029_037 = PRIM_ISCONS(g__03519028_037);
+if (True == g__03519029_037) {
+Obj g__03519030_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519031_037 = PRIM_CAR(g__03519030_037);
+Obj g__03517804_037 = g__03519031_037;
+Obj g__03519032_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519033_037 = PRIM_CDR(g__03519032_037);
+Obj g__03519034_037 = PRIM_EQ(Nil, g__03519033_037);
+if (True == g__03519034_037) {
+R[1] = g__03517804_037;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "coraReturn(co, ", 15));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517768_37);
+coraCall0(co, g__03517794_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517768_37);
+coraCall0(co, g__03517794_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517768_37);
+coraCall0(co, g__03517794_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517768_37);
+coraCall0(co, g__03517794_037);
 return;
 }
 }
 case 1:
 {
-Obj _3519012_37= co->res;
+Obj g__03519038_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "return;\n", 8));
 return;
 }
 case 2:
 {
-Obj _3519011_37= co->res;
+Obj g__03519037_037= co->res;
 saveCont(co, clofun91, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ");\n", 3));
 return;
 }
 case 3:
 {
-Obj _3519010_37= co->res;
-Obj _3517778_37 = R[1];
+Obj g__03519036_037= co->res;
+Obj g__03517804_037 = R[1];
 saveCont(co, clofun91, 2, R);
-coraCall2(co, _3519010_37, _3517778_37, closureRef(R[0], 4));
+coraCall2(co, g__03519036_037, g__03517804_037, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3519009_37= co->res;
-Obj _3517778_37 = R[1];
-R[1] = _3517778_37;
+Obj g__03519035_037= co->res;
+Obj g__03517804_037 = R[1];
+R[1] = g__03517804_037;
 saveCont(co, clofun91, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3889,69 +3926,69 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517769_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518986_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518986_37) {
-Obj _3518987_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518988_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518987_37);
-if (True == _3518988_37) {
-Obj _3518989_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518990_37 = PRIM_ISCONS(_3518989_37);
-if (True == _3518990_37) {
-Obj _3518991_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518992_37 = PRIM_CAR(_3518991_37);
-Obj _3517777_37 = _3518992_37;
-Obj _3518993_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518994_37 = PRIM_CDR(_3518993_37);
-Obj _3518995_37 = PRIM_EQ(Nil, _3518994_37);
-if (True == _3518995_37) {
-R[1] = _3517777_37;
+Obj g__03517795_037 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519012_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519012_037) {
+Obj g__03519013_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519014_037 = PRIM_EQ(getBinding(co, packageID, 75).name, g__03519013_037);
+if (True == g__03519014_037) {
+Obj g__03519015_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519016_037 = PRIM_ISCONS(g__03519015_037);
+if (True == g__03519016_037) {
+Obj g__03519017_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519018_037 = PRIM_CAR(g__03519017_037);
+Obj g__03517803_037 = g__03519018_037;
+Obj g__03519019_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519020_037 = PRIM_CDR(g__03519019_037);
+Obj g__03519021_037 = PRIM_EQ(Nil, g__03519020_037);
+if (True == g__03519021_037) {
+R[1] = g__03517803_037;
 saveCont(co, clofun90, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "co->ctx.sp = R;\n", 16));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517769_37);
+coraCall0(co, g__03517795_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517769_37);
+coraCall0(co, g__03517795_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517769_37);
+coraCall0(co, g__03517795_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517769_37);
+coraCall0(co, g__03517795_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518998_37= co->res;
+Obj g__03519024_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "return;\n", 8));
 return;
 }
 case 2:
 {
-Obj _3518997_37= co->res;
-Obj _3517777_37 = R[1];
+Obj g__03519023_037= co->res;
+Obj g__03517803_037 = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, _3518997_37, _3517777_37, closureRef(R[0], 4));
+coraCall2(co, g__03519023_037, g__03517803_037, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518996_37= co->res;
-Obj _3517777_37 = R[1];
-R[1] = _3517777_37;
+Obj g__03519022_037= co->res;
+Obj g__03517803_037 = R[1];
+R[1] = g__03517803_037;
 saveCont(co, clofun90, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 }
@@ -3961,131 +3998,131 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517770_37 = makeNative(co->gc, 4, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518962_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518962_37) {
-Obj _3518963_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518964_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518963_37);
-if (True == _3518964_37) {
-Obj _3518965_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518966_37 = PRIM_ISCONS(_3518965_37);
-if (True == _3518966_37) {
-Obj _3518967_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518968_37 = PRIM_CAR(_3518967_37);
-Obj _3517774_37 = _3518968_37;
-Obj _3518969_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518970_37 = PRIM_CDR(_3518969_37);
-Obj _3518971_37 = PRIM_ISCONS(_3518970_37);
-if (True == _3518971_37) {
-Obj _3518972_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518973_37 = PRIM_CDR(_3518972_37);
-Obj _3518974_37 = PRIM_CAR(_3518973_37);
-Obj _3517775_37 = _3518974_37;
-Obj _3518975_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518976_37 = PRIM_CDR(_3518975_37);
-Obj _3518977_37 = PRIM_CDR(_3518976_37);
-Obj _3517776_37 = _3518977_37;
-R[1] = _3517775_37;
-R[2] = _3517774_37;
+Obj g__03517796_037 = makeNative(co->gc, 4, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03518988_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518988_037) {
+Obj g__03518989_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518990_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518989_037);
+if (True == g__03518990_037) {
+Obj g__03518991_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518992_037 = PRIM_ISCONS(g__03518991_037);
+if (True == g__03518992_037) {
+Obj g__03518993_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518994_037 = PRIM_CAR(g__03518993_037);
+Obj g__03517800_037 = g__03518994_037;
+Obj g__03518995_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518996_037 = PRIM_CDR(g__03518995_037);
+Obj g__03518997_037 = PRIM_ISCONS(g__03518996_037);
+if (True == g__03518997_037) {
+Obj g__03518998_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518999_037 = PRIM_CDR(g__03518998_037);
+Obj g__03519000_037 = PRIM_CAR(g__03518999_037);
+Obj g__03517801_037 = g__03519000_037;
+Obj g__03519001_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03519002_037 = PRIM_CDR(g__03519001_037);
+Obj g__03519003_037 = PRIM_CDR(g__03519002_037);
+Obj g__03517802_037 = g__03519003_037;
+R[1] = g__03517801_037;
+R[2] = g__03517800_037;
 saveCont(co, clofun89, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), _3517776_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), g__03517802_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517770_37);
+coraCall0(co, g__03517796_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517770_37);
+coraCall0(co, g__03517796_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517770_37);
+coraCall0(co, g__03517796_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517770_37);
+coraCall0(co, g__03517796_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518985_37= co->res;
+Obj g__03519011_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "return;\n", 8));
 return;
 }
 case 2:
 {
-Obj _3518984_37= co->res;
-Obj _3517774_37 = R[1];
+Obj g__03519010_037= co->res;
+Obj g__03517800_037 = R[1];
 saveCont(co, clofun89, 1, R);
-coraCall2(co, _3518984_37, _3517774_37, closureRef(R[0], 4));
+coraCall2(co, g__03519010_037, g__03517800_037, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518983_37= co->res;
-Obj _3517774_37 = R[1];
-R[1] = _3517774_37;
+Obj g__03519009_037= co->res;
+Obj g__03517800_037 = R[1];
+R[1] = g__03517800_037;
 saveCont(co, clofun89, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518982_37= co->res;
-Obj _3517774_37 = R[1];
-R[1] = _3517774_37;
+Obj g__03519008_037= co->res;
+Obj g__03517800_037 = R[1];
+R[1] = g__03517800_037;
 saveCont(co, clofun89, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", R);\n", 6));
 return;
 }
 case 5:
 {
-Obj _3518981_37= co->res;
-Obj _3517775_37 = R[1];
-Obj _3517774_37 = R[2];
-R[1] = _3517774_37;
+Obj g__03519007_037= co->res;
+Obj g__03517801_037 = R[1];
+Obj g__03517800_037 = R[2];
+R[1] = g__03517800_037;
 saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517775_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517801_037);
 return;
 }
 case 6:
 {
-Obj _3518980_37= co->res;
-Obj _3517775_37 = R[1];
-Obj _3517774_37 = R[2];
-R[1] = _3517775_37;
-R[2] = _3517774_37;
+Obj g__03519006_037= co->res;
+Obj g__03517801_037 = R[1];
+Obj g__03517800_037 = R[2];
+R[1] = g__03517801_037;
+R[2] = g__03517800_037;
 saveCont(co, clofun89, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 7:
 {
-Obj _3518979_37= co->res;
-Obj _3517775_37 = R[1];
-Obj _3517774_37 = R[2];
-R[1] = _3517775_37;
-R[2] = _3517774_37;
+Obj g__03519005_037= co->res;
+Obj g__03517801_037 = R[1];
+Obj g__03517800_037 = R[2];
+R[1] = g__03517801_037;
+R[2] = g__03517800_037;
 saveCont(co, clofun89, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3518978_37= co->res;
-Obj _3517775_37 = R[1];
-Obj _3517774_37 = R[2];
-R[1] = _3517775_37;
-R[2] = _3517774_37;
+Obj g__03519004_037= co->res;
+Obj g__03517801_037 = R[1];
+Obj g__03517800_037 = R[2];
+R[1] = g__03517801_037;
+R[2] = g__03517800_037;
 saveCont(co, clofun89, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "saveCont(co, ", 13));
 return;
 }
 }
@@ -4095,234 +4132,234 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518939_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518939_37) {
-Obj _3518940_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517771_37 = _3518940_37;
-Obj _3518941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517772_37 = _3518941_37;
-R[1] = _3517771_37;
-R[2] = _3517772_37;
+Obj g__03518965_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518965_037) {
+Obj g__03518966_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517797_037 = g__03518966_037;
+Obj g__03518967_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517798_037 = g__03518967_037;
+R[1] = g__03517797_037;
+R[2] = g__03517798_037;
 saveCont(co, clofun88, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517772_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517798_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3518953_37= co->res;
+Obj g__03518979_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", __args);\n", 11));
 return;
 }
 case 2:
 {
-Obj _3518952_37= co->res;
-Obj _3517773_37 = R[1];
+Obj g__03518978_037= co->res;
+Obj g__03517799_037 = R[1];
 saveCont(co, clofun88, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517773_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517799_037);
 return;
 }
 case 3:
 {
-Obj _3518951_37= co->res;
-Obj _3517773_37 = R[1];
-R[1] = _3517773_37;
+Obj g__03518977_037= co->res;
+Obj g__03517799_037 = R[1];
+R[1] = g__03517799_037;
 saveCont(co, clofun88, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 4:
 {
-Obj _3518950_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-R[1] = _3517773_37;
+Obj g__03518976_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+R[1] = g__03517799_037;
 saveCont(co, clofun88, 3, R);
-coraCall2(co, _3518950_37, _3517771_37, closureRef(R[0], 4));
+coraCall2(co, g__03518976_037, g__03517797_037, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3518949_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
+Obj g__03518975_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
 saveCont(co, clofun88, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3518948_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
+Obj g__03518974_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
 saveCont(co, clofun88, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "coraCall(co, ", 13));
 return;
 }
 case 7:
 {
-Obj _3518947_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
+Obj g__03518973_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
 saveCont(co, clofun88, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "};\n", 3));
 return;
 }
 case 8:
 {
-Obj _3518946_37= co->res;
-Obj _3517772_37 = R[1];
-Obj _3517771_37 = R[2];
-Obj _3517773_37 = R[3];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
+Obj g__03518972_037= co->res;
+Obj g__03517798_037 = R[1];
+Obj g__03517797_037 = R[2];
+Obj g__03517799_037 = R[3];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
 saveCont(co, clofun88, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517772_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517798_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518945_37= co->res;
-Obj _3517772_37 = R[1];
-Obj _3517771_37 = R[2];
-Obj _3517773_37 = R[3];
-R[1] = _3517772_37;
-R[2] = _3517771_37;
-R[3] = _3517773_37;
+Obj g__03518971_037= co->res;
+Obj g__03517798_037 = R[1];
+Obj g__03517797_037 = R[2];
+Obj g__03517799_037 = R[3];
+R[1] = g__03517798_037;
+R[2] = g__03517797_037;
+R[3] = g__03517799_037;
 saveCont(co, clofun88, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "] = {", 5));
 return;
 }
 case 10:
 {
-Obj _3518944_37= co->res;
-Obj _3517772_37 = R[1];
-Obj _3517771_37 = R[2];
-Obj _3517773_37 = R[3];
-R[1] = _3517772_37;
-R[2] = _3517771_37;
-R[3] = _3517773_37;
+Obj g__03518970_037= co->res;
+Obj g__03517798_037 = R[1];
+Obj g__03517797_037 = R[2];
+Obj g__03517799_037 = R[3];
+R[1] = g__03517798_037;
+R[2] = g__03517797_037;
+R[3] = g__03517799_037;
 saveCont(co, clofun88, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517773_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517799_037);
 return;
 }
 case 11:
 {
-Obj _3518961_37= co->res;
+Obj g__03518987_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ");\n", 3));
 return;
 }
 case 12:
 {
-Obj _3518960_37= co->res;
-Obj _3517772_37 = R[1];
+Obj g__03518986_037= co->res;
+Obj g__03517798_037 = R[1];
 saveCont(co, clofun88, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517772_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517798_037};
+coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3518958_37= co->res;
-Obj _3517773_37 = R[1];
-Obj _3517772_37 = R[2];
-Obj _3518959_37 = PRIM_GT(_3517773_37, MAKE_NUMBER(0));
-if (True == _3518959_37) {
-R[1] = _3517772_37;
+Obj g__03518984_037= co->res;
+Obj g__03517799_037 = R[1];
+Obj g__03517798_037 = R[2];
+Obj g__03518985_037 = PRIM_GT(g__03517799_037, MAKE_NUMBER(0));
+if (True == g__03518985_037) {
+R[1] = g__03517798_037;
 saveCont(co, clofun88, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 } else {
 Nil;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ");\n", 3));
 return;
 }
 }
 case 14:
 {
-Obj _3518957_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-Obj _3517772_37 = R[3];
-R[1] = _3517773_37;
-R[2] = _3517772_37;
+Obj g__03518983_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+Obj g__03517798_037 = R[3];
+R[1] = g__03517799_037;
+R[2] = g__03517798_037;
 saveCont(co, clofun88, 13, R);
-coraCall2(co, _3518957_37, _3517771_37, closureRef(R[0], 4));
+coraCall2(co, g__03518983_037, g__03517797_037, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3518956_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-Obj _3517772_37 = R[3];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
-R[3] = _3517772_37;
+Obj g__03518982_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+Obj g__03517798_037 = R[3];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
+R[3] = g__03517798_037;
 saveCont(co, clofun88, 14, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3518955_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-Obj _3517772_37 = R[3];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
-R[3] = _3517772_37;
+Obj g__03518981_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+Obj g__03517798_037 = R[3];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
+R[3] = g__03517798_037;
 saveCont(co, clofun88, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co, ", 5));
 return;
 }
 case 17:
 {
-Obj _3518954_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517773_37 = R[2];
-Obj _3517772_37 = R[3];
-R[1] = _3517771_37;
-R[2] = _3517773_37;
-R[3] = _3517772_37;
+Obj g__03518980_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517799_037 = R[2];
+Obj g__03517798_037 = R[3];
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
+R[3] = g__03517798_037;
 saveCont(co, clofun88, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517773_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517799_037);
 return;
 }
 case 18:
 {
-Obj _3518942_37= co->res;
-Obj _3517771_37 = R[1];
-Obj _3517772_37 = R[2];
-Obj _3517773_37 = _3518942_37;
-Obj _3518943_37 = PRIM_GT(_3517773_37, MAKE_NUMBER(4));
-if (True == _3518943_37) {
-R[1] = _3517772_37;
-R[2] = _3517771_37;
-R[3] = _3517773_37;
+Obj g__03518968_037= co->res;
+Obj g__03517797_037 = R[1];
+Obj g__03517798_037 = R[2];
+Obj g__03517799_037 = g__03518968_037;
+Obj g__03518969_037 = PRIM_GT(g__03517799_037, MAKE_NUMBER(4));
+if (True == g__03518969_037) {
+R[1] = g__03517798_037;
+R[2] = g__03517797_037;
+R[3] = g__03517799_037;
 saveCont(co, clofun88, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "Obj __args[", 11));
 return;
 } else {
-R[1] = _3517771_37;
-R[2] = _3517773_37;
-R[3] = _3517772_37;
+R[1] = g__03517797_037;
+R[2] = g__03517799_037;
+R[3] = g__03517798_037;
 saveCont(co, clofun88, 17, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "coraCall", 8));
 return;
 }
 }
@@ -4333,13 +4370,13 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun86, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun86, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4349,58 +4386,58 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun86, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "Obj ", 4));
 return;
 }
 case 1:
 {
-Obj _3518934_37= co->res;
-Obj acc = R[1];
-Obj _3518935_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518935_37);
+Obj g__03518960_037= co->res;
+Obj v_acc = R[1];
+Obj g__03518961_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03518961_037);
 return;
 }
 case 2:
 {
-Obj _3518933_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03518959_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "];\n", 3));
 return;
 }
 case 3:
 {
-Obj _3518932_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03518958_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj _3518931_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03518957_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun86, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, " = R[", 5));
 return;
 }
 case 5:
 {
-Obj _3518930_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj g__03518956_037= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun86, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 }
@@ -4410,13 +4447,13 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun84, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun84, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4426,62 +4463,62 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun84, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "R[", 2));
 return;
 }
 case 1:
 {
-Obj _3518927_37= co->res;
-Obj acc = R[1];
-Obj _3518928_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518928_37);
+Obj g__03518953_037= co->res;
+Obj v_acc = R[1];
+Obj g__03518954_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03518954_037);
 return;
 }
 case 2:
 {
-Obj _3518926_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03518952_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun84, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ";\n", 2));
 return;
 }
 case 3:
 {
-Obj _3518925_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj g__03518951_037= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun84, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
-coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
+coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518924_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
+Obj g__03518950_037= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun84, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "] = ", 4));
 return;
 }
 case 5:
 {
-Obj _3518923_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
+Obj g__03518949_037= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun84, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -4491,10 +4528,10 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
+Obj v_sym = R[1];
+Obj v_globals = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), sym, globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), MAKE_NUMBER(0), v_sym, v_globals);
 return;
 }
 }
@@ -4504,36 +4541,36 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj idx = R[1];
-Obj sym = R[2];
-Obj globals = R[3];
-R[1] = idx;
-R[2] = globals;
-R[3] = sym;
+Obj v_idx = R[1];
+Obj v_sym = R[2];
+Obj v_globals = R[3];
+R[1] = v_idx;
+R[2] = v_globals;
+R[3] = v_sym;
 saveCont(co, clofun82, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518916_37= co->res;
-Obj idx = R[1];
-Obj globals = R[2];
-Obj sym = R[3];
-if (True == _3518916_37) {
+Obj g__03518942_037= co->res;
+Obj v_idx = R[1];
+Obj v_globals = R[2];
+Obj v_sym = R[3];
+if (True == g__03518942_037) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3518917_37 = PRIM_CAR(globals);
-Obj _3518918_37 = PRIM_EQ(sym, _3518917_37);
-if (True == _3518918_37) {
-coraReturn(co, idx);
+Obj g__03518943_037 = PRIM_CAR(v_globals);
+Obj g__03518944_037 = PRIM_EQ(v_sym, g__03518943_037);
+if (True == g__03518944_037) {
+coraReturn(co, v_idx);
 return;
 } else {
-Obj _3518919_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3518920_37 = PRIM_CDR(globals);
+Obj g__03518945_037 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj g__03518946_037 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3518919_37, sym, _3518920_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), g__03518945_037, v_sym, g__03518946_037);
 return;
 }
 }
@@ -4545,41 +4582,41 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
-R[1] = sym;
-R[2] = globals;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+R[1] = v_sym;
+R[2] = v_globals;
 saveCont(co, clofun81, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518912_37= co->res;
-Obj sym = R[1];
-Obj _3517758_37 = R[2];
-Obj globals = R[3];
-if (True == _3518912_37) {
+Obj g__03518938_037= co->res;
+Obj v_sym = R[1];
+Obj g__03517784_037 = R[2];
+Obj v_globals = R[3];
+if (True == g__03518938_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518913_37 = makeCons(co->gc, sym, _3517758_37);
-Obj _3518914_37 = primSet(co, globals, _3518913_37);
-coraReturn(co, _3518914_37);
+Obj g__03518939_037 = makeCons(co->gc, v_sym, g__03517784_037);
+Obj g__03518940_037 = primSet(co, v_globals, g__03518939_037);
+coraReturn(co, g__03518940_037);
 return;
 }
 }
 case 2:
 {
-Obj _3518911_37= co->res;
-Obj sym = R[1];
-Obj globals = R[2];
-Obj _3517758_37 = _3518911_37;
-R[1] = sym;
-R[2] = _3517758_37;
-R[3] = globals;
+Obj g__03518937_037= co->res;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+Obj g__03517784_037 = g__03518937_037;
+R[1] = v_sym;
+R[2] = g__03517784_037;
+R[3] = v_globals;
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), sym, _3517758_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_sym, g__03517784_037);
 return;
 }
 }
@@ -4589,26 +4626,26 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj k = R[2];
-Obj _3518904_37 = primGenSym(co);
-Obj _3517757_37 = _3518904_37;
-R[1] = x;
-R[2] = _3517757_37;
+Obj v_x = R[1];
+Obj v_k = R[2];
+Obj g__03518930_037 = primGenSym(co);
+Obj g__03517783_037 = g__03518930_037;
+R[1] = v_x;
+R[2] = g__03517783_037;
 saveCont(co, clofun80, 1, R);
-coraCall1(co, k, _3517757_37);
+coraCall1(co, v_k, g__03517783_037);
 return;
 }
 case 1:
 {
-Obj _3518905_37= co->res;
-Obj x = R[1];
-Obj _3517757_37 = R[2];
-Obj _3518906_37 = makeCons(co->gc, _3518905_37, Nil);
-Obj _3518907_37 = makeCons(co->gc, x, _3518906_37);
-Obj _3518908_37 = makeCons(co->gc, _3517757_37, _3518907_37);
-Obj _3518909_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518908_37);
-coraReturn(co, _3518909_37);
+Obj g__03518931_037= co->res;
+Obj v_x = R[1];
+Obj g__03517783_037 = R[2];
+Obj g__03518932_037 = makeCons(co->gc, g__03518931_037, Nil);
+Obj g__03518933_037 = makeCons(co->gc, v_x, g__03518932_037);
+Obj g__03518934_037 = makeCons(co->gc, g__03517783_037, g__03518933_037);
+Obj g__03518935_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518934_037);
+coraReturn(co, g__03518935_037);
 return;
 }
 }
@@ -4618,52 +4655,52 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v = R[1];
-Obj val = R[2];
-R[1] = val;
-R[2] = v;
+Obj v_v = R[1];
+Obj v_val = R[2];
+R[1] = v_val;
+R[2] = v_v;
 saveCont(co, clofun79, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3518902_37= co->res;
-Obj v = R[1];
-Obj _3517756_37 = R[2];
+Obj g__03518928_037= co->res;
+Obj v_v = R[1];
+Obj g__03517782_037 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), _3517756_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), g__03517782_037);
 return;
 }
 case 2:
 {
-Obj _3518897_37= co->res;
-Obj val = R[1];
-Obj _3517754_37 = R[2];
-Obj v = R[3];
-Obj _3517755_37 = _3518897_37;
-Obj _3518898_37 = makeCons(co->gc, val, Nil);
-Obj _3518899_37 = makeCons(co->gc, _3517754_37, _3518898_37);
-Obj _3518900_37 = makeCons(co->gc, _3518899_37, _3517755_37);
-Obj _3517756_37 = _3518900_37;
-Obj _3518901_37 = PRIM_ADD(_3517754_37, MAKE_NUMBER(1));
-R[1] = v;
-R[2] = _3517756_37;
+Obj g__03518923_037= co->res;
+Obj v_val = R[1];
+Obj g__03517780_037 = R[2];
+Obj v_v = R[3];
+Obj g__03517781_037 = g__03518923_037;
+Obj g__03518924_037 = makeCons(co->gc, v_val, Nil);
+Obj g__03518925_037 = makeCons(co->gc, g__03517780_037, g__03518924_037);
+Obj g__03518926_037 = makeCons(co->gc, g__03518925_037, g__03517781_037);
+Obj g__03517782_037 = g__03518926_037;
+Obj g__03518927_037 = PRIM_ADD(g__03517780_037, MAKE_NUMBER(1));
+R[1] = v_v;
+R[2] = g__03517782_037;
 saveCont(co, clofun79, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3518901_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), g__03518927_037);
 return;
 }
 case 3:
 {
-Obj _3518896_37= co->res;
-Obj val = R[1];
-Obj v = R[2];
-Obj _3517754_37 = _3518896_37;
-R[1] = val;
-R[2] = _3517754_37;
-R[3] = v;
+Obj g__03518922_037= co->res;
+Obj v_val = R[1];
+Obj v_v = R[2];
+Obj g__03517780_037 = g__03518922_037;
+R[1] = v_val;
+R[2] = g__03517780_037;
+R[3] = v_v;
 saveCont(co, clofun79, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4673,195 +4710,195 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517523_37 = R[1];
-Obj _3517524_37 = R[2];
-Obj _3517746_37 = makeNative(co->gc, 1, clofun77, 0, 2, _3517523_37, _3517524_37);
-Obj _3518847_37 = PRIM_ISCONS(_3517524_37);
-if (True == _3518847_37) {
-Obj _3518848_37 = PRIM_CAR(_3517524_37);
-Obj _3518849_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518848_37);
-if (True == _3518849_37) {
-Obj _3518850_37 = PRIM_CDR(_3517524_37);
-Obj _3518851_37 = PRIM_ISCONS(_3518850_37);
-if (True == _3518851_37) {
-Obj _3518852_37 = PRIM_CDR(_3517524_37);
-Obj _3518853_37 = PRIM_CAR(_3518852_37);
-Obj _3518854_37 = PRIM_ISCONS(_3518853_37);
-if (True == _3518854_37) {
-Obj _3518855_37 = PRIM_CDR(_3517524_37);
-Obj _3518856_37 = PRIM_CAR(_3518855_37);
-Obj _3518857_37 = PRIM_CAR(_3518856_37);
-Obj _3518858_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518857_37);
-if (True == _3518858_37) {
-Obj _3518859_37 = PRIM_CDR(_3517524_37);
-Obj _3518860_37 = PRIM_CAR(_3518859_37);
-Obj _3518861_37 = PRIM_CDR(_3518860_37);
-Obj _3518862_37 = PRIM_ISCONS(_3518861_37);
-if (True == _3518862_37) {
-Obj _3518863_37 = PRIM_CDR(_3517524_37);
-Obj _3518864_37 = PRIM_CAR(_3518863_37);
-Obj _3518865_37 = PRIM_CDR(_3518864_37);
-Obj _3518866_37 = PRIM_CAR(_3518865_37);
-Obj _3517747_37 = _3518866_37;
-Obj _3518867_37 = PRIM_CDR(_3517524_37);
-Obj _3518868_37 = PRIM_CAR(_3518867_37);
-Obj _3518869_37 = PRIM_CDR(_3518868_37);
-Obj _3518870_37 = PRIM_CDR(_3518869_37);
-Obj _3518871_37 = PRIM_ISCONS(_3518870_37);
-if (True == _3518871_37) {
-Obj _3518872_37 = PRIM_CDR(_3517524_37);
-Obj _3518873_37 = PRIM_CAR(_3518872_37);
-Obj _3518874_37 = PRIM_CDR(_3518873_37);
-Obj _3518875_37 = PRIM_CDR(_3518874_37);
-Obj _3518876_37 = PRIM_CAR(_3518875_37);
-Obj _3517748_37 = _3518876_37;
-Obj _3518877_37 = PRIM_CDR(_3517524_37);
-Obj _3518878_37 = PRIM_CAR(_3518877_37);
-Obj _3518879_37 = PRIM_CDR(_3518878_37);
-Obj _3518880_37 = PRIM_CDR(_3518879_37);
-Obj _3518881_37 = PRIM_CDR(_3518880_37);
-Obj _3518882_37 = PRIM_EQ(Nil, _3518881_37);
-if (True == _3518882_37) {
-Obj _3518883_37 = PRIM_CDR(_3517524_37);
-Obj _3518884_37 = PRIM_CDR(_3518883_37);
-Obj _3517749_37 = _3518884_37;
-R[1] = _3517523_37;
-R[2] = _3517747_37;
-R[3] = _3517749_37;
+Obj g__03517549_037 = R[1];
+Obj g__03517550_037 = R[2];
+Obj g__03517772_037 = makeNative(co->gc, 1, clofun77, 0, 2, g__03517549_037, g__03517550_037);
+Obj g__03518873_037 = PRIM_ISCONS(g__03517550_037);
+if (True == g__03518873_037) {
+Obj g__03518874_037 = PRIM_CAR(g__03517550_037);
+Obj g__03518875_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518874_037);
+if (True == g__03518875_037) {
+Obj g__03518876_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518877_037 = PRIM_ISCONS(g__03518876_037);
+if (True == g__03518877_037) {
+Obj g__03518878_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518879_037 = PRIM_CAR(g__03518878_037);
+Obj g__03518880_037 = PRIM_ISCONS(g__03518879_037);
+if (True == g__03518880_037) {
+Obj g__03518881_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518882_037 = PRIM_CAR(g__03518881_037);
+Obj g__03518883_037 = PRIM_CAR(g__03518882_037);
+Obj g__03518884_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518883_037);
+if (True == g__03518884_037) {
+Obj g__03518885_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518886_037 = PRIM_CAR(g__03518885_037);
+Obj g__03518887_037 = PRIM_CDR(g__03518886_037);
+Obj g__03518888_037 = PRIM_ISCONS(g__03518887_037);
+if (True == g__03518888_037) {
+Obj g__03518889_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518890_037 = PRIM_CAR(g__03518889_037);
+Obj g__03518891_037 = PRIM_CDR(g__03518890_037);
+Obj g__03518892_037 = PRIM_CAR(g__03518891_037);
+Obj g__03517773_037 = g__03518892_037;
+Obj g__03518893_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518894_037 = PRIM_CAR(g__03518893_037);
+Obj g__03518895_037 = PRIM_CDR(g__03518894_037);
+Obj g__03518896_037 = PRIM_CDR(g__03518895_037);
+Obj g__03518897_037 = PRIM_ISCONS(g__03518896_037);
+if (True == g__03518897_037) {
+Obj g__03518898_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518899_037 = PRIM_CAR(g__03518898_037);
+Obj g__03518900_037 = PRIM_CDR(g__03518899_037);
+Obj g__03518901_037 = PRIM_CDR(g__03518900_037);
+Obj g__03518902_037 = PRIM_CAR(g__03518901_037);
+Obj g__03517774_037 = g__03518902_037;
+Obj g__03518903_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518904_037 = PRIM_CAR(g__03518903_037);
+Obj g__03518905_037 = PRIM_CDR(g__03518904_037);
+Obj g__03518906_037 = PRIM_CDR(g__03518905_037);
+Obj g__03518907_037 = PRIM_CDR(g__03518906_037);
+Obj g__03518908_037 = PRIM_EQ(Nil, g__03518907_037);
+if (True == g__03518908_037) {
+Obj g__03518909_037 = PRIM_CDR(g__03517550_037);
+Obj g__03518910_037 = PRIM_CDR(g__03518909_037);
+Obj g__03517775_037 = g__03518910_037;
+R[1] = g__03517549_037;
+R[2] = g__03517773_037;
+R[3] = g__03517775_037;
 saveCont(co, clofun78, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517523_37, _3517748_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), g__03517549_037, g__03517774_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517746_37);
+coraCall0(co, g__03517772_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518890_37= co->res;
-Obj _3517753_37 = R[1];
-Obj _3517749_37 = R[2];
-Obj _3517751_37 = R[3];
-Obj _3518891_37 = makeCons(co->gc, _3517753_37, _3517749_37);
-Obj _3518892_37 = makeCons(co->gc, _3518890_37, _3518891_37);
-Obj _3518893_37 = makeCons(co->gc, _3517751_37, _3518892_37);
-Obj _3518894_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518893_37);
-coraReturn(co, _3518894_37);
+Obj g__03518916_037= co->res;
+Obj g__03517779_037 = R[1];
+Obj g__03517775_037 = R[2];
+Obj g__03517777_037 = R[3];
+Obj g__03518917_037 = makeCons(co->gc, g__03517779_037, g__03517775_037);
+Obj g__03518918_037 = makeCons(co->gc, g__03518916_037, g__03518917_037);
+Obj g__03518919_037 = makeCons(co->gc, g__03517777_037, g__03518918_037);
+Obj g__03518920_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518919_037);
+coraReturn(co, g__03518920_037);
 return;
 }
 case 2:
 {
-Obj _3518889_37= co->res;
-Obj _3517747_37 = R[1];
-Obj _3517753_37 = R[2];
-Obj _3517749_37 = R[3];
-Obj _3517751_37 = R[4];
-R[1] = _3517753_37;
-R[2] = _3517749_37;
-R[3] = _3517751_37;
+Obj g__03518915_037= co->res;
+Obj g__03517773_037 = R[1];
+Obj g__03517779_037 = R[2];
+Obj g__03517775_037 = R[3];
+Obj g__03517777_037 = R[4];
+R[1] = g__03517779_037;
+R[2] = g__03517775_037;
+R[3] = g__03517777_037;
 saveCont(co, clofun78, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517747_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517773_037);
 return;
 }
 case 3:
 {
-Obj _3518888_37= co->res;
-Obj _3517523_37 = R[1];
-Obj _3517752_37 = R[2];
-Obj _3517747_37 = R[3];
-Obj _3517749_37 = R[4];
-Obj _3517751_37 = R[5];
-Obj _3517753_37 = _3518888_37;
-R[1] = _3517747_37;
-R[2] = _3517753_37;
-R[3] = _3517749_37;
-R[4] = _3517751_37;
+Obj g__03518914_037= co->res;
+Obj g__03517549_037 = R[1];
+Obj g__03517778_037 = R[2];
+Obj g__03517773_037 = R[3];
+Obj g__03517775_037 = R[4];
+Obj g__03517777_037 = R[5];
+Obj g__03517779_037 = g__03518914_037;
+R[1] = g__03517773_037;
+R[2] = g__03517779_037;
+R[3] = g__03517775_037;
+R[4] = g__03517777_037;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517523_37, _3517752_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), g__03517549_037, g__03517778_037);
 return;
 }
 case 4:
 {
-Obj _3518887_37= co->res;
-Obj _3517523_37 = R[1];
-Obj _3517747_37 = R[2];
-Obj _3517749_37 = R[3];
-Obj _3517751_37 = R[4];
-Obj _3517752_37 = _3518887_37;
-R[1] = _3517523_37;
-R[2] = _3517752_37;
-R[3] = _3517747_37;
-R[4] = _3517749_37;
-R[5] = _3517751_37;
+Obj g__03518913_037= co->res;
+Obj g__03517549_037 = R[1];
+Obj g__03517773_037 = R[2];
+Obj g__03517775_037 = R[3];
+Obj g__03517777_037 = R[4];
+Obj g__03517778_037 = g__03518913_037;
+R[1] = g__03517549_037;
+R[2] = g__03517778_037;
+R[3] = g__03517773_037;
+R[4] = g__03517775_037;
+R[5] = g__03517777_037;
 saveCont(co, clofun78, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), _3517752_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), g__03517778_037);
 return;
 }
 case 5:
 {
-Obj _3518886_37= co->res;
-Obj _3517750_37 = R[1];
-Obj _3517523_37 = R[2];
-Obj _3517747_37 = R[3];
-Obj _3517749_37 = R[4];
-Obj _3517751_37 = _3518886_37;
-R[1] = _3517523_37;
-R[2] = _3517747_37;
-R[3] = _3517749_37;
-R[4] = _3517751_37;
+Obj g__03518912_037= co->res;
+Obj g__03517776_037 = R[1];
+Obj g__03517549_037 = R[2];
+Obj g__03517773_037 = R[3];
+Obj g__03517775_037 = R[4];
+Obj g__03517777_037 = g__03518912_037;
+R[1] = g__03517549_037;
+R[2] = g__03517773_037;
+R[3] = g__03517775_037;
+R[4] = g__03517777_037;
 saveCont(co, clofun78, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), _3517747_37, _3517750_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), g__03517773_037, g__03517776_037);
 return;
 }
 case 6:
 {
-Obj _3518885_37= co->res;
-Obj _3517523_37 = R[1];
-Obj _3517747_37 = R[2];
-Obj _3517749_37 = R[3];
-Obj _3517750_37 = _3518885_37;
-R[1] = _3517750_37;
-R[2] = _3517523_37;
-R[3] = _3517747_37;
-R[4] = _3517749_37;
+Obj g__03518911_037= co->res;
+Obj g__03517549_037 = R[1];
+Obj g__03517773_037 = R[2];
+Obj g__03517775_037 = R[3];
+Obj g__03517776_037 = g__03518911_037;
+R[1] = g__03517776_037;
+R[2] = g__03517549_037;
+R[3] = g__03517773_037;
+R[4] = g__03517775_037;
 saveCont(co, clofun78, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517523_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), g__03517549_037, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4871,10 +4908,10 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518845_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518845_37) {
+Obj g__03518871_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03518871_037) {
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), closureRef(R[0], 0));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -4883,9 +4920,9 @@ return;
 }
 case 1:
 {
-Obj _3518846_37= co->res;
+Obj g__03518872_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518846_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518872_037, closureRef(R[0], 1));
 return;
 }
 }
@@ -4895,38 +4932,38 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj lam = R[1];
-R[1] = lam;
+Obj v_lam = R[1];
+R[1] = v_lam;
 saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_lam);
 return;
 }
 case 1:
 {
-Obj _3518843_37= co->res;
-Obj _3518842_37 = R[1];
+Obj g__03518869_037= co->res;
+Obj g__03518868_037 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun75, 2, 0), _3518842_37, _3518843_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun75, 2, 0), g__03518868_037, g__03518869_037);
 return;
 }
 case 2:
 {
-Obj _3518837_37= co->res;
-Obj lam = R[1];
-Obj _3517744_37 = _3518837_37;
-Obj _3518842_37 = PRIM_ADD(_3517744_37, MAKE_NUMBER(1));
-R[1] = _3518842_37;
+Obj g__03518863_037= co->res;
+Obj v_lam = R[1];
+Obj g__03517770_037 = g__03518863_037;
+Obj g__03518868_037 = PRIM_ADD(g__03517770_037, MAKE_NUMBER(1));
+R[1] = g__03518868_037;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
 return;
 }
 case 3:
 {
-Obj _3518836_37= co->res;
-Obj lam = R[1];
-R[1] = lam;
+Obj g__03518862_037= co->res;
+Obj v_lam = R[1];
+R[1] = v_lam;
 saveCont(co, clofun76, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518836_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03518862_037);
 return;
 }
 }
@@ -4936,35 +4973,35 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj x = R[2];
-R[1] = acc;
+Obj v_acc = R[1];
+Obj v_x = R[2];
+R[1] = v_acc;
 saveCont(co, clofun75, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_x);
 return;
 }
 case 1:
 {
-Obj _3518839_37= co->res;
-Obj acc = R[1];
-Obj _3518840_37 = PRIM_ADD(_3518839_37, MAKE_NUMBER(1));
-Obj _3517745_37 = _3518840_37;
-Obj _3518841_37 = PRIM_GT(_3517745_37, acc);
-if (True == _3518841_37) {
-coraReturn(co, _3517745_37);
+Obj g__03518865_037= co->res;
+Obj v_acc = R[1];
+Obj g__03518866_037 = PRIM_ADD(g__03518865_037, MAKE_NUMBER(1));
+Obj g__03517771_037 = g__03518866_037;
+Obj g__03518867_037 = PRIM_GT(g__03517771_037, v_acc);
+if (True == g__03518867_037) {
+coraReturn(co, g__03517771_037);
 return;
 } else {
-coraReturn(co, acc);
+coraReturn(co, v_acc);
 return;
 }
 }
 case 2:
 {
-Obj _3518838_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj g__03518864_037= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03518864_037);
 return;
 }
 }
@@ -4974,10 +5011,10 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj params = R[1];
-Obj body = R[2];
+Obj v_params = R[1];
+Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun73, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), v_body, Nil, makeNative(co->gc, 3, clofun73, 2, 1, v_params));
 return;
 }
 }
@@ -4987,21 +5024,21 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body1 = R[1];
-Obj conts = R[2];
-R[1] = body1;
+Obj v_body1 = R[1];
+Obj v_conts = R[2];
+R[1] = v_body1;
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), v_conts);
 return;
 }
 case 1:
 {
-Obj _3518831_37= co->res;
-Obj body1 = R[1];
-Obj _3518832_37 = makeCons(co->gc, body1, _3518831_37);
-Obj _3518833_37 = makeCons(co->gc, closureRef(R[0], 0), _3518832_37);
-Obj _3518834_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518833_37);
-coraReturn(co, _3518834_37);
+Obj g__03518857_037= co->res;
+Obj v_body1 = R[1];
+Obj g__03518858_037 = makeCons(co->gc, v_body1, g__03518857_037);
+Obj g__03518859_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518858_037);
+Obj g__03518860_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518859_037);
+coraReturn(co, g__03518860_037);
 return;
 }
 }
@@ -5011,28 +5048,28 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517517_37 = R[1];
-Obj _3517518_37 = R[2];
-Obj _3517519_37 = R[3];
-Obj _3517520_37 = R[4];
-Obj _3518825_37 = PRIM_EQ(Nil, _3517517_37);
-if (True == _3518825_37) {
+Obj g__03517543_037 = R[1];
+Obj g__03517544_037 = R[2];
+Obj g__03517545_037 = R[3];
+Obj g__03517546_037 = R[4];
+Obj g__03518851_037 = PRIM_EQ(Nil, g__03517543_037);
+if (True == g__03518851_037) {
 co->ctx.sp = R;
-coraCall2(co, _3517520_37, _3517519_37, _3517518_37);
+coraCall2(co, g__03517546_037, g__03517545_037, g__03517544_037);
 return;
 } else {
-Obj _3518826_37 = PRIM_ISCONS(_3517517_37);
-if (True == _3518826_37) {
-Obj _3518827_37 = PRIM_CAR(_3517517_37);
-Obj _3517742_37 = _3518827_37;
-Obj _3518828_37 = PRIM_CDR(_3517517_37);
-Obj _3517743_37 = _3518828_37;
+Obj g__03518852_037 = PRIM_ISCONS(g__03517543_037);
+if (True == g__03518852_037) {
+Obj g__03518853_037 = PRIM_CAR(g__03517543_037);
+Obj g__03517768_037 = g__03518853_037;
+Obj g__03518854_037 = PRIM_CDR(g__03517543_037);
+Obj g__03517769_037 = g__03518854_037;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517742_37, _3517518_37, makeNative(co->gc, 3, clofun71, 2, 3, _3517743_37, _3517519_37, _3517520_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), g__03517768_037, g__03517544_037, makeNative(co->gc, 3, clofun71, 2, 3, g__03517769_037, g__03517545_037, g__03517546_037));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -5044,10 +5081,10 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f1 = R[1];
-Obj conts1 = R[2];
+Obj v_f1 = R[1];
+Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun70, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun70, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
@@ -5057,11 +5094,11 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj args1 = R[1];
-Obj conts2 = R[2];
-Obj _3518829_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj v_args1 = R[1];
+Obj v_conts2 = R[2];
+Obj g__03518855_037 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3518829_37, conts2);
+coraCall2(co, closureRef(R[0], 0), g__03518855_037, v_conts2);
 return;
 }
 }
@@ -5071,33 +5108,33 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517511_37 = R[1];
-Obj _3517512_37 = R[2];
-Obj _3517513_37 = R[3];
-Obj _3517735_37 = makeNative(co->gc, 2, clofun68, 1, 3, _3517511_37, _3517512_37, _3517513_37);
-Obj _3518822_37 = primIsSymbol(_3517511_37);
-if (True == _3518822_37) {
+Obj g__03517537_037 = R[1];
+Obj g__03517538_037 = R[2];
+Obj g__03517539_037 = R[3];
+Obj g__03517761_037 = makeNative(co->gc, 2, clofun68, 1, 3, g__03517537_037, g__03517538_037, g__03517539_037);
+Obj g__03518848_037 = primIsSymbol(g__03517537_037);
+if (True == g__03518848_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517735_37, True);
+coraCall1(co, g__03517761_037, True);
 return;
 } else {
-R[1] = _3517735_37;
+R[1] = g__03517761_037;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517511_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517537_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518823_37= co->res;
-Obj _3517735_37 = R[1];
-if (True == _3518823_37) {
+Obj g__03518849_037= co->res;
+Obj g__03517761_037 = R[1];
+if (True == g__03518849_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517735_37, True);
+coraCall1(co, g__03517761_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517735_37, False);
+coraCall1(co, g__03517761_037, False);
 return;
 }
 }
@@ -5108,63 +5145,63 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517734_37 = R[1];
-if (True == _3517734_37) {
+Obj g__03517760_037 = R[1];
+if (True == g__03517760_037) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517736_37 = makeNative(co->gc, 1, clofun66, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518798_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518798_37) {
-Obj _3518799_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518800_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518799_37);
-if (True == _3518800_37) {
-Obj _3518801_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518802_37 = PRIM_ISCONS(_3518801_37);
-if (True == _3518802_37) {
-Obj _3518803_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518804_37 = PRIM_CAR(_3518803_37);
-Obj _3517739_37 = _3518804_37;
-Obj _3518805_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518806_37 = PRIM_CDR(_3518805_37);
-Obj _3518807_37 = PRIM_ISCONS(_3518806_37);
-if (True == _3518807_37) {
-Obj _3518808_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518809_37 = PRIM_CDR(_3518808_37);
-Obj _3518810_37 = PRIM_CAR(_3518809_37);
-Obj _3517740_37 = _3518810_37;
-Obj _3518811_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518812_37 = PRIM_CDR(_3518811_37);
-Obj _3518813_37 = PRIM_CDR(_3518812_37);
-Obj _3518814_37 = PRIM_EQ(Nil, _3518813_37);
-if (True == _3518814_37) {
+Obj g__03517762_037 = makeNative(co->gc, 1, clofun66, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518824_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518824_037) {
+Obj g__03518825_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518826_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518825_037);
+if (True == g__03518826_037) {
+Obj g__03518827_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518828_037 = PRIM_ISCONS(g__03518827_037);
+if (True == g__03518828_037) {
+Obj g__03518829_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518830_037 = PRIM_CAR(g__03518829_037);
+Obj g__03517765_037 = g__03518830_037;
+Obj g__03518831_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518832_037 = PRIM_CDR(g__03518831_037);
+Obj g__03518833_037 = PRIM_ISCONS(g__03518832_037);
+if (True == g__03518833_037) {
+Obj g__03518834_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518835_037 = PRIM_CDR(g__03518834_037);
+Obj g__03518836_037 = PRIM_CAR(g__03518835_037);
+Obj g__03517766_037 = g__03518836_037;
+Obj g__03518837_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518838_037 = PRIM_CDR(g__03518837_037);
+Obj g__03518839_037 = PRIM_CDR(g__03518838_037);
+Obj g__03518840_037 = PRIM_EQ(Nil, g__03518839_037);
+if (True == g__03518840_037) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517740_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun67, 2, 2, closureRef(R[0], 2), _3517739_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), g__03517766_037, closureRef(R[0], 1), makeNative(co->gc, 4, clofun67, 2, 2, closureRef(R[0], 2), g__03517765_037));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517736_37);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517736_37);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517736_37);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517736_37);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517736_37);
+coraCall0(co, g__03517762_037);
 return;
 }
 }
@@ -5176,40 +5213,40 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-R[1] = cont1;
-R[2] = conts1;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+R[1] = v_cont1;
+R[2] = v_conts1;
 saveCont(co, clofun67, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_cont1);
 return;
 }
 case 1:
 {
-Obj _3518816_37= co->res;
-Obj _3517741_37 = R[1];
-Obj cont1 = R[2];
-Obj conts1 = R[3];
-Obj _3518817_37 = PRIM_ADD(_3518816_37, MAKE_NUMBER(1));
-Obj _3518818_37 = makeCons(co->gc, _3518817_37, _3517741_37);
-Obj _3518819_37 = makeCons(co->gc, closureRef(R[0], 1), _3518818_37);
-Obj _3518820_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518819_37);
-Obj _3518821_37 = makeCons(co->gc, cont1, conts1);
+Obj g__03518842_037= co->res;
+Obj g__03517767_037 = R[1];
+Obj v_cont1 = R[2];
+Obj v_conts1 = R[3];
+Obj g__03518843_037 = PRIM_ADD(g__03518842_037, MAKE_NUMBER(1));
+Obj g__03518844_037 = makeCons(co->gc, g__03518843_037, g__03517767_037);
+Obj g__03518845_037 = makeCons(co->gc, closureRef(R[0], 1), g__03518844_037);
+Obj g__03518846_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518845_037);
+Obj g__03518847_037 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3518820_37, _3518821_37);
+coraCall2(co, closureRef(R[0], 0), g__03518846_037, g__03518847_037);
 return;
 }
 case 2:
 {
-Obj _3518815_37= co->res;
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-Obj _3517741_37 = _3518815_37;
-R[1] = _3517741_37;
-R[2] = cont1;
-R[3] = conts1;
+Obj g__03518841_037= co->res;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+Obj g__03517767_037 = g__03518841_037;
+R[1] = g__03517767_037;
+R[2] = v_cont1;
+R[3] = v_conts1;
 saveCont(co, clofun67, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_conts1);
 return;
 }
 }
@@ -5219,19 +5256,19 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518794_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518794_37) {
-Obj _3518795_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517737_37 = _3518795_37;
-Obj _3518796_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517738_37 = _3518796_37;
-Obj _3518797_37 = makeCons(co->gc, _3517737_37, _3517738_37);
+Obj g__03518820_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518820_037) {
+Obj g__03518821_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517763_037 = g__03518821_037;
+Obj g__03518822_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517764_037 = g__03518822_037;
+Obj g__03518823_037 = makeCons(co->gc, g__03517763_037, g__03517764_037);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3518797_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), g__03518823_037, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -5242,90 +5279,90 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517503_37 = R[1];
-Obj _3517504_37 = R[2];
-R[1] = _3517504_37;
-R[2] = _3517503_37;
+Obj g__03517529_037 = R[1];
+Obj g__03517530_037 = R[2];
+R[1] = g__03517530_037;
+R[2] = g__03517529_037;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517504_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517530_037);
 return;
 }
 case 1:
 {
-Obj _3518789_37= co->res;
-Obj _3517731_37 = R[1];
-Obj _3518790_37 = makeCons(co->gc, _3518789_37, Nil);
-Obj _3518791_37 = makeCons(co->gc, _3517731_37, _3518790_37);
-Obj _3518792_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518791_37);
-coraReturn(co, _3518792_37);
+Obj g__03518815_037= co->res;
+Obj g__03517757_037 = R[1];
+Obj g__03518816_037 = makeCons(co->gc, g__03518815_037, Nil);
+Obj g__03518817_037 = makeCons(co->gc, g__03517757_037, g__03518816_037);
+Obj g__03518818_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518817_037);
+coraReturn(co, g__03518818_037);
 return;
 }
 case 2:
 {
-Obj _3518717_37= co->res;
-Obj _3517504_37 = R[1];
-Obj _3517503_37 = R[2];
-if (True == _3518717_37) {
-coraReturn(co, _3517504_37);
-return;
-} else {
-Obj _3518718_37 = primIsSymbol(_3517504_37);
-if (True == _3518718_37) {
-coraReturn(co, _3517504_37);
-return;
-} else {
-Obj _3517720_37 = makeNative(co->gc, 4, clofun64, 0, 2, _3517504_37, _3517503_37);
-Obj _3518772_37 = PRIM_ISCONS(_3517504_37);
-if (True == _3518772_37) {
-Obj _3518773_37 = PRIM_CAR(_3517504_37);
-Obj _3518774_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518773_37);
-if (True == _3518774_37) {
-Obj _3518775_37 = PRIM_CDR(_3517504_37);
-Obj _3518776_37 = PRIM_ISCONS(_3518775_37);
-if (True == _3518776_37) {
-Obj _3518777_37 = PRIM_CDR(_3517504_37);
-Obj _3518778_37 = PRIM_CAR(_3518777_37);
-Obj _3517731_37 = _3518778_37;
-Obj _3518779_37 = PRIM_CDR(_3517504_37);
-Obj _3518780_37 = PRIM_CDR(_3518779_37);
-Obj _3518781_37 = PRIM_ISCONS(_3518780_37);
-if (True == _3518781_37) {
-Obj _3518782_37 = PRIM_CDR(_3517504_37);
-Obj _3518783_37 = PRIM_CDR(_3518782_37);
-Obj _3518784_37 = PRIM_CAR(_3518783_37);
-Obj _3517732_37 = _3518784_37;
-Obj _3518785_37 = PRIM_CDR(_3517504_37);
-Obj _3518786_37 = PRIM_CDR(_3518785_37);
-Obj _3518787_37 = PRIM_CDR(_3518786_37);
-Obj _3518788_37 = PRIM_EQ(Nil, _3518787_37);
-if (True == _3518788_37) {
-R[1] = _3517731_37;
+Obj g__03518743_037= co->res;
+Obj g__03517530_037 = R[1];
+Obj g__03517529_037 = R[2];
+if (True == g__03518743_037) {
+coraReturn(co, g__03517530_037);
+return;
+} else {
+Obj g__03518744_037 = primIsSymbol(g__03517530_037);
+if (True == g__03518744_037) {
+coraReturn(co, g__03517530_037);
+return;
+} else {
+Obj g__03517746_037 = makeNative(co->gc, 4, clofun64, 0, 2, g__03517530_037, g__03517529_037);
+Obj g__03518798_037 = PRIM_ISCONS(g__03517530_037);
+if (True == g__03518798_037) {
+Obj g__03518799_037 = PRIM_CAR(g__03517530_037);
+Obj g__03518800_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518799_037);
+if (True == g__03518800_037) {
+Obj g__03518801_037 = PRIM_CDR(g__03517530_037);
+Obj g__03518802_037 = PRIM_ISCONS(g__03518801_037);
+if (True == g__03518802_037) {
+Obj g__03518803_037 = PRIM_CDR(g__03517530_037);
+Obj g__03518804_037 = PRIM_CAR(g__03518803_037);
+Obj g__03517757_037 = g__03518804_037;
+Obj g__03518805_037 = PRIM_CDR(g__03517530_037);
+Obj g__03518806_037 = PRIM_CDR(g__03518805_037);
+Obj g__03518807_037 = PRIM_ISCONS(g__03518806_037);
+if (True == g__03518807_037) {
+Obj g__03518808_037 = PRIM_CDR(g__03517530_037);
+Obj g__03518809_037 = PRIM_CDR(g__03518808_037);
+Obj g__03518810_037 = PRIM_CAR(g__03518809_037);
+Obj g__03517758_037 = g__03518810_037;
+Obj g__03518811_037 = PRIM_CDR(g__03517530_037);
+Obj g__03518812_037 = PRIM_CDR(g__03518811_037);
+Obj g__03518813_037 = PRIM_CDR(g__03518812_037);
+Obj g__03518814_037 = PRIM_EQ(Nil, g__03518813_037);
+if (True == g__03518814_037) {
+R[1] = g__03517757_037;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517503_37, _3517732_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), g__03517529_037, g__03517758_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517720_37);
+coraCall0(co, g__03517746_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517720_37);
+coraCall0(co, g__03517746_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517720_37);
+coraCall0(co, g__03517746_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517720_37);
+coraCall0(co, g__03517746_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517720_37);
+coraCall0(co, g__03517746_037);
 return;
 }
 }
@@ -5338,121 +5375,121 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517721_37 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518747_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518747_37) {
-Obj _3518748_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518749_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518748_37);
-if (True == _3518749_37) {
-Obj _3518750_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518751_37 = PRIM_ISCONS(_3518750_37);
-if (True == _3518751_37) {
-Obj _3518752_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518753_37 = PRIM_CAR(_3518752_37);
-Obj _3517727_37 = _3518753_37;
-Obj _3518754_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518755_37 = PRIM_CDR(_3518754_37);
-Obj _3518756_37 = PRIM_ISCONS(_3518755_37);
-if (True == _3518756_37) {
-Obj _3518757_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518758_37 = PRIM_CDR(_3518757_37);
-Obj _3518759_37 = PRIM_CAR(_3518758_37);
-Obj _3517728_37 = _3518759_37;
-Obj _3518760_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518761_37 = PRIM_CDR(_3518760_37);
-Obj _3518762_37 = PRIM_CDR(_3518761_37);
-Obj _3518763_37 = PRIM_EQ(Nil, _3518762_37);
-if (True == _3518763_37) {
-R[1] = _3517728_37;
-R[2] = _3517727_37;
+Obj g__03517747_037 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518773_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518773_037) {
+Obj g__03518774_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518775_037 = PRIM_EQ(getBinding(co, packageID, 76).name, g__03518774_037);
+if (True == g__03518775_037) {
+Obj g__03518776_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518777_037 = PRIM_ISCONS(g__03518776_037);
+if (True == g__03518777_037) {
+Obj g__03518778_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518779_037 = PRIM_CAR(g__03518778_037);
+Obj g__03517753_037 = g__03518779_037;
+Obj g__03518780_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518781_037 = PRIM_CDR(g__03518780_037);
+Obj g__03518782_037 = PRIM_ISCONS(g__03518781_037);
+if (True == g__03518782_037) {
+Obj g__03518783_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518784_037 = PRIM_CDR(g__03518783_037);
+Obj g__03518785_037 = PRIM_CAR(g__03518784_037);
+Obj g__03517754_037 = g__03518785_037;
+Obj g__03518786_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518787_037 = PRIM_CDR(g__03518786_037);
+Obj g__03518788_037 = PRIM_CDR(g__03518787_037);
+Obj g__03518789_037 = PRIM_EQ(Nil, g__03518788_037);
+if (True == g__03518789_037) {
+R[1] = g__03517754_037;
+R[2] = g__03517753_037;
 saveCont(co, clofun64, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517728_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517754_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517721_37);
+coraCall0(co, g__03517747_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517721_37);
+coraCall0(co, g__03517747_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517721_37);
+coraCall0(co, g__03517747_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517721_37);
+coraCall0(co, g__03517747_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517721_37);
+coraCall0(co, g__03517747_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518768_37= co->res;
-Obj _3517730_37 = R[1];
-Obj _3517727_37 = R[2];
-Obj _3518769_37 = makeCons(co->gc, _3518768_37, _3517730_37);
-Obj _3518770_37 = makeCons(co->gc, _3517727_37, _3518769_37);
-Obj _3518771_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3518770_37);
-coraReturn(co, _3518771_37);
+Obj g__03518794_037= co->res;
+Obj g__03517756_037 = R[1];
+Obj g__03517753_037 = R[2];
+Obj g__03518795_037 = makeCons(co->gc, g__03518794_037, g__03517756_037);
+Obj g__03518796_037 = makeCons(co->gc, g__03517753_037, g__03518795_037);
+Obj g__03518797_037 = makeCons(co->gc, getBinding(co, packageID, 63).name, g__03518796_037);
+coraReturn(co, g__03518797_037);
 return;
 }
 case 2:
 {
-Obj _3518767_37= co->res;
-Obj _3517729_37 = R[1];
-Obj _3517728_37 = R[2];
-Obj _3517727_37 = R[3];
-Obj _3517730_37 = _3518767_37;
-R[1] = _3517730_37;
-R[2] = _3517727_37;
+Obj g__03518793_037= co->res;
+Obj g__03517755_037 = R[1];
+Obj g__03517754_037 = R[2];
+Obj g__03517753_037 = R[3];
+Obj g__03517756_037 = g__03518793_037;
+R[1] = g__03517756_037;
+R[2] = g__03517753_037;
 saveCont(co, clofun64, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517729_37, _3517728_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), g__03517755_037, g__03517754_037);
 return;
 }
 case 3:
 {
-Obj _3518766_37= co->res;
-Obj _3517729_37 = R[1];
-Obj _3517728_37 = R[2];
-Obj _3517727_37 = R[3];
-R[1] = _3517729_37;
-R[2] = _3517728_37;
-R[3] = _3517727_37;
+Obj g__03518792_037= co->res;
+Obj g__03517755_037 = R[1];
+Obj g__03517754_037 = R[2];
+Obj g__03517753_037 = R[3];
+R[1] = g__03517755_037;
+R[2] = g__03517754_037;
+R[3] = g__03517753_037;
 saveCont(co, clofun64, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518766_37, _3517729_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518792_037, g__03517755_037);
 return;
 }
 case 4:
 {
-Obj _3518765_37= co->res;
-Obj _3517728_37 = R[1];
-Obj _3517727_37 = R[2];
-Obj _3517729_37 = _3518765_37;
-R[1] = _3517729_37;
-R[2] = _3517728_37;
-R[3] = _3517727_37;
+Obj g__03518791_037= co->res;
+Obj g__03517754_037 = R[1];
+Obj g__03517753_037 = R[2];
+Obj g__03517755_037 = g__03518791_037;
+R[1] = g__03517755_037;
+R[2] = g__03517754_037;
+R[3] = g__03517753_037;
 saveCont(co, clofun64, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3518764_37= co->res;
-Obj _3517728_37 = R[1];
-Obj _3517727_37 = R[2];
-R[1] = _3517728_37;
-R[2] = _3517727_37;
+Obj g__03518790_037= co->res;
+Obj g__03517754_037 = R[1];
+Obj g__03517753_037 = R[2];
+R[1] = g__03517754_037;
+R[2] = g__03517753_037;
 saveCont(co, clofun64, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518764_37, _3517727_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518790_037, g__03517753_037);
 return;
 }
 }
@@ -5462,89 +5499,89 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517722_37 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518724_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518724_37) {
-Obj _3518725_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518726_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518725_37);
-if (True == _3518726_37) {
-Obj _3518727_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518728_37 = PRIM_ISCONS(_3518727_37);
-if (True == _3518728_37) {
-Obj _3518729_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518730_37 = PRIM_CAR(_3518729_37);
-Obj _3517725_37 = _3518730_37;
-Obj _3518731_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518732_37 = PRIM_CDR(_3518731_37);
-Obj _3518733_37 = PRIM_ISCONS(_3518732_37);
-if (True == _3518733_37) {
-Obj _3518734_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518735_37 = PRIM_CDR(_3518734_37);
-Obj _3518736_37 = PRIM_CAR(_3518735_37);
-Obj _3517726_37 = _3518736_37;
-Obj _3518737_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518738_37 = PRIM_CDR(_3518737_37);
-Obj _3518739_37 = PRIM_CDR(_3518738_37);
-Obj _3518740_37 = PRIM_EQ(Nil, _3518739_37);
-if (True == _3518740_37) {
-R[1] = _3517725_37;
-R[2] = _3517726_37;
+Obj g__03517748_037 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518750_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518750_037) {
+Obj g__03518751_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518752_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518751_037);
+if (True == g__03518752_037) {
+Obj g__03518753_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518754_037 = PRIM_ISCONS(g__03518753_037);
+if (True == g__03518754_037) {
+Obj g__03518755_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518756_037 = PRIM_CAR(g__03518755_037);
+Obj g__03517751_037 = g__03518756_037;
+Obj g__03518757_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518758_037 = PRIM_CDR(g__03518757_037);
+Obj g__03518759_037 = PRIM_ISCONS(g__03518758_037);
+if (True == g__03518759_037) {
+Obj g__03518760_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518761_037 = PRIM_CDR(g__03518760_037);
+Obj g__03518762_037 = PRIM_CAR(g__03518761_037);
+Obj g__03517752_037 = g__03518762_037;
+Obj g__03518763_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518764_037 = PRIM_CDR(g__03518763_037);
+Obj g__03518765_037 = PRIM_CDR(g__03518764_037);
+Obj g__03518766_037 = PRIM_EQ(Nil, g__03518765_037);
+if (True == g__03518766_037) {
+R[1] = g__03517751_037;
+R[2] = g__03517752_037;
 saveCont(co, clofun63, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517722_37);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517722_37);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517722_37);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517722_37);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517722_37);
+coraCall0(co, g__03517748_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518743_37= co->res;
-Obj _3518742_37 = R[1];
-Obj _3518744_37 = makeCons(co->gc, _3518743_37, Nil);
-Obj _3518745_37 = makeCons(co->gc, _3518742_37, _3518744_37);
-Obj _3518746_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518745_37);
-coraReturn(co, _3518746_37);
+Obj g__03518769_037= co->res;
+Obj g__03518768_037 = R[1];
+Obj g__03518770_037 = makeCons(co->gc, g__03518769_037, Nil);
+Obj g__03518771_037 = makeCons(co->gc, g__03518768_037, g__03518770_037);
+Obj g__03518772_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518771_037);
+coraReturn(co, g__03518772_037);
 return;
 }
 case 2:
 {
-Obj _3518742_37= co->res;
-Obj _3517726_37 = R[1];
-R[1] = _3518742_37;
+Obj g__03518768_037= co->res;
+Obj g__03517752_037 = R[1];
+R[1] = g__03518768_037;
 saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), _3517726_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1), g__03517752_037);
 return;
 }
 case 3:
 {
-Obj _3518741_37= co->res;
-Obj _3517725_37 = R[1];
-Obj _3517726_37 = R[2];
-R[1] = _3517726_37;
+Obj g__03518767_037= co->res;
+Obj g__03517751_037 = R[1];
+Obj g__03517752_037 = R[2];
+R[1] = g__03517752_037;
 saveCont(co, clofun63, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518741_37, _3517725_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518767_037, g__03517751_037);
 return;
 }
 }
@@ -5554,31 +5591,31 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518719_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518719_37) {
-Obj _3518720_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517723_37 = _3518720_37;
-Obj _3518721_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517724_37 = _3518721_37;
-R[1] = _3517723_37;
-R[2] = _3517724_37;
+Obj g__03518745_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518745_037) {
+Obj g__03518746_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517749_037 = g__03518746_037;
+Obj g__03518747_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517750_037 = g__03518747_037;
+R[1] = g__03517749_037;
+R[2] = g__03517750_037;
 saveCont(co, clofun62, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3518722_37= co->res;
-Obj _3517723_37 = R[1];
-Obj _3517724_37 = R[2];
-Obj _3518723_37 = makeCons(co->gc, _3517723_37, _3517724_37);
+Obj g__03518748_037= co->res;
+Obj g__03517749_037 = R[1];
+Obj g__03517750_037 = R[2];
+Obj g__03518749_037 = makeCons(co->gc, g__03517749_037, g__03517750_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518722_37, _3518723_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518748_037, g__03518749_037);
 return;
 }
 }
@@ -5588,74 +5625,74 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517498_37 = R[1];
-Obj _3517499_37 = R[2];
-Obj _3517500_37 = R[3];
-Obj _3518694_37 = PRIM_EQ(Nil, _3517498_37);
-if (True == _3518694_37) {
-R[1] = _3517500_37;
+Obj g__03517524_037 = R[1];
+Obj g__03517525_037 = R[2];
+Obj g__03517526_037 = R[3];
+Obj g__03518720_037 = PRIM_EQ(Nil, g__03517524_037);
+if (True == g__03518720_037) {
+R[1] = g__03517526_037;
 saveCont(co, clofun61, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517499_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517525_037);
 return;
 } else {
-Obj _3518712_37 = PRIM_ISCONS(_3517498_37);
-if (True == _3518712_37) {
-Obj _3518713_37 = PRIM_CAR(_3517498_37);
-Obj _3517718_37 = _3518713_37;
-Obj _3518714_37 = PRIM_CDR(_3517498_37);
-Obj _3517719_37 = _3518714_37;
+Obj g__03518738_037 = PRIM_ISCONS(g__03517524_037);
+if (True == g__03518738_037) {
+Obj g__03518739_037 = PRIM_CAR(g__03517524_037);
+Obj g__03517744_037 = g__03518739_037;
+Obj g__03518740_037 = PRIM_CDR(g__03517524_037);
+Obj g__03517745_037 = g__03518740_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517718_37, makeNative(co->gc, 2, clofun60, 1, 3, _3517719_37, _3517499_37, _3517500_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517744_037, makeNative(co->gc, 2, clofun60, 1, 3, g__03517745_037, g__03517525_037, g__03517526_037));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518710_37= co->res;
-Obj _3517716_37 = R[1];
-Obj _3518711_37 = PRIM_EQ(_3518710_37, getBinding(co, packageID, 91).name);
-if (True == _3518711_37) {
+Obj g__03518736_037= co->res;
+Obj g__03517742_037 = R[1];
+Obj g__03518737_037 = PRIM_EQ(g__03518736_037, getBinding(co, packageID, 92).name);
+if (True == g__03518737_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517716_37, True);
+coraCall1(co, g__03517742_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517716_37, False);
+coraCall1(co, g__03517742_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3518709_37= co->res;
-Obj _3517713_37 = R[1];
-Obj _3517716_37 = R[2];
-if (True == _3518709_37) {
-R[1] = _3517716_37;
+Obj g__03518735_037= co->res;
+Obj g__03517739_037 = R[1];
+Obj g__03517742_037 = R[2];
+if (True == g__03518735_037) {
+R[1] = g__03517742_037;
 saveCont(co, clofun61, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), _3517713_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), g__03517739_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517716_37, False);
+coraCall1(co, g__03517742_037, False);
 return;
 }
 }
 case 3:
 {
-Obj _3518695_37= co->res;
-Obj _3517500_37 = R[1];
-Obj _3517713_37 = _3518695_37;
-Obj _3517716_37 = makeNative(co->gc, 2, clofun59, 1, 2, _3517713_37, _3517500_37);
-Obj _3518708_37 = PRIM_CAR(_3517713_37);
-R[1] = _3517713_37;
-R[2] = _3517716_37;
+Obj g__03518721_037= co->res;
+Obj g__03517526_037 = R[1];
+Obj g__03517739_037 = g__03518721_037;
+Obj g__03517742_037 = makeNative(co->gc, 2, clofun59, 1, 2, g__03517739_037, g__03517526_037);
+Obj g__03518734_037 = PRIM_CAR(g__03517739_037);
+R[1] = g__03517739_037;
+R[2] = g__03517742_037;
 saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3518708_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), g__03518734_037);
 return;
 }
 }
@@ -5665,10 +5702,10 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj hd1 = R[1];
-Obj _3518715_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj v_hd1 = R[1];
+Obj g__03518741_037 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3518715_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), g__03518741_037, closureRef(R[0], 2));
 return;
 }
 }
@@ -5678,40 +5715,40 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517715_37 = R[1];
-if (True == _3517715_37) {
+Obj g__03517741_037 = R[1];
+if (True == g__03517741_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3518696_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3518696_37) {
-Obj _3518697_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3518698_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3518697_37);
-coraReturn(co, _3518698_37);
+Obj g__03518722_037 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
+if (True == g__03518722_037) {
+Obj g__03518723_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03518724_037 = makeCons(co->gc, getBinding(co, packageID, 75).name, g__03518723_037);
+coraReturn(co, g__03518724_037);
 return;
 } else {
-Obj _3518699_37 = primGenSym(co);
-Obj _3517717_37 = _3518699_37;
-Obj _3518700_37 = makeCons(co->gc, _3517717_37, Nil);
-R[1] = _3518700_37;
+Obj g__03518725_037 = primGenSym(co);
+Obj g__03517743_037 = g__03518725_037;
+Obj g__03518726_037 = makeCons(co->gc, g__03517743_037, Nil);
+R[1] = g__03518726_037;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, closureRef(R[0], 1), _3517717_37);
+coraCall1(co, closureRef(R[0], 1), g__03517743_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518701_37= co->res;
-Obj _3518700_37 = R[1];
-Obj _3518702_37 = makeCons(co->gc, _3518701_37, Nil);
-Obj _3518703_37 = makeCons(co->gc, _3518700_37, _3518702_37);
-Obj _3518704_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3518703_37);
-Obj _3518705_37 = makeCons(co->gc, _3518704_37, Nil);
-Obj _3518706_37 = makeCons(co->gc, closureRef(R[0], 0), _3518705_37);
-Obj _3518707_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518706_37);
-coraReturn(co, _3518707_37);
+Obj g__03518727_037= co->res;
+Obj g__03518726_037 = R[1];
+Obj g__03518728_037 = makeCons(co->gc, g__03518727_037, Nil);
+Obj g__03518729_037 = makeCons(co->gc, g__03518726_037, g__03518728_037);
+Obj g__03518730_037 = makeCons(co->gc, getBinding(co, packageID, 76).name, g__03518729_037);
+Obj g__03518731_037 = makeCons(co->gc, g__03518730_037, Nil);
+Obj g__03518732_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518731_037);
+Obj g__03518733_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518732_037);
+coraReturn(co, g__03518733_037);
 return;
 }
 }
@@ -5721,32 +5758,32 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517489_37 = R[1];
-Obj _3517490_37 = R[2];
-Obj _3517695_37 = makeNative(co->gc, 2, clofun57, 1, 2, _3517489_37, _3517490_37);
-Obj _3518691_37 = primIsSymbol(_3517489_37);
-if (True == _3518691_37) {
+Obj g__03517515_037 = R[1];
+Obj g__03517516_037 = R[2];
+Obj g__03517721_037 = makeNative(co->gc, 2, clofun57, 1, 2, g__03517515_037, g__03517516_037);
+Obj g__03518717_037 = primIsSymbol(g__03517515_037);
+if (True == g__03518717_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517695_37, True);
+coraCall1(co, g__03517721_037, True);
 return;
 } else {
-R[1] = _3517695_37;
+R[1] = g__03517721_037;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517489_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517515_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518692_37= co->res;
-Obj _3517695_37 = R[1];
-if (True == _3518692_37) {
+Obj g__03518718_037= co->res;
+Obj g__03517721_037 = R[1];
+if (True == g__03518718_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517695_37, True);
+coraCall1(co, g__03517721_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517695_37, False);
+coraCall1(co, g__03517721_037, False);
 return;
 }
 }
@@ -5757,91 +5794,91 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517694_37 = R[1];
-if (True == _3517694_37) {
+Obj g__03517720_037 = R[1];
+if (True == g__03517720_037) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
 saveCont(co, clofun57, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj _3518557_37= co->res;
-if (True == _3518557_37) {
+Obj g__03518583_037= co->res;
+if (True == g__03518583_037) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3517696_37 = makeNative(co->gc, 1, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518659_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518659_37) {
-Obj _3518660_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518661_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518660_37);
-if (True == _3518661_37) {
-Obj _3518662_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518663_37 = PRIM_ISCONS(_3518662_37);
-if (True == _3518663_37) {
-Obj _3518664_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518665_37 = PRIM_CAR(_3518664_37);
-Obj _3517710_37 = _3518665_37;
-Obj _3518666_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518667_37 = PRIM_CDR(_3518666_37);
-Obj _3518668_37 = PRIM_ISCONS(_3518667_37);
-if (True == _3518668_37) {
-Obj _3518669_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518670_37 = PRIM_CDR(_3518669_37);
-Obj _3518671_37 = PRIM_CAR(_3518670_37);
-Obj _3517711_37 = _3518671_37;
-Obj _3518672_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518673_37 = PRIM_CDR(_3518672_37);
-Obj _3518674_37 = PRIM_CDR(_3518673_37);
-Obj _3518675_37 = PRIM_ISCONS(_3518674_37);
-if (True == _3518675_37) {
-Obj _3518676_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518677_37 = PRIM_CDR(_3518676_37);
-Obj _3518678_37 = PRIM_CDR(_3518677_37);
-Obj _3518679_37 = PRIM_CAR(_3518678_37);
-Obj _3517712_37 = _3518679_37;
-Obj _3518680_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518681_37 = PRIM_CDR(_3518680_37);
-Obj _3518682_37 = PRIM_CDR(_3518681_37);
-Obj _3518683_37 = PRIM_CDR(_3518682_37);
-Obj _3518684_37 = PRIM_EQ(Nil, _3518683_37);
-if (True == _3518684_37) {
+Obj g__03517722_037 = makeNative(co->gc, 1, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518685_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518685_037) {
+Obj g__03518686_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518687_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518686_037);
+if (True == g__03518687_037) {
+Obj g__03518688_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518689_037 = PRIM_ISCONS(g__03518688_037);
+if (True == g__03518689_037) {
+Obj g__03518690_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518691_037 = PRIM_CAR(g__03518690_037);
+Obj g__03517736_037 = g__03518691_037;
+Obj g__03518692_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518693_037 = PRIM_CDR(g__03518692_037);
+Obj g__03518694_037 = PRIM_ISCONS(g__03518693_037);
+if (True == g__03518694_037) {
+Obj g__03518695_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518696_037 = PRIM_CDR(g__03518695_037);
+Obj g__03518697_037 = PRIM_CAR(g__03518696_037);
+Obj g__03517737_037 = g__03518697_037;
+Obj g__03518698_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518699_037 = PRIM_CDR(g__03518698_037);
+Obj g__03518700_037 = PRIM_CDR(g__03518699_037);
+Obj g__03518701_037 = PRIM_ISCONS(g__03518700_037);
+if (True == g__03518701_037) {
+Obj g__03518702_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518703_037 = PRIM_CDR(g__03518702_037);
+Obj g__03518704_037 = PRIM_CDR(g__03518703_037);
+Obj g__03518705_037 = PRIM_CAR(g__03518704_037);
+Obj g__03517738_037 = g__03518705_037;
+Obj g__03518706_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518707_037 = PRIM_CDR(g__03518706_037);
+Obj g__03518708_037 = PRIM_CDR(g__03518707_037);
+Obj g__03518709_037 = PRIM_CDR(g__03518708_037);
+Obj g__03518710_037 = PRIM_EQ(Nil, g__03518709_037);
+if (True == g__03518710_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517710_37, makeNative(co->gc, 3, clofun56, 1, 3, _3517711_37, _3517712_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517736_037, makeNative(co->gc, 3, clofun56, 1, 3, g__03517737_037, g__03517738_037, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, g__03517722_037);
 return;
 }
 }
@@ -5853,32 +5890,32 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-R[1] = ra;
+Obj v_ra = R[1];
+R[1] = v_ra;
 saveCont(co, clofun56, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3518686_37= co->res;
-Obj _3518685_37 = R[1];
-Obj ra = R[2];
-Obj _3518687_37 = makeCons(co->gc, _3518686_37, Nil);
-Obj _3518688_37 = makeCons(co->gc, _3518685_37, _3518687_37);
-Obj _3518689_37 = makeCons(co->gc, ra, _3518688_37);
-Obj _3518690_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518689_37);
-coraReturn(co, _3518690_37);
+Obj g__03518712_037= co->res;
+Obj g__03518711_037 = R[1];
+Obj v_ra = R[2];
+Obj g__03518713_037 = makeCons(co->gc, g__03518712_037, Nil);
+Obj g__03518714_037 = makeCons(co->gc, g__03518711_037, g__03518713_037);
+Obj g__03518715_037 = makeCons(co->gc, v_ra, g__03518714_037);
+Obj g__03518716_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518715_037);
+coraReturn(co, g__03518716_037);
 return;
 }
 case 2:
 {
-Obj _3518685_37= co->res;
-Obj ra = R[1];
-R[1] = _3518685_37;
-R[2] = ra;
+Obj g__03518711_037= co->res;
+Obj v_ra = R[1];
+R[1] = g__03518711_037;
+R[2] = v_ra;
 saveCont(co, clofun56, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
@@ -5888,57 +5925,57 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517697_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518637_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518637_37) {
-Obj _3518638_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518639_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518638_37);
-if (True == _3518639_37) {
-Obj _3518640_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518641_37 = PRIM_ISCONS(_3518640_37);
-if (True == _3518641_37) {
-Obj _3518642_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518643_37 = PRIM_CAR(_3518642_37);
-Obj _3517708_37 = _3518643_37;
-Obj _3518644_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518645_37 = PRIM_CDR(_3518644_37);
-Obj _3518646_37 = PRIM_ISCONS(_3518645_37);
-if (True == _3518646_37) {
-Obj _3518647_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518648_37 = PRIM_CDR(_3518647_37);
-Obj _3518649_37 = PRIM_CAR(_3518648_37);
-Obj _3517709_37 = _3518649_37;
-Obj _3518650_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518651_37 = PRIM_CDR(_3518650_37);
-Obj _3518652_37 = PRIM_CDR(_3518651_37);
-Obj _3518653_37 = PRIM_EQ(Nil, _3518652_37);
-if (True == _3518653_37) {
+Obj g__03517723_037 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518663_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518663_037) {
+Obj g__03518664_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518665_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518664_037);
+if (True == g__03518665_037) {
+Obj g__03518666_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518667_037 = PRIM_ISCONS(g__03518666_037);
+if (True == g__03518667_037) {
+Obj g__03518668_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518669_037 = PRIM_CAR(g__03518668_037);
+Obj g__03517734_037 = g__03518669_037;
+Obj g__03518670_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518671_037 = PRIM_CDR(g__03518670_037);
+Obj g__03518672_037 = PRIM_ISCONS(g__03518671_037);
+if (True == g__03518672_037) {
+Obj g__03518673_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518674_037 = PRIM_CDR(g__03518673_037);
+Obj g__03518675_037 = PRIM_CAR(g__03518674_037);
+Obj g__03517735_037 = g__03518675_037;
+Obj g__03518676_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518677_037 = PRIM_CDR(g__03518676_037);
+Obj g__03518678_037 = PRIM_CDR(g__03518677_037);
+Obj g__03518679_037 = PRIM_EQ(Nil, g__03518678_037);
+if (True == g__03518679_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517708_37, makeNative(co->gc, 2, clofun54, 1, 2, _3517709_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517734_037, makeNative(co->gc, 2, clofun54, 1, 2, g__03517735_037, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517697_37);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517697_37);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517697_37);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517697_37);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517697_37);
+coraCall0(co, g__03517723_037);
 return;
 }
 }
@@ -5949,27 +5986,27 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-Obj _3518654_37 = primIsSymbol(ra);
-if (True == _3518654_37) {
+Obj v_ra = R[1];
+Obj g__03518680_037 = primIsSymbol(v_ra);
+if (True == g__03518680_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = ra;
+R[1] = v_ra;
 saveCont(co, clofun54, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3518655_37= co->res;
-Obj ra = R[1];
-Obj _3518656_37 = makeCons(co->gc, _3518655_37, Nil);
-Obj _3518657_37 = makeCons(co->gc, ra, _3518656_37);
-Obj _3518658_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3518657_37);
-coraReturn(co, _3518658_37);
+Obj g__03518681_037= co->res;
+Obj v_ra = R[1];
+Obj g__03518682_037 = makeCons(co->gc, g__03518681_037, Nil);
+Obj g__03518683_037 = makeCons(co->gc, v_ra, g__03518682_037);
+Obj g__03518684_037 = makeCons(co->gc, getBinding(co, packageID, 87).name, g__03518683_037);
+coraReturn(co, g__03518684_037);
 return;
 }
 }
@@ -5979,73 +6016,73 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517698_37 = makeNative(co->gc, 3, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518606_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518606_37) {
-Obj _3518607_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518608_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518607_37);
-if (True == _3518608_37) {
-Obj _3518609_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518610_37 = PRIM_ISCONS(_3518609_37);
-if (True == _3518610_37) {
-Obj _3518611_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518612_37 = PRIM_CAR(_3518611_37);
-Obj _3517705_37 = _3518612_37;
-Obj _3518613_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518614_37 = PRIM_CDR(_3518613_37);
-Obj _3518615_37 = PRIM_ISCONS(_3518614_37);
-if (True == _3518615_37) {
-Obj _3518616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518617_37 = PRIM_CDR(_3518616_37);
-Obj _3518618_37 = PRIM_CAR(_3518617_37);
-Obj _3517706_37 = _3518618_37;
-Obj _3518619_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518620_37 = PRIM_CDR(_3518619_37);
-Obj _3518621_37 = PRIM_CDR(_3518620_37);
-Obj _3518622_37 = PRIM_ISCONS(_3518621_37);
-if (True == _3518622_37) {
-Obj _3518623_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518624_37 = PRIM_CDR(_3518623_37);
-Obj _3518625_37 = PRIM_CDR(_3518624_37);
-Obj _3518626_37 = PRIM_CAR(_3518625_37);
-Obj _3517707_37 = _3518626_37;
-Obj _3518627_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518628_37 = PRIM_CDR(_3518627_37);
-Obj _3518629_37 = PRIM_CDR(_3518628_37);
-Obj _3518630_37 = PRIM_CDR(_3518629_37);
-Obj _3518631_37 = PRIM_EQ(Nil, _3518630_37);
-if (True == _3518631_37) {
+Obj g__03517724_037 = makeNative(co->gc, 3, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518632_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518632_037) {
+Obj g__03518633_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518634_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518633_037);
+if (True == g__03518634_037) {
+Obj g__03518635_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518636_037 = PRIM_ISCONS(g__03518635_037);
+if (True == g__03518636_037) {
+Obj g__03518637_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518638_037 = PRIM_CAR(g__03518637_037);
+Obj g__03517731_037 = g__03518638_037;
+Obj g__03518639_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518640_037 = PRIM_CDR(g__03518639_037);
+Obj g__03518641_037 = PRIM_ISCONS(g__03518640_037);
+if (True == g__03518641_037) {
+Obj g__03518642_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518643_037 = PRIM_CDR(g__03518642_037);
+Obj g__03518644_037 = PRIM_CAR(g__03518643_037);
+Obj g__03517732_037 = g__03518644_037;
+Obj g__03518645_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518646_037 = PRIM_CDR(g__03518645_037);
+Obj g__03518647_037 = PRIM_CDR(g__03518646_037);
+Obj g__03518648_037 = PRIM_ISCONS(g__03518647_037);
+if (True == g__03518648_037) {
+Obj g__03518649_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518650_037 = PRIM_CDR(g__03518649_037);
+Obj g__03518651_037 = PRIM_CDR(g__03518650_037);
+Obj g__03518652_037 = PRIM_CAR(g__03518651_037);
+Obj g__03517733_037 = g__03518652_037;
+Obj g__03518653_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518654_037 = PRIM_CDR(g__03518653_037);
+Obj g__03518655_037 = PRIM_CDR(g__03518654_037);
+Obj g__03518656_037 = PRIM_CDR(g__03518655_037);
+Obj g__03518657_037 = PRIM_EQ(Nil, g__03518656_037);
+if (True == g__03518657_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517706_37, makeNative(co->gc, 2, clofun52, 1, 3, _3517705_37, _3517707_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517732_037, makeNative(co->gc, 2, clofun52, 1, 3, g__03517731_037, g__03517733_037, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517698_37);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517698_37);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517698_37);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517698_37);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517698_37);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517698_37);
+coraCall0(co, g__03517724_037);
 return;
 }
 }
@@ -6056,21 +6093,21 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rb = R[1];
-R[1] = rb;
+Obj v_rb = R[1];
+R[1] = v_rb;
 saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3518632_37= co->res;
-Obj rb = R[1];
-Obj _3518633_37 = makeCons(co->gc, _3518632_37, Nil);
-Obj _3518634_37 = makeCons(co->gc, rb, _3518633_37);
-Obj _3518635_37 = makeCons(co->gc, closureRef(R[0], 0), _3518634_37);
-Obj _3518636_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518635_37);
-coraReturn(co, _3518636_37);
+Obj g__03518658_037= co->res;
+Obj v_rb = R[1];
+Obj g__03518659_037 = makeCons(co->gc, g__03518658_037, Nil);
+Obj g__03518660_037 = makeCons(co->gc, v_rb, g__03518659_037);
+Obj g__03518661_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518660_037);
+Obj g__03518662_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518661_037);
+coraReturn(co, g__03518662_037);
 return;
 }
 }
@@ -6080,114 +6117,114 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517699_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518562_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518562_37) {
-Obj _3518563_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518564_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518563_37);
-if (True == _3518564_37) {
-Obj _3518565_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518566_37 = PRIM_ISCONS(_3518565_37);
-if (True == _3518566_37) {
-Obj _3518567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518568_37 = PRIM_CAR(_3518567_37);
-Obj _3518569_37 = PRIM_ISCONS(_3518568_37);
-if (True == _3518569_37) {
-Obj _3518570_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518571_37 = PRIM_CAR(_3518570_37);
-Obj _3518572_37 = PRIM_CAR(_3518571_37);
-Obj _3518573_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518572_37);
-if (True == _3518573_37) {
-Obj _3518574_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518575_37 = PRIM_CAR(_3518574_37);
-Obj _3518576_37 = PRIM_CDR(_3518575_37);
-Obj _3518577_37 = PRIM_ISCONS(_3518576_37);
-if (True == _3518577_37) {
-Obj _3518578_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518579_37 = PRIM_CAR(_3518578_37);
-Obj _3518580_37 = PRIM_CDR(_3518579_37);
-Obj _3518581_37 = PRIM_CAR(_3518580_37);
-Obj _3517702_37 = _3518581_37;
-Obj _3518582_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518583_37 = PRIM_CAR(_3518582_37);
-Obj _3518584_37 = PRIM_CDR(_3518583_37);
-Obj _3518585_37 = PRIM_CDR(_3518584_37);
-Obj _3518586_37 = PRIM_ISCONS(_3518585_37);
-if (True == _3518586_37) {
-Obj _3518587_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518588_37 = PRIM_CAR(_3518587_37);
-Obj _3518589_37 = PRIM_CDR(_3518588_37);
-Obj _3518590_37 = PRIM_CDR(_3518589_37);
-Obj _3518591_37 = PRIM_CAR(_3518590_37);
-Obj _3517703_37 = _3518591_37;
-Obj _3518592_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518593_37 = PRIM_CAR(_3518592_37);
-Obj _3518594_37 = PRIM_CDR(_3518593_37);
-Obj _3518595_37 = PRIM_CDR(_3518594_37);
-Obj _3518596_37 = PRIM_CDR(_3518595_37);
-Obj _3518597_37 = PRIM_EQ(Nil, _3518596_37);
-if (True == _3518597_37) {
-Obj _3518598_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518599_37 = PRIM_CDR(_3518598_37);
-Obj _3517704_37 = _3518599_37;
-R[1] = _3517702_37;
-R[2] = _3517704_37;
+Obj g__03517725_037 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518588_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518588_037) {
+Obj g__03518589_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518590_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518589_037);
+if (True == g__03518590_037) {
+Obj g__03518591_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518592_037 = PRIM_ISCONS(g__03518591_037);
+if (True == g__03518592_037) {
+Obj g__03518593_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518594_037 = PRIM_CAR(g__03518593_037);
+Obj g__03518595_037 = PRIM_ISCONS(g__03518594_037);
+if (True == g__03518595_037) {
+Obj g__03518596_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518597_037 = PRIM_CAR(g__03518596_037);
+Obj g__03518598_037 = PRIM_CAR(g__03518597_037);
+Obj g__03518599_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518598_037);
+if (True == g__03518599_037) {
+Obj g__03518600_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518601_037 = PRIM_CAR(g__03518600_037);
+Obj g__03518602_037 = PRIM_CDR(g__03518601_037);
+Obj g__03518603_037 = PRIM_ISCONS(g__03518602_037);
+if (True == g__03518603_037) {
+Obj g__03518604_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518605_037 = PRIM_CAR(g__03518604_037);
+Obj g__03518606_037 = PRIM_CDR(g__03518605_037);
+Obj g__03518607_037 = PRIM_CAR(g__03518606_037);
+Obj g__03517728_037 = g__03518607_037;
+Obj g__03518608_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518609_037 = PRIM_CAR(g__03518608_037);
+Obj g__03518610_037 = PRIM_CDR(g__03518609_037);
+Obj g__03518611_037 = PRIM_CDR(g__03518610_037);
+Obj g__03518612_037 = PRIM_ISCONS(g__03518611_037);
+if (True == g__03518612_037) {
+Obj g__03518613_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518614_037 = PRIM_CAR(g__03518613_037);
+Obj g__03518615_037 = PRIM_CDR(g__03518614_037);
+Obj g__03518616_037 = PRIM_CDR(g__03518615_037);
+Obj g__03518617_037 = PRIM_CAR(g__03518616_037);
+Obj g__03517729_037 = g__03518617_037;
+Obj g__03518618_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518619_037 = PRIM_CAR(g__03518618_037);
+Obj g__03518620_037 = PRIM_CDR(g__03518619_037);
+Obj g__03518621_037 = PRIM_CDR(g__03518620_037);
+Obj g__03518622_037 = PRIM_CDR(g__03518621_037);
+Obj g__03518623_037 = PRIM_EQ(Nil, g__03518622_037);
+if (True == g__03518623_037) {
+Obj g__03518624_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518625_037 = PRIM_CDR(g__03518624_037);
+Obj g__03517730_037 = g__03518625_037;
+R[1] = g__03517728_037;
+R[2] = g__03517730_037;
 saveCont(co, clofun51, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517703_37, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517729_037, globalRef(co, getBinding(co, packageID, 71)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517699_37);
+coraCall0(co, g__03517725_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518600_37= co->res;
-Obj _3517702_37 = R[1];
-Obj _3517704_37 = R[2];
-Obj _3518601_37 = makeCons(co->gc, _3518600_37, Nil);
-Obj _3518602_37 = makeCons(co->gc, _3517702_37, _3518601_37);
-Obj _3518603_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518602_37);
-Obj _3518604_37 = makeCons(co->gc, _3518603_37, _3517704_37);
-Obj _3518605_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518604_37);
+Obj g__03518626_037= co->res;
+Obj g__03517728_037 = R[1];
+Obj g__03517730_037 = R[2];
+Obj g__03518627_037 = makeCons(co->gc, g__03518626_037, Nil);
+Obj g__03518628_037 = makeCons(co->gc, g__03517728_037, g__03518627_037);
+Obj g__03518629_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518628_037);
+Obj g__03518630_037 = makeCons(co->gc, g__03518629_037, g__03517730_037);
+Obj g__03518631_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518630_037);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3518605_37);
+coraCall1(co, closureRef(R[0], 1), g__03518631_037);
 return;
 }
 }
@@ -6197,19 +6234,19 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518558_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518558_37) {
-Obj _3518559_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517700_37 = _3518559_37;
-Obj _3518560_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517701_37 = _3518560_37;
-Obj _3518561_37 = makeCons(co->gc, _3517700_37, _3517701_37);
+Obj g__03518584_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518584_037) {
+Obj g__03518585_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517726_037 = g__03518585_037;
+Obj g__03518586_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517727_037 = g__03518586_037;
+Obj g__03518587_037 = makeCons(co->gc, g__03517726_037, g__03517727_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3518561_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), g__03518587_037, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -6220,10 +6257,10 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3518554_37 = makeCons(co->gc, x, Nil);
-Obj _3518555_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3518554_37);
-coraReturn(co, _3518555_37);
+Obj v_x = R[1];
+Obj g__03518580_037 = makeCons(co->gc, v_x, Nil);
+Obj g__03518581_037 = makeCons(co->gc, getBinding(co, packageID, 73).name, g__03518580_037);
+coraReturn(co, g__03518581_037);
 return;
 }
 }
@@ -6233,151 +6270,151 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517482_37 = R[1];
-Obj _3517483_37 = R[2];
-R[1] = _3517483_37;
-R[2] = _3517482_37;
+Obj g__03517508_037 = R[1];
+Obj g__03517509_037 = R[2];
+R[1] = g__03517509_037;
+R[2] = g__03517508_037;
 saveCont(co, clofun48, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517483_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517509_037);
 return;
 }
 case 1:
 {
-Obj _3518483_37= co->res;
-Obj _3517483_37 = R[1];
-Obj _3517682_37 = _3518483_37;
-Obj _3518484_37 = PRIM_EQ(MAKE_NUMBER(-1), _3517682_37);
-if (True == _3518484_37) {
-coraReturn(co, _3517483_37);
+Obj g__03518509_037= co->res;
+Obj g__03517509_037 = R[1];
+Obj g__03517708_037 = g__03518509_037;
+Obj g__03518510_037 = PRIM_EQ(MAKE_NUMBER(-1), g__03517708_037);
+if (True == g__03518510_037) {
+coraReturn(co, g__03517509_037);
 return;
 } else {
-Obj _3518485_37 = makeCons(co->gc, _3517682_37, Nil);
-Obj _3518486_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3518485_37);
-coraReturn(co, _3518486_37);
+Obj g__03518511_037 = makeCons(co->gc, g__03517708_037, Nil);
+Obj g__03518512_037 = makeCons(co->gc, getBinding(co, packageID, 78).name, g__03518511_037);
+coraReturn(co, g__03518512_037);
 return;
 }
 }
 case 2:
 {
-Obj _3518550_37= co->res;
-Obj _3518548_37 = R[1];
-Obj _3518551_37 = makeCons(co->gc, _3518548_37, _3518550_37);
-Obj _3518552_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518551_37);
-coraReturn(co, _3518552_37);
+Obj g__03518576_037= co->res;
+Obj g__03518574_037 = R[1];
+Obj g__03518577_037 = makeCons(co->gc, g__03518574_037, g__03518576_037);
+Obj g__03518578_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518577_037);
+coraReturn(co, g__03518578_037);
 return;
 }
 case 3:
 {
-Obj _3518549_37= co->res;
-Obj _3517692_37 = R[1];
-Obj _3518548_37 = R[2];
-R[1] = _3518548_37;
+Obj g__03518575_037= co->res;
+Obj g__03517718_037 = R[1];
+Obj g__03518574_037 = R[2];
+R[1] = g__03518574_037;
 saveCont(co, clofun48, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518549_37, _3517692_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518575_037, g__03517718_037);
 return;
 }
 case 4:
 {
-Obj _3518545_37= co->res;
-Obj _3517690_37 = R[1];
-Obj _3517482_37 = R[2];
-Obj _3517692_37 = R[3];
-Obj _3518546_37 = makeCons(co->gc, _3518545_37, Nil);
-Obj _3518547_37 = makeCons(co->gc, _3517690_37, _3518546_37);
-Obj _3518548_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518547_37);
-R[1] = _3517692_37;
-R[2] = _3518548_37;
+Obj g__03518571_037= co->res;
+Obj g__03517716_037 = R[1];
+Obj g__03517508_037 = R[2];
+Obj g__03517718_037 = R[3];
+Obj g__03518572_037 = makeCons(co->gc, g__03518571_037, Nil);
+Obj g__03518573_037 = makeCons(co->gc, g__03517716_037, g__03518572_037);
+Obj g__03518574_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518573_037);
+R[1] = g__03517718_037;
+R[2] = g__03518574_037;
 saveCont(co, clofun48, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3517482_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), g__03517508_037);
 return;
 }
 case 5:
 {
-Obj _3518544_37= co->res;
-Obj _3517691_37 = R[1];
-Obj _3517690_37 = R[2];
-Obj _3517482_37 = R[3];
-Obj _3517692_37 = _3518544_37;
-R[1] = _3517690_37;
-R[2] = _3517482_37;
-R[3] = _3517692_37;
+Obj g__03518570_037= co->res;
+Obj g__03517717_037 = R[1];
+Obj g__03517716_037 = R[2];
+Obj g__03517508_037 = R[3];
+Obj g__03517718_037 = g__03518570_037;
+R[1] = g__03517716_037;
+R[2] = g__03517508_037;
+R[3] = g__03517718_037;
 saveCont(co, clofun48, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517692_37, _3517691_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), g__03517718_037, g__03517717_037);
 return;
 }
 case 6:
 {
-Obj _3518481_37= co->res;
-Obj _3517483_37 = R[1];
-Obj _3517482_37 = R[2];
-if (True == _3518481_37) {
-coraReturn(co, _3517483_37);
+Obj g__03518507_037= co->res;
+Obj g__03517509_037 = R[1];
+Obj g__03517508_037 = R[2];
+if (True == g__03518507_037) {
+coraReturn(co, g__03517509_037);
 return;
 } else {
-Obj _3518482_37 = primIsSymbol(_3517483_37);
-if (True == _3518482_37) {
-R[1] = _3517483_37;
+Obj g__03518508_037 = primIsSymbol(g__03517509_037);
+if (True == g__03518508_037) {
+R[1] = g__03517509_037;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517483_37, _3517482_37);
-return;
-} else {
-Obj _3517683_37 = makeNative(co->gc, 3, clofun47, 0, 2, _3517483_37, _3517482_37);
-Obj _3518524_37 = PRIM_ISCONS(_3517483_37);
-if (True == _3518524_37) {
-Obj _3518525_37 = PRIM_CAR(_3517483_37);
-Obj _3518526_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518525_37);
-if (True == _3518526_37) {
-Obj _3518527_37 = PRIM_CDR(_3517483_37);
-Obj _3518528_37 = PRIM_ISCONS(_3518527_37);
-if (True == _3518528_37) {
-Obj _3518529_37 = PRIM_CDR(_3517483_37);
-Obj _3518530_37 = PRIM_CAR(_3518529_37);
-Obj _3517690_37 = _3518530_37;
-Obj _3518531_37 = PRIM_CDR(_3517483_37);
-Obj _3518532_37 = PRIM_CDR(_3518531_37);
-Obj _3518533_37 = PRIM_ISCONS(_3518532_37);
-if (True == _3518533_37) {
-Obj _3518534_37 = PRIM_CDR(_3517483_37);
-Obj _3518535_37 = PRIM_CDR(_3518534_37);
-Obj _3518536_37 = PRIM_CAR(_3518535_37);
-Obj _3517691_37 = _3518536_37;
-Obj _3518537_37 = PRIM_CDR(_3517483_37);
-Obj _3518538_37 = PRIM_CDR(_3518537_37);
-Obj _3518539_37 = PRIM_CDR(_3518538_37);
-Obj _3518540_37 = PRIM_EQ(Nil, _3518539_37);
-if (True == _3518540_37) {
-Obj _3518541_37 = makeCons(co->gc, _3517691_37, Nil);
-Obj _3518542_37 = makeCons(co->gc, _3517690_37, _3518541_37);
-Obj _3518543_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518542_37);
-R[1] = _3517691_37;
-R[2] = _3517690_37;
-R[3] = _3517482_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517509_037, g__03517508_037);
+return;
+} else {
+Obj g__03517709_037 = makeNative(co->gc, 3, clofun47, 0, 2, g__03517509_037, g__03517508_037);
+Obj g__03518550_037 = PRIM_ISCONS(g__03517509_037);
+if (True == g__03518550_037) {
+Obj g__03518551_037 = PRIM_CAR(g__03517509_037);
+Obj g__03518552_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518551_037);
+if (True == g__03518552_037) {
+Obj g__03518553_037 = PRIM_CDR(g__03517509_037);
+Obj g__03518554_037 = PRIM_ISCONS(g__03518553_037);
+if (True == g__03518554_037) {
+Obj g__03518555_037 = PRIM_CDR(g__03517509_037);
+Obj g__03518556_037 = PRIM_CAR(g__03518555_037);
+Obj g__03517716_037 = g__03518556_037;
+Obj g__03518557_037 = PRIM_CDR(g__03517509_037);
+Obj g__03518558_037 = PRIM_CDR(g__03518557_037);
+Obj g__03518559_037 = PRIM_ISCONS(g__03518558_037);
+if (True == g__03518559_037) {
+Obj g__03518560_037 = PRIM_CDR(g__03517509_037);
+Obj g__03518561_037 = PRIM_CDR(g__03518560_037);
+Obj g__03518562_037 = PRIM_CAR(g__03518561_037);
+Obj g__03517717_037 = g__03518562_037;
+Obj g__03518563_037 = PRIM_CDR(g__03517509_037);
+Obj g__03518564_037 = PRIM_CDR(g__03518563_037);
+Obj g__03518565_037 = PRIM_CDR(g__03518564_037);
+Obj g__03518566_037 = PRIM_EQ(Nil, g__03518565_037);
+if (True == g__03518566_037) {
+Obj g__03518567_037 = makeCons(co->gc, g__03517717_037, Nil);
+Obj g__03518568_037 = makeCons(co->gc, g__03517716_037, g__03518567_037);
+Obj g__03518569_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518568_037);
+R[1] = g__03517717_037;
+R[2] = g__03517716_037;
+R[3] = g__03517508_037;
 saveCont(co, clofun48, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518543_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03518569_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517683_37);
+coraCall0(co, g__03517709_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517683_37);
+coraCall0(co, g__03517709_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517683_37);
+coraCall0(co, g__03517709_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517683_37);
+coraCall0(co, g__03517709_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517683_37);
+coraCall0(co, g__03517709_037);
 return;
 }
 }
@@ -6390,99 +6427,99 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517684_37 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518492_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518492_37) {
-Obj _3518493_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518494_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518493_37);
-if (True == _3518494_37) {
-Obj _3518495_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518496_37 = PRIM_ISCONS(_3518495_37);
-if (True == _3518496_37) {
-Obj _3518497_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518498_37 = PRIM_CAR(_3518497_37);
-Obj _3517687_37 = _3518498_37;
-Obj _3518499_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518500_37 = PRIM_CDR(_3518499_37);
-Obj _3518501_37 = PRIM_ISCONS(_3518500_37);
-if (True == _3518501_37) {
-Obj _3518502_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518503_37 = PRIM_CDR(_3518502_37);
-Obj _3518504_37 = PRIM_CAR(_3518503_37);
-Obj _3517688_37 = _3518504_37;
-Obj _3518505_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518506_37 = PRIM_CDR(_3518505_37);
-Obj _3518507_37 = PRIM_CDR(_3518506_37);
-Obj _3518508_37 = PRIM_ISCONS(_3518507_37);
-if (True == _3518508_37) {
-Obj _3518509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518510_37 = PRIM_CDR(_3518509_37);
-Obj _3518511_37 = PRIM_CDR(_3518510_37);
-Obj _3518512_37 = PRIM_CAR(_3518511_37);
-Obj _3517689_37 = _3518512_37;
-Obj _3518513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518514_37 = PRIM_CDR(_3518513_37);
-Obj _3518515_37 = PRIM_CDR(_3518514_37);
-Obj _3518516_37 = PRIM_CDR(_3518515_37);
-Obj _3518517_37 = PRIM_EQ(Nil, _3518516_37);
-if (True == _3518517_37) {
-R[1] = _3517689_37;
-R[2] = _3517687_37;
+Obj g__03517710_037 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518518_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518518_037) {
+Obj g__03518519_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518520_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518519_037);
+if (True == g__03518520_037) {
+Obj g__03518521_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518522_037 = PRIM_ISCONS(g__03518521_037);
+if (True == g__03518522_037) {
+Obj g__03518523_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518524_037 = PRIM_CAR(g__03518523_037);
+Obj g__03517713_037 = g__03518524_037;
+Obj g__03518525_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518526_037 = PRIM_CDR(g__03518525_037);
+Obj g__03518527_037 = PRIM_ISCONS(g__03518526_037);
+if (True == g__03518527_037) {
+Obj g__03518528_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518529_037 = PRIM_CDR(g__03518528_037);
+Obj g__03518530_037 = PRIM_CAR(g__03518529_037);
+Obj g__03517714_037 = g__03518530_037;
+Obj g__03518531_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518532_037 = PRIM_CDR(g__03518531_037);
+Obj g__03518533_037 = PRIM_CDR(g__03518532_037);
+Obj g__03518534_037 = PRIM_ISCONS(g__03518533_037);
+if (True == g__03518534_037) {
+Obj g__03518535_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518536_037 = PRIM_CDR(g__03518535_037);
+Obj g__03518537_037 = PRIM_CDR(g__03518536_037);
+Obj g__03518538_037 = PRIM_CAR(g__03518537_037);
+Obj g__03517715_037 = g__03518538_037;
+Obj g__03518539_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518540_037 = PRIM_CDR(g__03518539_037);
+Obj g__03518541_037 = PRIM_CDR(g__03518540_037);
+Obj g__03518542_037 = PRIM_CDR(g__03518541_037);
+Obj g__03518543_037 = PRIM_EQ(Nil, g__03518542_037);
+if (True == g__03518543_037) {
+R[1] = g__03517715_037;
+R[2] = g__03517713_037;
 saveCont(co, clofun47, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517688_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), g__03517714_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, g__03517710_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, g__03517710_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, g__03517710_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, g__03517710_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, g__03517710_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, g__03517710_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518519_37= co->res;
-Obj _3518518_37 = R[1];
-Obj _3517687_37 = R[2];
-Obj _3518520_37 = makeCons(co->gc, _3518519_37, Nil);
-Obj _3518521_37 = makeCons(co->gc, _3518518_37, _3518520_37);
-Obj _3518522_37 = makeCons(co->gc, _3517687_37, _3518521_37);
-Obj _3518523_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518522_37);
-coraReturn(co, _3518523_37);
+Obj g__03518545_037= co->res;
+Obj g__03518544_037 = R[1];
+Obj g__03517713_037 = R[2];
+Obj g__03518546_037 = makeCons(co->gc, g__03518545_037, Nil);
+Obj g__03518547_037 = makeCons(co->gc, g__03518544_037, g__03518546_037);
+Obj g__03518548_037 = makeCons(co->gc, g__03517713_037, g__03518547_037);
+Obj g__03518549_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518548_037);
+coraReturn(co, g__03518549_037);
 return;
 }
 case 2:
 {
-Obj _3518518_37= co->res;
-Obj _3517689_37 = R[1];
-Obj _3517687_37 = R[2];
-R[1] = _3518518_37;
-R[2] = _3517687_37;
+Obj g__03518544_037= co->res;
+Obj g__03517715_037 = R[1];
+Obj g__03517713_037 = R[2];
+R[1] = g__03518544_037;
+R[2] = g__03517713_037;
 saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517689_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), g__03517715_037);
 return;
 }
 }
@@ -6492,31 +6529,31 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518487_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518487_37) {
-Obj _3518488_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517685_37 = _3518488_37;
-Obj _3518489_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517686_37 = _3518489_37;
-R[1] = _3517685_37;
-R[2] = _3517686_37;
+Obj g__03518513_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518513_037) {
+Obj g__03518514_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517711_037 = g__03518514_037;
+Obj g__03518515_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517712_037 = g__03518515_037;
+R[1] = g__03517711_037;
+R[2] = g__03517712_037;
 saveCont(co, clofun46, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3518490_37= co->res;
-Obj _3517685_37 = R[1];
-Obj _3517686_37 = R[2];
-Obj _3518491_37 = makeCons(co->gc, _3517685_37, _3517686_37);
+Obj g__03518516_037= co->res;
+Obj g__03517711_037 = R[1];
+Obj g__03517712_037 = R[2];
+Obj g__03518517_037 = makeCons(co->gc, g__03517711_037, g__03517712_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518490_37, _3518491_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518516_037, g__03518517_037);
 return;
 }
 }
@@ -6526,86 +6563,86 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517469_37 = R[1];
-R[1] = _3517469_37;
+Obj g__03517495_037 = R[1];
+R[1] = g__03517495_037;
 saveCont(co, clofun45, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517469_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517495_037);
 return;
 }
 case 1:
 {
-Obj _3518479_37= co->res;
-Obj _3517680_37 = R[1];
+Obj g__03518505_037= co->res;
+Obj g__03517706_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518479_37, _3517680_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518505_037, g__03517706_037);
 return;
 }
 case 2:
 {
-Obj _3518306_37= co->res;
-Obj _3517469_37 = R[1];
-if (True == _3518306_37) {
+Obj g__03518332_037= co->res;
+Obj g__03517495_037 = R[1];
+if (True == g__03518332_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518307_37 = primIsSymbol(_3517469_37);
-if (True == _3518307_37) {
-Obj _3518308_37 = makeCons(co->gc, _3517469_37, Nil);
-coraReturn(co, _3518308_37);
-return;
-} else {
-Obj _3517653_37 = makeNative(co->gc, 1, clofun44, 0, 1, _3517469_37);
-Obj _3518462_37 = PRIM_ISCONS(_3517469_37);
-if (True == _3518462_37) {
-Obj _3518463_37 = PRIM_CAR(_3517469_37);
-Obj _3518464_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518463_37);
-if (True == _3518464_37) {
-Obj _3518465_37 = PRIM_CDR(_3517469_37);
-Obj _3518466_37 = PRIM_ISCONS(_3518465_37);
-if (True == _3518466_37) {
-Obj _3518467_37 = PRIM_CDR(_3517469_37);
-Obj _3518468_37 = PRIM_CAR(_3518467_37);
-Obj _3517680_37 = _3518468_37;
-Obj _3518469_37 = PRIM_CDR(_3517469_37);
-Obj _3518470_37 = PRIM_CDR(_3518469_37);
-Obj _3518471_37 = PRIM_ISCONS(_3518470_37);
-if (True == _3518471_37) {
-Obj _3518472_37 = PRIM_CDR(_3517469_37);
-Obj _3518473_37 = PRIM_CDR(_3518472_37);
-Obj _3518474_37 = PRIM_CAR(_3518473_37);
-Obj _3517681_37 = _3518474_37;
-Obj _3518475_37 = PRIM_CDR(_3517469_37);
-Obj _3518476_37 = PRIM_CDR(_3518475_37);
-Obj _3518477_37 = PRIM_CDR(_3518476_37);
-Obj _3518478_37 = PRIM_EQ(Nil, _3518477_37);
-if (True == _3518478_37) {
-R[1] = _3517680_37;
+Obj g__03518333_037 = primIsSymbol(g__03517495_037);
+if (True == g__03518333_037) {
+Obj g__03518334_037 = makeCons(co->gc, g__03517495_037, Nil);
+coraReturn(co, g__03518334_037);
+return;
+} else {
+Obj g__03517679_037 = makeNative(co->gc, 1, clofun44, 0, 1, g__03517495_037);
+Obj g__03518488_037 = PRIM_ISCONS(g__03517495_037);
+if (True == g__03518488_037) {
+Obj g__03518489_037 = PRIM_CAR(g__03517495_037);
+Obj g__03518490_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518489_037);
+if (True == g__03518490_037) {
+Obj g__03518491_037 = PRIM_CDR(g__03517495_037);
+Obj g__03518492_037 = PRIM_ISCONS(g__03518491_037);
+if (True == g__03518492_037) {
+Obj g__03518493_037 = PRIM_CDR(g__03517495_037);
+Obj g__03518494_037 = PRIM_CAR(g__03518493_037);
+Obj g__03517706_037 = g__03518494_037;
+Obj g__03518495_037 = PRIM_CDR(g__03517495_037);
+Obj g__03518496_037 = PRIM_CDR(g__03518495_037);
+Obj g__03518497_037 = PRIM_ISCONS(g__03518496_037);
+if (True == g__03518497_037) {
+Obj g__03518498_037 = PRIM_CDR(g__03517495_037);
+Obj g__03518499_037 = PRIM_CDR(g__03518498_037);
+Obj g__03518500_037 = PRIM_CAR(g__03518499_037);
+Obj g__03517707_037 = g__03518500_037;
+Obj g__03518501_037 = PRIM_CDR(g__03517495_037);
+Obj g__03518502_037 = PRIM_CDR(g__03518501_037);
+Obj g__03518503_037 = PRIM_CDR(g__03518502_037);
+Obj g__03518504_037 = PRIM_EQ(Nil, g__03518503_037);
+if (True == g__03518504_037) {
+R[1] = g__03517706_037;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517681_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517707_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517653_37);
+coraCall0(co, g__03517679_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517653_37);
+coraCall0(co, g__03517679_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517653_37);
+coraCall0(co, g__03517679_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517653_37);
+coraCall0(co, g__03517679_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517653_37);
+coraCall0(co, g__03517679_037);
 return;
 }
 }
@@ -6618,84 +6655,84 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517654_37 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj _3518432_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518432_37) {
-Obj _3518433_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518434_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518433_37);
-if (True == _3518434_37) {
-Obj _3518435_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518436_37 = PRIM_ISCONS(_3518435_37);
-if (True == _3518436_37) {
-Obj _3518437_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518438_37 = PRIM_CAR(_3518437_37);
-Obj _3517677_37 = _3518438_37;
-Obj _3518439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518440_37 = PRIM_CDR(_3518439_37);
-Obj _3518441_37 = PRIM_ISCONS(_3518440_37);
-if (True == _3518441_37) {
-Obj _3518442_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518443_37 = PRIM_CDR(_3518442_37);
-Obj _3518444_37 = PRIM_CAR(_3518443_37);
-Obj _3517678_37 = _3518444_37;
-Obj _3518445_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518446_37 = PRIM_CDR(_3518445_37);
-Obj _3518447_37 = PRIM_CDR(_3518446_37);
-Obj _3518448_37 = PRIM_ISCONS(_3518447_37);
-if (True == _3518448_37) {
-Obj _3518449_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518450_37 = PRIM_CDR(_3518449_37);
-Obj _3518451_37 = PRIM_CDR(_3518450_37);
-Obj _3518452_37 = PRIM_CAR(_3518451_37);
-Obj _3517679_37 = _3518452_37;
-Obj _3518453_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518454_37 = PRIM_CDR(_3518453_37);
-Obj _3518455_37 = PRIM_CDR(_3518454_37);
-Obj _3518456_37 = PRIM_CDR(_3518455_37);
-Obj _3518457_37 = PRIM_EQ(Nil, _3518456_37);
-if (True == _3518457_37) {
-Obj _3518458_37 = makeCons(co->gc, _3517679_37, Nil);
-Obj _3518459_37 = makeCons(co->gc, _3517678_37, _3518458_37);
-Obj _3518460_37 = makeCons(co->gc, _3517677_37, _3518459_37);
+Obj g__03517680_037 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj g__03518458_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518458_037) {
+Obj g__03518459_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518460_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518459_037);
+if (True == g__03518460_037) {
+Obj g__03518461_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518462_037 = PRIM_ISCONS(g__03518461_037);
+if (True == g__03518462_037) {
+Obj g__03518463_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518464_037 = PRIM_CAR(g__03518463_037);
+Obj g__03517703_037 = g__03518464_037;
+Obj g__03518465_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518466_037 = PRIM_CDR(g__03518465_037);
+Obj g__03518467_037 = PRIM_ISCONS(g__03518466_037);
+if (True == g__03518467_037) {
+Obj g__03518468_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518469_037 = PRIM_CDR(g__03518468_037);
+Obj g__03518470_037 = PRIM_CAR(g__03518469_037);
+Obj g__03517704_037 = g__03518470_037;
+Obj g__03518471_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518472_037 = PRIM_CDR(g__03518471_037);
+Obj g__03518473_037 = PRIM_CDR(g__03518472_037);
+Obj g__03518474_037 = PRIM_ISCONS(g__03518473_037);
+if (True == g__03518474_037) {
+Obj g__03518475_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518476_037 = PRIM_CDR(g__03518475_037);
+Obj g__03518477_037 = PRIM_CDR(g__03518476_037);
+Obj g__03518478_037 = PRIM_CAR(g__03518477_037);
+Obj g__03517705_037 = g__03518478_037;
+Obj g__03518479_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518480_037 = PRIM_CDR(g__03518479_037);
+Obj g__03518481_037 = PRIM_CDR(g__03518480_037);
+Obj g__03518482_037 = PRIM_CDR(g__03518481_037);
+Obj g__03518483_037 = PRIM_EQ(Nil, g__03518482_037);
+if (True == g__03518483_037) {
+Obj g__03518484_037 = makeCons(co->gc, g__03517705_037, Nil);
+Obj g__03518485_037 = makeCons(co->gc, g__03517704_037, g__03518484_037);
+Obj g__03518486_037 = makeCons(co->gc, g__03517703_037, g__03518485_037);
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518460_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518486_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517654_37);
+coraCall0(co, g__03517680_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517654_37);
+coraCall0(co, g__03517680_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517654_37);
+coraCall0(co, g__03517680_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517654_37);
+coraCall0(co, g__03517680_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517654_37);
+coraCall0(co, g__03517680_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517654_37);
+coraCall0(co, g__03517680_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518461_37= co->res;
+Obj g__03518487_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518461_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518487_037);
 return;
 }
 }
@@ -6705,67 +6742,67 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517655_37 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
-Obj _3518412_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518412_37) {
-Obj _3518413_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518414_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518413_37);
-if (True == _3518414_37) {
-Obj _3518415_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518416_37 = PRIM_ISCONS(_3518415_37);
-if (True == _3518416_37) {
-Obj _3518417_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518418_37 = PRIM_CAR(_3518417_37);
-Obj _3517675_37 = _3518418_37;
-Obj _3518419_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518420_37 = PRIM_CDR(_3518419_37);
-Obj _3518421_37 = PRIM_ISCONS(_3518420_37);
-if (True == _3518421_37) {
-Obj _3518422_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518423_37 = PRIM_CDR(_3518422_37);
-Obj _3518424_37 = PRIM_CAR(_3518423_37);
-Obj _3517676_37 = _3518424_37;
-Obj _3518425_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518426_37 = PRIM_CDR(_3518425_37);
-Obj _3518427_37 = PRIM_CDR(_3518426_37);
-Obj _3518428_37 = PRIM_EQ(Nil, _3518427_37);
-if (True == _3518428_37) {
-Obj _3518429_37 = makeCons(co->gc, _3517676_37, Nil);
-Obj _3518430_37 = makeCons(co->gc, _3517675_37, _3518429_37);
+Obj g__03517681_037 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
+Obj g__03518438_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518438_037) {
+Obj g__03518439_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518440_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518439_037);
+if (True == g__03518440_037) {
+Obj g__03518441_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518442_037 = PRIM_ISCONS(g__03518441_037);
+if (True == g__03518442_037) {
+Obj g__03518443_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518444_037 = PRIM_CAR(g__03518443_037);
+Obj g__03517701_037 = g__03518444_037;
+Obj g__03518445_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518446_037 = PRIM_CDR(g__03518445_037);
+Obj g__03518447_037 = PRIM_ISCONS(g__03518446_037);
+if (True == g__03518447_037) {
+Obj g__03518448_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518449_037 = PRIM_CDR(g__03518448_037);
+Obj g__03518450_037 = PRIM_CAR(g__03518449_037);
+Obj g__03517702_037 = g__03518450_037;
+Obj g__03518451_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518452_037 = PRIM_CDR(g__03518451_037);
+Obj g__03518453_037 = PRIM_CDR(g__03518452_037);
+Obj g__03518454_037 = PRIM_EQ(Nil, g__03518453_037);
+if (True == g__03518454_037) {
+Obj g__03518455_037 = makeCons(co->gc, g__03517702_037, Nil);
+Obj g__03518456_037 = makeCons(co->gc, g__03517701_037, g__03518455_037);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518430_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518456_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517655_37);
+coraCall0(co, g__03517681_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517655_37);
+coraCall0(co, g__03517681_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517655_37);
+coraCall0(co, g__03517681_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517655_37);
+coraCall0(co, g__03517681_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517655_37);
+coraCall0(co, g__03517681_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518431_37= co->res;
+Obj g__03518457_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518431_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518457_037);
 return;
 }
 }
@@ -6775,106 +6812,106 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517656_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj _3518382_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518382_37) {
-Obj _3518383_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518384_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518383_37);
-if (True == _3518384_37) {
-Obj _3518385_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518386_37 = PRIM_ISCONS(_3518385_37);
-if (True == _3518386_37) {
-Obj _3518387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518388_37 = PRIM_CAR(_3518387_37);
-Obj _3517672_37 = _3518388_37;
-Obj _3518389_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518390_37 = PRIM_CDR(_3518389_37);
-Obj _3518391_37 = PRIM_ISCONS(_3518390_37);
-if (True == _3518391_37) {
-Obj _3518392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518393_37 = PRIM_CDR(_3518392_37);
-Obj _3518394_37 = PRIM_CAR(_3518393_37);
-Obj _3517673_37 = _3518394_37;
-Obj _3518395_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518396_37 = PRIM_CDR(_3518395_37);
-Obj _3518397_37 = PRIM_CDR(_3518396_37);
-Obj _3518398_37 = PRIM_ISCONS(_3518397_37);
-if (True == _3518398_37) {
-Obj _3518399_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518400_37 = PRIM_CDR(_3518399_37);
-Obj _3518401_37 = PRIM_CDR(_3518400_37);
-Obj _3518402_37 = PRIM_CAR(_3518401_37);
-Obj _3517674_37 = _3518402_37;
-Obj _3518403_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518404_37 = PRIM_CDR(_3518403_37);
-Obj _3518405_37 = PRIM_CDR(_3518404_37);
-Obj _3518406_37 = PRIM_CDR(_3518405_37);
-Obj _3518407_37 = PRIM_EQ(Nil, _3518406_37);
-if (True == _3518407_37) {
-R[1] = _3517674_37;
-R[2] = _3517672_37;
+Obj g__03517682_037 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj g__03518408_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518408_037) {
+Obj g__03518409_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518410_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518409_037);
+if (True == g__03518410_037) {
+Obj g__03518411_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518412_037 = PRIM_ISCONS(g__03518411_037);
+if (True == g__03518412_037) {
+Obj g__03518413_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518414_037 = PRIM_CAR(g__03518413_037);
+Obj g__03517698_037 = g__03518414_037;
+Obj g__03518415_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518416_037 = PRIM_CDR(g__03518415_037);
+Obj g__03518417_037 = PRIM_ISCONS(g__03518416_037);
+if (True == g__03518417_037) {
+Obj g__03518418_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518419_037 = PRIM_CDR(g__03518418_037);
+Obj g__03518420_037 = PRIM_CAR(g__03518419_037);
+Obj g__03517699_037 = g__03518420_037;
+Obj g__03518421_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518422_037 = PRIM_CDR(g__03518421_037);
+Obj g__03518423_037 = PRIM_CDR(g__03518422_037);
+Obj g__03518424_037 = PRIM_ISCONS(g__03518423_037);
+if (True == g__03518424_037) {
+Obj g__03518425_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518426_037 = PRIM_CDR(g__03518425_037);
+Obj g__03518427_037 = PRIM_CDR(g__03518426_037);
+Obj g__03518428_037 = PRIM_CAR(g__03518427_037);
+Obj g__03517700_037 = g__03518428_037;
+Obj g__03518429_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518430_037 = PRIM_CDR(g__03518429_037);
+Obj g__03518431_037 = PRIM_CDR(g__03518430_037);
+Obj g__03518432_037 = PRIM_CDR(g__03518431_037);
+Obj g__03518433_037 = PRIM_EQ(Nil, g__03518432_037);
+if (True == g__03518433_037) {
+R[1] = g__03517700_037;
+R[2] = g__03517698_037;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517673_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517699_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517656_37);
+coraCall0(co, g__03517682_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517656_37);
+coraCall0(co, g__03517682_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517656_37);
+coraCall0(co, g__03517682_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517656_37);
+coraCall0(co, g__03517682_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517656_37);
+coraCall0(co, g__03517682_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517656_37);
+coraCall0(co, g__03517682_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518411_37= co->res;
-Obj _3518408_37 = R[1];
+Obj g__03518437_037= co->res;
+Obj g__03518434_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3518408_37, _3518411_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03518434_037, g__03518437_037);
 return;
 }
 case 2:
 {
-Obj _3518409_37= co->res;
-Obj _3517672_37 = R[1];
-Obj _3518408_37 = R[2];
-Obj _3518410_37 = makeCons(co->gc, _3517672_37, Nil);
-R[1] = _3518408_37;
+Obj g__03518435_037= co->res;
+Obj g__03517698_037 = R[1];
+Obj g__03518434_037 = R[2];
+Obj g__03518436_037 = makeCons(co->gc, g__03517698_037, Nil);
+R[1] = g__03518434_037;
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518409_37, _3518410_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518435_037, g__03518436_037);
 return;
 }
 case 3:
 {
-Obj _3518408_37= co->res;
-Obj _3517674_37 = R[1];
-Obj _3517672_37 = R[2];
-R[1] = _3517672_37;
-R[2] = _3518408_37;
+Obj g__03518434_037= co->res;
+Obj g__03517700_037 = R[1];
+Obj g__03517698_037 = R[2];
+R[1] = g__03517698_037;
+R[2] = g__03518434_037;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517674_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517700_037);
 return;
 }
 }
@@ -6884,38 +6921,38 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517657_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj _3518372_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518372_37) {
-Obj _3518373_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518374_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518373_37);
-if (True == _3518374_37) {
-Obj _3518375_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518376_37 = PRIM_ISCONS(_3518375_37);
-if (True == _3518376_37) {
-Obj _3518377_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518378_37 = PRIM_CAR(_3518377_37);
-Obj _3517670_37 = _3518378_37;
-Obj _3518379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518380_37 = PRIM_CDR(_3518379_37);
-Obj _3517671_37 = _3518380_37;
-Obj _3518381_37 = makeCons(co->gc, _3517670_37, _3517671_37);
+Obj g__03517683_037 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj g__03518398_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518398_037) {
+Obj g__03518399_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518400_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518399_037);
+if (True == g__03518400_037) {
+Obj g__03518401_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518402_037 = PRIM_ISCONS(g__03518401_037);
+if (True == g__03518402_037) {
+Obj g__03518403_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518404_037 = PRIM_CAR(g__03518403_037);
+Obj g__03517696_037 = g__03518404_037;
+Obj g__03518405_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518406_037 = PRIM_CDR(g__03518405_037);
+Obj g__03517697_037 = g__03518406_037;
+Obj g__03518407_037 = makeCons(co->gc, g__03517696_037, g__03517697_037);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518381_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03518407_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517657_37);
+coraCall0(co, g__03517683_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517657_37);
+coraCall0(co, g__03517683_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517657_37);
+coraCall0(co, g__03517683_037);
 return;
 }
 }
@@ -6926,43 +6963,43 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517658_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3518362_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518364_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3518363_37);
-if (True == _3518364_37) {
-Obj _3518365_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518366_37 = PRIM_ISCONS(_3518365_37);
-if (True == _3518366_37) {
-Obj _3518367_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518368_37 = PRIM_CAR(_3518367_37);
-Obj _3517669_37 = _3518368_37;
-Obj _3518369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518370_37 = PRIM_CDR(_3518369_37);
-Obj _3518371_37 = PRIM_EQ(Nil, _3518370_37);
-if (True == _3518371_37) {
+Obj g__03517684_037 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj g__03518388_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518388_037) {
+Obj g__03518389_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518390_037 = PRIM_EQ(getBinding(co, packageID, 73).name, g__03518389_037);
+if (True == g__03518390_037) {
+Obj g__03518391_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518392_037 = PRIM_ISCONS(g__03518391_037);
+if (True == g__03518392_037) {
+Obj g__03518393_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518394_037 = PRIM_CAR(g__03518393_037);
+Obj g__03517695_037 = g__03518394_037;
+Obj g__03518395_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518396_037 = PRIM_CDR(g__03518395_037);
+Obj g__03518397_037 = PRIM_EQ(Nil, g__03518396_037);
+if (True == g__03518397_037) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517669_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517695_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517658_37);
+coraCall0(co, g__03517684_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517658_37);
+coraCall0(co, g__03517684_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517658_37);
+coraCall0(co, g__03517684_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517658_37);
+coraCall0(co, g__03517684_037);
 return;
 }
 }
@@ -6973,67 +7010,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517659_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3518342_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518342_37) {
-Obj _3518343_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518344_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518343_37);
-if (True == _3518344_37) {
-Obj _3518345_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518346_37 = PRIM_ISCONS(_3518345_37);
-if (True == _3518346_37) {
-Obj _3518347_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518348_37 = PRIM_CAR(_3518347_37);
-Obj _3517667_37 = _3518348_37;
-Obj _3518349_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518350_37 = PRIM_CDR(_3518349_37);
-Obj _3518351_37 = PRIM_ISCONS(_3518350_37);
-if (True == _3518351_37) {
-Obj _3518352_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518353_37 = PRIM_CDR(_3518352_37);
-Obj _3518354_37 = PRIM_CAR(_3518353_37);
-Obj _3517668_37 = _3518354_37;
-Obj _3518355_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518356_37 = PRIM_CDR(_3518355_37);
-Obj _3518357_37 = PRIM_CDR(_3518356_37);
-Obj _3518358_37 = PRIM_EQ(Nil, _3518357_37);
-if (True == _3518358_37) {
-Obj _3518359_37 = makeCons(co->gc, _3517668_37, Nil);
-Obj _3518360_37 = makeCons(co->gc, _3517667_37, _3518359_37);
+Obj g__03517685_037 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj g__03518368_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518368_037) {
+Obj g__03518369_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518370_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518369_037);
+if (True == g__03518370_037) {
+Obj g__03518371_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518372_037 = PRIM_ISCONS(g__03518371_037);
+if (True == g__03518372_037) {
+Obj g__03518373_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518374_037 = PRIM_CAR(g__03518373_037);
+Obj g__03517693_037 = g__03518374_037;
+Obj g__03518375_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518376_037 = PRIM_CDR(g__03518375_037);
+Obj g__03518377_037 = PRIM_ISCONS(g__03518376_037);
+if (True == g__03518377_037) {
+Obj g__03518378_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518379_037 = PRIM_CDR(g__03518378_037);
+Obj g__03518380_037 = PRIM_CAR(g__03518379_037);
+Obj g__03517694_037 = g__03518380_037;
+Obj g__03518381_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518382_037 = PRIM_CDR(g__03518381_037);
+Obj g__03518383_037 = PRIM_CDR(g__03518382_037);
+Obj g__03518384_037 = PRIM_EQ(Nil, g__03518383_037);
+if (True == g__03518384_037) {
+Obj g__03518385_037 = makeCons(co->gc, g__03517694_037, Nil);
+Obj g__03518386_037 = makeCons(co->gc, g__03517693_037, g__03518385_037);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518360_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518386_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517659_37);
+coraCall0(co, g__03517685_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517659_37);
+coraCall0(co, g__03517685_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517659_37);
+coraCall0(co, g__03517685_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517659_37);
+coraCall0(co, g__03517685_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517659_37);
+coraCall0(co, g__03517685_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518361_37= co->res;
+Obj g__03518387_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518361_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518387_037);
 return;
 }
 }
@@ -7043,43 +7080,43 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517660_37 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518332_37) {
-Obj _3518333_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518334_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518333_37);
-if (True == _3518334_37) {
-Obj _3518335_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518336_37 = PRIM_ISCONS(_3518335_37);
-if (True == _3518336_37) {
-Obj _3518337_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518338_37 = PRIM_CAR(_3518337_37);
-Obj _3517666_37 = _3518338_37;
-Obj _3518339_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518340_37 = PRIM_CDR(_3518339_37);
-Obj _3518341_37 = PRIM_EQ(Nil, _3518340_37);
-if (True == _3518341_37) {
+Obj g__03517686_037 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj g__03518358_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518358_037) {
+Obj g__03518359_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518360_037 = PRIM_EQ(getBinding(co, packageID, 75).name, g__03518359_037);
+if (True == g__03518360_037) {
+Obj g__03518361_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518362_037 = PRIM_ISCONS(g__03518361_037);
+if (True == g__03518362_037) {
+Obj g__03518363_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518364_037 = PRIM_CAR(g__03518363_037);
+Obj g__03517692_037 = g__03518364_037;
+Obj g__03518365_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518366_037 = PRIM_CDR(g__03518365_037);
+Obj g__03518367_037 = PRIM_EQ(Nil, g__03518366_037);
+if (True == g__03518367_037) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517666_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517692_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517660_37);
+coraCall0(co, g__03517686_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517660_37);
+coraCall0(co, g__03517686_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517660_37);
+coraCall0(co, g__03517686_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517660_37);
+coraCall0(co, g__03517686_037);
 return;
 }
 }
@@ -7090,67 +7127,67 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517661_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518314_37) {
-Obj _3518315_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518316_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518315_37);
-if (True == _3518316_37) {
-Obj _3518317_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518318_37 = PRIM_ISCONS(_3518317_37);
-if (True == _3518318_37) {
-Obj _3518319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518320_37 = PRIM_CAR(_3518319_37);
-Obj _3517664_37 = _3518320_37;
-Obj _3518321_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518322_37 = PRIM_CDR(_3518321_37);
-Obj _3518323_37 = PRIM_ISCONS(_3518322_37);
-if (True == _3518323_37) {
-Obj _3518324_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518325_37 = PRIM_CDR(_3518324_37);
-Obj _3518326_37 = PRIM_CAR(_3518325_37);
-Obj _3517665_37 = _3518326_37;
-Obj _3518327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518328_37 = PRIM_CDR(_3518327_37);
-Obj _3518329_37 = PRIM_CDR(_3518328_37);
-Obj _3518330_37 = PRIM_EQ(Nil, _3518329_37);
-if (True == _3518330_37) {
-R[1] = _3517664_37;
+Obj g__03517687_037 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj g__03518340_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518340_037) {
+Obj g__03518341_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518342_037 = PRIM_EQ(getBinding(co, packageID, 76).name, g__03518341_037);
+if (True == g__03518342_037) {
+Obj g__03518343_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518344_037 = PRIM_ISCONS(g__03518343_037);
+if (True == g__03518344_037) {
+Obj g__03518345_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518346_037 = PRIM_CAR(g__03518345_037);
+Obj g__03517690_037 = g__03518346_037;
+Obj g__03518347_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518348_037 = PRIM_CDR(g__03518347_037);
+Obj g__03518349_037 = PRIM_ISCONS(g__03518348_037);
+if (True == g__03518349_037) {
+Obj g__03518350_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518351_037 = PRIM_CDR(g__03518350_037);
+Obj g__03518352_037 = PRIM_CAR(g__03518351_037);
+Obj g__03517691_037 = g__03518352_037;
+Obj g__03518353_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518354_037 = PRIM_CDR(g__03518353_037);
+Obj g__03518355_037 = PRIM_CDR(g__03518354_037);
+Obj g__03518356_037 = PRIM_EQ(Nil, g__03518355_037);
+if (True == g__03518356_037) {
+R[1] = g__03517690_037;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517665_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517691_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517661_37);
+coraCall0(co, g__03517687_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517661_37);
+coraCall0(co, g__03517687_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517661_37);
+coraCall0(co, g__03517687_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517661_37);
+coraCall0(co, g__03517687_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517661_37);
+coraCall0(co, g__03517687_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518331_37= co->res;
-Obj _3517664_37 = R[1];
+Obj g__03518357_037= co->res;
+Obj g__03517690_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518331_37, _3517664_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518357_037, g__03517690_037);
 return;
 }
 }
@@ -7160,27 +7197,27 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518309_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518309_37) {
-Obj _3518310_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517662_37 = _3518310_37;
-Obj _3518311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517663_37 = _3518311_37;
-Obj _3518312_37 = makeCons(co->gc, _3517662_37, _3517663_37);
+Obj g__03518335_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518335_037) {
+Obj g__03518336_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517688_037 = g__03518336_037;
+Obj g__03518337_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517689_037 = g__03518337_037;
+Obj g__03518338_037 = makeCons(co->gc, g__03517688_037, g__03517689_037);
 saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518312_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518338_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3518313_37= co->res;
+Obj g__03518339_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518313_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518339_037);
 return;
 }
 }
@@ -7190,42 +7227,42 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517461_37 = R[1];
-Obj _3517646_37 = makeNative(co->gc, 1, clofun34, 0, 1, _3517461_37);
-Obj _3518295_37 = PRIM_ISCONS(_3517461_37);
-if (True == _3518295_37) {
-Obj _3518296_37 = PRIM_CAR(_3517461_37);
-Obj _3518297_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518296_37);
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CDR(_3517461_37);
-Obj _3518299_37 = PRIM_ISCONS(_3518298_37);
-if (True == _3518299_37) {
-Obj _3518300_37 = PRIM_CDR(_3517461_37);
-Obj _3518301_37 = PRIM_CAR(_3518300_37);
-Obj _3518302_37 = PRIM_CDR(_3517461_37);
-Obj _3518303_37 = PRIM_CDR(_3518302_37);
-Obj _3518304_37 = PRIM_EQ(Nil, _3518303_37);
-if (True == _3518304_37) {
+Obj g__03517487_037 = R[1];
+Obj g__03517672_037 = makeNative(co->gc, 1, clofun34, 0, 1, g__03517487_037);
+Obj g__03518321_037 = PRIM_ISCONS(g__03517487_037);
+if (True == g__03518321_037) {
+Obj g__03518322_037 = PRIM_CAR(g__03517487_037);
+Obj g__03518323_037 = PRIM_EQ(getBinding(co, packageID, 97).name, g__03518322_037);
+if (True == g__03518323_037) {
+Obj g__03518324_037 = PRIM_CDR(g__03517487_037);
+Obj g__03518325_037 = PRIM_ISCONS(g__03518324_037);
+if (True == g__03518325_037) {
+Obj g__03518326_037 = PRIM_CDR(g__03517487_037);
+Obj g__03518327_037 = PRIM_CAR(g__03518326_037);
+Obj g__03518328_037 = PRIM_CDR(g__03517487_037);
+Obj g__03518329_037 = PRIM_CDR(g__03518328_037);
+Obj g__03518330_037 = PRIM_EQ(Nil, g__03518329_037);
+if (True == g__03518330_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517646_37);
+coraCall0(co, g__03517672_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517646_37);
+coraCall0(co, g__03517672_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517646_37);
+coraCall0(co, g__03517672_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517646_37);
+coraCall0(co, g__03517672_037);
 return;
 }
 }
@@ -7236,41 +7273,41 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517647_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3518285_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518285_37) {
-Obj _3518286_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518287_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3518286_37);
-if (True == _3518287_37) {
-Obj _3518288_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518289_37 = PRIM_ISCONS(_3518288_37);
-if (True == _3518289_37) {
-Obj _3518290_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518291_37 = PRIM_CAR(_3518290_37);
-Obj _3518292_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518293_37 = PRIM_CDR(_3518292_37);
-Obj _3518294_37 = PRIM_EQ(Nil, _3518293_37);
-if (True == _3518294_37) {
+Obj g__03517673_037 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj g__03518311_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518311_037) {
+Obj g__03518312_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518313_037 = PRIM_EQ(getBinding(co, packageID, 95).name, g__03518312_037);
+if (True == g__03518313_037) {
+Obj g__03518314_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518315_037 = PRIM_ISCONS(g__03518314_037);
+if (True == g__03518315_037) {
+Obj g__03518316_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518317_037 = PRIM_CAR(g__03518316_037);
+Obj g__03518318_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518319_037 = PRIM_CDR(g__03518318_037);
+Obj g__03518320_037 = PRIM_EQ(Nil, g__03518319_037);
+if (True == g__03518320_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517647_37);
+coraCall0(co, g__03517673_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517647_37);
+coraCall0(co, g__03517673_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517647_37);
+coraCall0(co, g__03517673_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517647_37);
+coraCall0(co, g__03517673_037);
 return;
 }
 }
@@ -7281,41 +7318,41 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517648_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3518275_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518275_37) {
-Obj _3518276_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518277_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3518276_37);
-if (True == _3518277_37) {
-Obj _3518278_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518279_37 = PRIM_ISCONS(_3518278_37);
-if (True == _3518279_37) {
-Obj _3518280_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518281_37 = PRIM_CAR(_3518280_37);
-Obj _3518282_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518283_37 = PRIM_CDR(_3518282_37);
-Obj _3518284_37 = PRIM_EQ(Nil, _3518283_37);
-if (True == _3518284_37) {
+Obj g__03517674_037 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj g__03518301_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518301_037) {
+Obj g__03518302_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518303_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03518302_037);
+if (True == g__03518303_037) {
+Obj g__03518304_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518305_037 = PRIM_ISCONS(g__03518304_037);
+if (True == g__03518305_037) {
+Obj g__03518306_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518307_037 = PRIM_CAR(g__03518306_037);
+Obj g__03518308_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518309_037 = PRIM_CDR(g__03518308_037);
+Obj g__03518310_037 = PRIM_EQ(Nil, g__03518309_037);
+if (True == g__03518310_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517648_37);
+coraCall0(co, g__03517674_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517648_37);
+coraCall0(co, g__03517674_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517648_37);
+coraCall0(co, g__03517674_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517648_37);
+coraCall0(co, g__03517674_037);
 return;
 }
 }
@@ -7326,41 +7363,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517649_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj _3518265_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518265_37) {
-Obj _3518266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518267_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518266_37);
-if (True == _3518267_37) {
-Obj _3518268_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518269_37 = PRIM_ISCONS(_3518268_37);
-if (True == _3518269_37) {
-Obj _3518270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518271_37 = PRIM_CAR(_3518270_37);
-Obj _3518272_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518273_37 = PRIM_CDR(_3518272_37);
-Obj _3518274_37 = PRIM_EQ(Nil, _3518273_37);
-if (True == _3518274_37) {
+Obj g__03517675_037 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj g__03518291_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518291_037) {
+Obj g__03518292_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518293_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518292_037);
+if (True == g__03518293_037) {
+Obj g__03518294_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518295_037 = PRIM_ISCONS(g__03518294_037);
+if (True == g__03518295_037) {
+Obj g__03518296_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518297_037 = PRIM_CAR(g__03518296_037);
+Obj g__03518298_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518299_037 = PRIM_CDR(g__03518298_037);
+Obj g__03518300_037 = PRIM_EQ(Nil, g__03518299_037);
+if (True == g__03518300_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517649_37);
+coraCall0(co, g__03517675_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517649_37);
+coraCall0(co, g__03517675_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517649_37);
+coraCall0(co, g__03517675_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517649_37);
+coraCall0(co, g__03517675_037);
 return;
 }
 }
@@ -7371,41 +7408,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517650_37 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
-Obj _3518255_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518255_37) {
-Obj _3518256_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518257_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518256_37);
-if (True == _3518257_37) {
-Obj _3518258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518259_37 = PRIM_ISCONS(_3518258_37);
-if (True == _3518259_37) {
-Obj _3518260_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518261_37 = PRIM_CAR(_3518260_37);
-Obj _3518262_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518263_37 = PRIM_CDR(_3518262_37);
-Obj _3518264_37 = PRIM_EQ(Nil, _3518263_37);
-if (True == _3518264_37) {
+Obj g__03517676_037 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
+Obj g__03518281_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518281_037) {
+Obj g__03518282_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518283_037 = PRIM_EQ(getBinding(co, packageID, 78).name, g__03518282_037);
+if (True == g__03518283_037) {
+Obj g__03518284_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518285_037 = PRIM_ISCONS(g__03518284_037);
+if (True == g__03518285_037) {
+Obj g__03518286_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518287_037 = PRIM_CAR(g__03518286_037);
+Obj g__03518288_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518289_037 = PRIM_CDR(g__03518288_037);
+Obj g__03518290_037 = PRIM_EQ(Nil, g__03518289_037);
+if (True == g__03518290_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, g__03517676_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, g__03517676_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, g__03517676_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, g__03517676_037);
 return;
 }
 }
@@ -7416,50 +7453,50 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517651_37 = makeNative(co->gc, 1, clofun29, 0, 0);
-Obj _3518245_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518245_37) {
-Obj _3518246_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518247_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518246_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518249_37 = PRIM_ISCONS(_3518248_37);
-if (True == _3518249_37) {
-Obj _3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518251_37 = PRIM_CAR(_3518250_37);
-Obj _3517652_37 = _3518251_37;
-Obj _3518252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518253_37 = PRIM_CDR(_3518252_37);
-R[1] = _3517651_37;
+Obj g__03517677_037 = makeNative(co->gc, 1, clofun29, 0, 0);
+Obj g__03518271_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518271_037) {
+Obj g__03518272_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518273_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518272_037);
+if (True == g__03518273_037) {
+Obj g__03518274_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518275_037 = PRIM_ISCONS(g__03518274_037);
+if (True == g__03518275_037) {
+Obj g__03518276_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518277_037 = PRIM_CAR(g__03518276_037);
+Obj g__03517678_037 = g__03518277_037;
+Obj g__03518278_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518279_037 = PRIM_CDR(g__03518278_037);
+R[1] = g__03517677_037;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517652_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517678_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517651_37);
+coraCall0(co, g__03517677_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517651_37);
+coraCall0(co, g__03517677_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517651_37);
+coraCall0(co, g__03517677_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518254_37= co->res;
-Obj _3517651_37 = R[1];
-if (True == _3518254_37) {
+Obj g__03518280_037= co->res;
+Obj g__03517677_037 = R[1];
+if (True == g__03518280_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517651_37);
+coraCall0(co, g__03517677_037);
 return;
 }
 }
@@ -7480,46 +7517,46 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517456_37 = R[1];
-Obj _3517457_37 = R[2];
-Obj _3518234_37 = PRIM_EQ(Nil, _3517456_37);
-if (True == _3518234_37) {
+Obj g__03517482_037 = R[1];
+Obj g__03517483_037 = R[2];
+Obj g__03518260_037 = PRIM_EQ(Nil, g__03517482_037);
+if (True == g__03518260_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517641_37 = makeNative(co->gc, 2, clofun27, 0, 2, _3517456_37, _3517457_37);
-Obj _3518240_37 = PRIM_ISCONS(_3517456_37);
-if (True == _3518240_37) {
-Obj _3518241_37 = PRIM_CAR(_3517456_37);
-Obj _3517644_37 = _3518241_37;
-Obj _3518242_37 = PRIM_CDR(_3517456_37);
-Obj _3517645_37 = _3518242_37;
-R[1] = _3517645_37;
-R[2] = _3517457_37;
-R[3] = _3517641_37;
+Obj g__03517667_037 = makeNative(co->gc, 2, clofun27, 0, 2, g__03517482_037, g__03517483_037);
+Obj g__03518266_037 = PRIM_ISCONS(g__03517482_037);
+if (True == g__03518266_037) {
+Obj g__03518267_037 = PRIM_CAR(g__03517482_037);
+Obj g__03517670_037 = g__03518267_037;
+Obj g__03518268_037 = PRIM_CDR(g__03517482_037);
+Obj g__03517671_037 = g__03518268_037;
+R[1] = g__03517671_037;
+R[2] = g__03517483_037;
+R[3] = g__03517667_037;
 saveCont(co, clofun28, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517644_37, _3517457_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), g__03517670_037, g__03517483_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517641_37);
+coraCall0(co, g__03517667_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518243_37= co->res;
-Obj _3517645_37 = R[1];
-Obj _3517457_37 = R[2];
-Obj _3517641_37 = R[3];
-if (True == _3518243_37) {
+Obj g__03518269_037= co->res;
+Obj g__03517671_037 = R[1];
+Obj g__03517483_037 = R[2];
+Obj g__03517667_037 = R[3];
+if (True == g__03518269_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517645_37, _3517457_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03517671_037, g__03517483_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517641_37);
+coraCall0(co, g__03517667_037);
 return;
 }
 }
@@ -7530,28 +7567,28 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518235_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518235_37) {
-Obj _3518236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517642_37 = _3518236_37;
-Obj _3518237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517643_37 = _3518237_37;
-R[1] = _3517642_37;
+Obj g__03518261_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518261_037) {
+Obj g__03518262_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517668_037 = g__03518262_037;
+Obj g__03518263_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517669_037 = g__03518263_037;
+R[1] = g__03517668_037;
 saveCont(co, clofun27, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517643_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03517669_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3518238_37= co->res;
-Obj _3517642_37 = R[1];
-Obj _3518239_37 = makeCons(co->gc, _3517642_37, _3518238_37);
-coraReturn(co, _3518239_37);
+Obj g__03518264_037= co->res;
+Obj g__03517668_037 = R[1];
+Obj g__03518265_037 = makeCons(co->gc, g__03517668_037, g__03518264_037);
+coraReturn(co, g__03518265_037);
 return;
 }
 }
@@ -7561,46 +7598,46 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517451_37 = R[1];
-Obj _3517452_37 = R[2];
-Obj _3518223_37 = PRIM_EQ(Nil, _3517451_37);
-if (True == _3518223_37) {
-coraReturn(co, _3517452_37);
+Obj g__03517477_037 = R[1];
+Obj g__03517478_037 = R[2];
+Obj g__03518249_037 = PRIM_EQ(Nil, g__03517477_037);
+if (True == g__03518249_037) {
+coraReturn(co, g__03517478_037);
 return;
 } else {
-Obj _3517636_37 = makeNative(co->gc, 2, clofun25, 0, 2, _3517451_37, _3517452_37);
-Obj _3518229_37 = PRIM_ISCONS(_3517451_37);
-if (True == _3518229_37) {
-Obj _3518230_37 = PRIM_CAR(_3517451_37);
-Obj _3517639_37 = _3518230_37;
-Obj _3518231_37 = PRIM_CDR(_3517451_37);
-Obj _3517640_37 = _3518231_37;
-R[1] = _3517640_37;
-R[2] = _3517452_37;
-R[3] = _3517636_37;
+Obj g__03517662_037 = makeNative(co->gc, 2, clofun25, 0, 2, g__03517477_037, g__03517478_037);
+Obj g__03518255_037 = PRIM_ISCONS(g__03517477_037);
+if (True == g__03518255_037) {
+Obj g__03518256_037 = PRIM_CAR(g__03517477_037);
+Obj g__03517665_037 = g__03518256_037;
+Obj g__03518257_037 = PRIM_CDR(g__03517477_037);
+Obj g__03517666_037 = g__03518257_037;
+R[1] = g__03517666_037;
+R[2] = g__03517478_037;
+R[3] = g__03517662_037;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517639_37, _3517452_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), g__03517665_037, g__03517478_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517636_37);
+coraCall0(co, g__03517662_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518232_37= co->res;
-Obj _3517640_37 = R[1];
-Obj _3517452_37 = R[2];
-Obj _3517636_37 = R[3];
-if (True == _3518232_37) {
+Obj g__03518258_037= co->res;
+Obj g__03517666_037 = R[1];
+Obj g__03517478_037 = R[2];
+Obj g__03517662_037 = R[3];
+if (True == g__03518258_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517640_37, _3517452_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03517666_037, g__03517478_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517636_37);
+coraCall0(co, g__03517662_037);
 return;
 }
 }
@@ -7611,28 +7648,28 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518224_37) {
-Obj _3518225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517637_37 = _3518225_37;
-Obj _3518226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517638_37 = _3518226_37;
-R[1] = _3517637_37;
+Obj g__03518250_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518250_037) {
+Obj g__03518251_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517663_037 = g__03518251_037;
+Obj g__03518252_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517664_037 = g__03518252_037;
+R[1] = g__03517663_037;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517638_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03517664_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 case 1:
 {
-Obj _3518227_37= co->res;
-Obj _3517637_37 = R[1];
-Obj _3518228_37 = makeCons(co->gc, _3517637_37, _3518227_37);
-coraReturn(co, _3518228_37);
+Obj g__03518253_037= co->res;
+Obj g__03517663_037 = R[1];
+Obj g__03518254_037 = makeCons(co->gc, g__03517663_037, g__03518253_037);
+coraReturn(co, g__03518254_037);
 return;
 }
 }
@@ -7642,66 +7679,66 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517435_37 = R[1];
-Obj _3517436_37 = R[2];
-Obj _3517437_37 = R[3];
-Obj _3517596_37 = makeNative(co->gc, 2, clofun23, 1, 3, _3517435_37, _3517437_37, _3517436_37);
-R[1] = _3517437_37;
-R[2] = _3517596_37;
+Obj g__03517461_037 = R[1];
+Obj g__03517462_037 = R[2];
+Obj g__03517463_037 = R[3];
+Obj g__03517622_037 = makeNative(co->gc, 2, clofun23, 1, 3, g__03517461_037, g__03517463_037, g__03517462_037);
+R[1] = g__03517463_037;
+R[2] = g__03517622_037;
 saveCont(co, clofun24, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517437_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517463_037);
 return;
 }
 case 1:
 {
-Obj _3518221_37= co->res;
-Obj _3517596_37 = R[1];
-if (True == _3518221_37) {
+Obj g__03518247_037= co->res;
+Obj g__03517622_037 = R[1];
+if (True == g__03518247_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517596_37, True);
+coraCall1(co, g__03517622_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517596_37, False);
+coraCall1(co, g__03517622_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3518220_37= co->res;
-Obj _3517437_37 = R[1];
-Obj _3517596_37 = R[2];
-if (True == _3518220_37) {
+Obj g__03518246_037= co->res;
+Obj g__03517463_037 = R[1];
+Obj g__03517622_037 = R[2];
+if (True == g__03518246_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517596_37, True);
+coraCall1(co, g__03517622_037, True);
 return;
 } else {
-R[1] = _3517596_37;
+R[1] = g__03517622_037;
 saveCont(co, clofun24, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517437_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517463_037);
 return;
 }
 }
 case 3:
 {
-Obj _3518218_37= co->res;
-Obj _3517437_37 = R[1];
-Obj _3517596_37 = R[2];
-if (True == _3518218_37) {
+Obj g__03518244_037= co->res;
+Obj g__03517463_037 = R[1];
+Obj g__03517622_037 = R[2];
+if (True == g__03518244_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517596_37, True);
+coraCall1(co, g__03517622_037, True);
 return;
 } else {
-Obj _3518219_37 = primIsString(_3517437_37);
-if (True == _3518219_37) {
+Obj g__03518245_037 = primIsString(g__03517463_037);
+if (True == g__03518245_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517596_37, True);
+coraCall1(co, g__03517622_037, True);
 return;
 } else {
-R[1] = _3517437_37;
-R[2] = _3517596_37;
+R[1] = g__03517463_037;
+R[2] = g__03517622_037;
 saveCont(co, clofun24, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3517437_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), g__03517463_037);
 return;
 }
 }
@@ -7713,69 +7750,69 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517595_37 = R[1];
-if (True == _3517595_37) {
-Obj _3517982_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3517983_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517982_37);
-coraReturn(co, _3517983_37);
-return;
-} else {
-Obj _3517597_37 = makeNative(co->gc, 4, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3518204_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518204_37) {
-Obj _3518205_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518206_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518205_37);
-if (True == _3518206_37) {
-Obj _3518207_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518208_37 = PRIM_ISCONS(_3518207_37);
-if (True == _3518208_37) {
-Obj _3518209_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518210_37 = PRIM_CAR(_3518209_37);
-Obj _3517635_37 = _3518210_37;
-Obj _3518211_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518212_37 = PRIM_CDR(_3518211_37);
-Obj _3518213_37 = PRIM_EQ(Nil, _3518212_37);
-if (True == _3518213_37) {
-Obj _3518214_37 = primIsSymbol(_3517635_37);
-if (True == _3518214_37) {
-R[1] = _3517635_37;
+Obj g__03517621_037 = R[1];
+if (True == g__03517621_037) {
+Obj g__03518008_037 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj g__03518009_037 = makeCons(co->gc, getBinding(co, packageID, 97).name, g__03518008_037);
+coraReturn(co, g__03518009_037);
+return;
+} else {
+Obj g__03517623_037 = makeNative(co->gc, 4, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj g__03518230_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03518230_037) {
+Obj g__03518231_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03518232_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518231_037);
+if (True == g__03518232_037) {
+Obj g__03518233_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03518234_037 = PRIM_ISCONS(g__03518233_037);
+if (True == g__03518234_037) {
+Obj g__03518235_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03518236_037 = PRIM_CAR(g__03518235_037);
+Obj g__03517661_037 = g__03518236_037;
+Obj g__03518237_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03518238_037 = PRIM_CDR(g__03518237_037);
+Obj g__03518239_037 = PRIM_EQ(Nil, g__03518238_037);
+if (True == g__03518239_037) {
+Obj g__03518240_037 = primIsSymbol(g__03517661_037);
+if (True == g__03518240_037) {
+R[1] = g__03517661_037;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), _3517635_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), g__03517661_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, g__03517623_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, g__03517623_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, g__03517623_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, g__03517623_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, g__03517623_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518215_37= co->res;
-Obj _3517635_37 = R[1];
-Obj _3518216_37 = makeCons(co->gc, _3517635_37, Nil);
-Obj _3518217_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3518216_37);
-coraReturn(co, _3518217_37);
+Obj g__03518241_037= co->res;
+Obj g__03517661_037 = R[1];
+Obj g__03518242_037 = makeCons(co->gc, g__03517661_037, Nil);
+Obj g__03518243_037 = makeCons(co->gc, getBinding(co, packageID, 97).name, g__03518242_037);
+coraReturn(co, g__03518243_037);
 return;
 }
 }
@@ -7785,88 +7822,88 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517598_37 = makeNative(co->gc, 1, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518176_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518176_37) {
-Obj _3518177_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518178_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518177_37);
-if (True == _3518178_37) {
-Obj _3518179_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518180_37 = PRIM_ISCONS(_3518179_37);
-if (True == _3518180_37) {
-Obj _3518181_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518182_37 = PRIM_CAR(_3518181_37);
-Obj _3518183_37 = PRIM_ISCONS(_3518182_37);
-if (True == _3518183_37) {
-Obj _3518184_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518185_37 = PRIM_CAR(_3518184_37);
-Obj _3518186_37 = PRIM_CAR(_3518185_37);
-Obj _3517633_37 = _3518186_37;
-Obj _3518187_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518188_37 = PRIM_CAR(_3518187_37);
-Obj _3518189_37 = PRIM_CDR(_3518188_37);
-Obj _3517634_37 = _3518189_37;
-Obj _3518190_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518191_37 = PRIM_CDR(_3518190_37);
-Obj _3518192_37 = PRIM_EQ(Nil, _3518191_37);
-if (True == _3518192_37) {
-Obj _3518193_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, Nil);
-Obj _3518194_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3518193_37);
-R[1] = _3517633_37;
-R[2] = _3517634_37;
-R[3] = _3518194_37;
+Obj g__03517624_037 = makeNative(co->gc, 1, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518202_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518202_037) {
+Obj g__03518203_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518204_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518203_037);
+if (True == g__03518204_037) {
+Obj g__03518205_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518206_037 = PRIM_ISCONS(g__03518205_037);
+if (True == g__03518206_037) {
+Obj g__03518207_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518208_037 = PRIM_CAR(g__03518207_037);
+Obj g__03518209_037 = PRIM_ISCONS(g__03518208_037);
+if (True == g__03518209_037) {
+Obj g__03518210_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518211_037 = PRIM_CAR(g__03518210_037);
+Obj g__03518212_037 = PRIM_CAR(g__03518211_037);
+Obj g__03517659_037 = g__03518212_037;
+Obj g__03518213_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518214_037 = PRIM_CAR(g__03518213_037);
+Obj g__03518215_037 = PRIM_CDR(g__03518214_037);
+Obj g__03517660_037 = g__03518215_037;
+Obj g__03518216_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518217_037 = PRIM_CDR(g__03518216_037);
+Obj g__03518218_037 = PRIM_EQ(Nil, g__03518217_037);
+if (True == g__03518218_037) {
+Obj g__03518219_037 = makeCons(co->gc, getBinding(co, packageID, 119).name, Nil);
+Obj g__03518220_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03518219_037);
+R[1] = g__03517659_037;
+R[2] = g__03517660_037;
+R[3] = g__03518220_037;
 saveCont(co, clofun22, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517598_37);
+coraCall0(co, g__03517624_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517598_37);
+coraCall0(co, g__03517624_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517598_37);
+coraCall0(co, g__03517624_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517598_37);
+coraCall0(co, g__03517624_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517598_37);
+coraCall0(co, g__03517624_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518202_37= co->res;
-Obj _3518194_37 = R[1];
-Obj _3518203_37 = makeCons(co->gc, _3518194_37, _3518202_37);
-coraReturn(co, _3518203_37);
+Obj g__03518228_037= co->res;
+Obj g__03518220_037 = R[1];
+Obj g__03518229_037 = makeCons(co->gc, g__03518220_037, g__03518228_037);
+coraReturn(co, g__03518229_037);
 return;
 }
 case 2:
 {
-Obj _3518195_37= co->res;
-Obj _3517633_37 = R[1];
-Obj _3517634_37 = R[2];
-Obj _3518194_37 = R[3];
-Obj _3518196_37 = makeCons(co->gc, _3517633_37, Nil);
-Obj _3518197_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3518196_37);
-Obj _3518198_37 = makeCons(co->gc, _3517634_37, Nil);
-Obj _3518199_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3518198_37);
-Obj _3518200_37 = makeCons(co->gc, _3518199_37, Nil);
-Obj _3518201_37 = makeCons(co->gc, _3518197_37, _3518200_37);
-R[1] = _3518194_37;
+Obj g__03518221_037= co->res;
+Obj g__03517659_037 = R[1];
+Obj g__03517660_037 = R[2];
+Obj g__03518220_037 = R[3];
+Obj g__03518222_037 = makeCons(co->gc, g__03517659_037, Nil);
+Obj g__03518223_037 = makeCons(co->gc, getBinding(co, packageID, 86).name, g__03518222_037);
+Obj g__03518224_037 = makeCons(co->gc, g__03517660_037, Nil);
+Obj g__03518225_037 = makeCons(co->gc, getBinding(co, packageID, 86).name, g__03518224_037);
+Obj g__03518226_037 = makeCons(co->gc, g__03518225_037, Nil);
+Obj g__03518227_037 = makeCons(co->gc, g__03518223_037, g__03518226_037);
+R[1] = g__03518220_037;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518195_37, _3518201_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518221_037, g__03518227_037);
 return;
 }
 }
@@ -7876,43 +7913,43 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517599_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518166_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518166_37) {
-Obj _3518167_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518168_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518167_37);
-if (True == _3518168_37) {
-Obj _3518169_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518170_37 = PRIM_ISCONS(_3518169_37);
-if (True == _3518170_37) {
-Obj _3518171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518172_37 = PRIM_CAR(_3518171_37);
-Obj _3517632_37 = _3518172_37;
-Obj _3518173_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518174_37 = PRIM_CDR(_3518173_37);
-Obj _3518175_37 = PRIM_EQ(Nil, _3518174_37);
-if (True == _3518175_37) {
+Obj g__03517625_037 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518192_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518192_037) {
+Obj g__03518193_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518194_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518193_037);
+if (True == g__03518194_037) {
+Obj g__03518195_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518196_037 = PRIM_ISCONS(g__03518195_037);
+if (True == g__03518196_037) {
+Obj g__03518197_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518198_037 = PRIM_CAR(g__03518197_037);
+Obj g__03517658_037 = g__03518198_037;
+Obj g__03518199_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518200_037 = PRIM_CDR(g__03518199_037);
+Obj g__03518201_037 = PRIM_EQ(Nil, g__03518200_037);
+if (True == g__03518201_037) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517632_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517658_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517599_37);
+coraCall0(co, g__03517625_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517599_37);
+coraCall0(co, g__03517625_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517599_37);
+coraCall0(co, g__03517625_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517599_37);
+coraCall0(co, g__03517625_037);
 return;
 }
 }
@@ -7923,129 +7960,129 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517984_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3517984_37) {
+Obj g__03518010_037 = primIsSymbol(closureRef(R[0], 0));
+if (True == g__03518010_037) {
 saveCont(co, clofun20, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj _3517601_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518142_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518142_37) {
-Obj _3518143_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518144_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518143_37);
-if (True == _3518144_37) {
-Obj _3518145_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518146_37 = PRIM_ISCONS(_3518145_37);
-if (True == _3518146_37) {
-Obj _3518147_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518148_37 = PRIM_CAR(_3518147_37);
-Obj _3517630_37 = _3518148_37;
-Obj _3518149_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518150_37 = PRIM_CDR(_3518149_37);
-Obj _3518151_37 = PRIM_ISCONS(_3518150_37);
-if (True == _3518151_37) {
-Obj _3518152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518153_37 = PRIM_CDR(_3518152_37);
-Obj _3518154_37 = PRIM_CAR(_3518153_37);
-Obj _3517631_37 = _3518154_37;
-Obj _3518155_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518156_37 = PRIM_CDR(_3518155_37);
-Obj _3518157_37 = PRIM_CDR(_3518156_37);
-Obj _3518158_37 = PRIM_EQ(Nil, _3518157_37);
-if (True == _3518158_37) {
-R[1] = _3517631_37;
-R[2] = _3517630_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj g__03517627_037 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518168_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518168_037) {
+Obj g__03518169_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518170_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518169_037);
+if (True == g__03518170_037) {
+Obj g__03518171_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518172_037 = PRIM_ISCONS(g__03518171_037);
+if (True == g__03518172_037) {
+Obj g__03518173_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518174_037 = PRIM_CAR(g__03518173_037);
+Obj g__03517656_037 = g__03518174_037;
+Obj g__03518175_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518176_037 = PRIM_CDR(g__03518175_037);
+Obj g__03518177_037 = PRIM_ISCONS(g__03518176_037);
+if (True == g__03518177_037) {
+Obj g__03518178_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518179_037 = PRIM_CDR(g__03518178_037);
+Obj g__03518180_037 = PRIM_CAR(g__03518179_037);
+Obj g__03517657_037 = g__03518180_037;
+Obj g__03518181_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518182_037 = PRIM_CDR(g__03518181_037);
+Obj g__03518183_037 = PRIM_CDR(g__03518182_037);
+Obj g__03518184_037 = PRIM_EQ(Nil, g__03518183_037);
+if (True == g__03518184_037) {
+R[1] = g__03517657_037;
+R[2] = g__03517656_037;
 saveCont(co, clofun20, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), _3517630_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun19, 1, 0), g__03517656_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517601_37);
+coraCall0(co, g__03517627_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517601_37);
+coraCall0(co, g__03517627_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517601_37);
+coraCall0(co, g__03517627_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517601_37);
+coraCall0(co, g__03517627_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517601_37);
+coraCall0(co, g__03517627_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517987_37= co->res;
-Obj _3517988_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517989_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, _3517988_37);
-coraReturn(co, _3517989_37);
+Obj g__03518013_037= co->res;
+Obj g__03518014_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03518015_037 = makeCons(co->gc, getBinding(co, packageID, 95).name, g__03518014_037);
+coraReturn(co, g__03518015_037);
 return;
 }
 case 2:
 {
-Obj _3517986_37= co->res;
-Obj _3517600_37 = R[1];
-if (True == _3517986_37) {
+Obj g__03518012_037= co->res;
+Obj g__03517626_037 = R[1];
+if (True == g__03518012_037) {
 saveCont(co, clofun20, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-Obj _3517990_37 = PRIM_CDR(_3517600_37);
-coraReturn(co, _3517990_37);
+Obj g__03518016_037 = PRIM_CDR(g__03517626_037);
+coraReturn(co, g__03518016_037);
 return;
 }
 }
 case 3:
 {
-Obj _3517985_37= co->res;
-Obj _3517600_37 = _3517985_37;
-R[1] = _3517600_37;
+Obj g__03518011_037= co->res;
+Obj g__03517626_037 = g__03518011_037;
+R[1] = g__03517626_037;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517600_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517626_037);
 return;
 }
 case 4:
 {
-Obj _3518162_37= co->res;
-Obj _3517630_37 = R[1];
-Obj _3518163_37 = makeCons(co->gc, _3518162_37, Nil);
-Obj _3518164_37 = makeCons(co->gc, _3517630_37, _3518163_37);
-Obj _3518165_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518164_37);
-coraReturn(co, _3518165_37);
+Obj g__03518188_037= co->res;
+Obj g__03517656_037 = R[1];
+Obj g__03518189_037 = makeCons(co->gc, g__03518188_037, Nil);
+Obj g__03518190_037 = makeCons(co->gc, g__03517656_037, g__03518189_037);
+Obj g__03518191_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518190_037);
+coraReturn(co, g__03518191_037);
 return;
 }
 case 5:
 {
-Obj _3518161_37= co->res;
-Obj _3517631_37 = R[1];
-Obj _3517630_37 = R[2];
-R[1] = _3517630_37;
+Obj g__03518187_037= co->res;
+Obj g__03517657_037 = R[1];
+Obj g__03517656_037 = R[2];
+R[1] = g__03517656_037;
 saveCont(co, clofun20, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3518161_37, closureRef(R[0], 2), _3517631_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), g__03518187_037, closureRef(R[0], 2), g__03517657_037);
 return;
 }
 case 6:
 {
-Obj _3518160_37= co->res;
-Obj _3517631_37 = R[1];
-Obj _3517630_37 = R[2];
-R[1] = _3517631_37;
-R[2] = _3517630_37;
+Obj g__03518186_037= co->res;
+Obj g__03517657_037 = R[1];
+Obj g__03517656_037 = R[2];
+R[1] = g__03517657_037;
+R[2] = g__03517656_037;
 saveCont(co, clofun20, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3518160_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), g__03518186_037, closureRef(R[0], 1));
 return;
 }
 }
@@ -8055,9 +8092,9 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3518159_37 = makeCons(co->gc, x, x);
-coraReturn(co, _3518159_37);
+Obj v_x = R[1];
+Obj g__03518185_037 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, g__03518185_037);
 return;
 }
 }
@@ -8067,74 +8104,74 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517602_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518110_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518110_37) {
-Obj _3518111_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518112_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518111_37);
-if (True == _3518112_37) {
-Obj _3518113_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518114_37 = PRIM_ISCONS(_3518113_37);
-if (True == _3518114_37) {
-Obj _3518115_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518116_37 = PRIM_CAR(_3518115_37);
-Obj _3518117_37 = PRIM_ISCONS(_3518116_37);
-if (True == _3518117_37) {
-Obj _3518118_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518119_37 = PRIM_CAR(_3518118_37);
-Obj _3518120_37 = PRIM_CAR(_3518119_37);
-Obj _3518121_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518120_37);
-if (True == _3518121_37) {
-Obj _3518122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518123_37 = PRIM_CAR(_3518122_37);
-Obj _3518124_37 = PRIM_CDR(_3518123_37);
-Obj _3517626_37 = _3518124_37;
-Obj _3518125_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518126_37 = PRIM_CDR(_3518125_37);
-Obj _3517627_37 = _3518126_37;
-Obj _3518127_37 = primGenSym(co);
-Obj _3517628_37 = _3518127_37;
-Obj _3518128_37 = primGenSym(co);
-Obj _3517629_37 = _3518128_37;
-Obj _3518129_37 = makeCons(co->gc, _3517629_37, Nil);
-Obj _3518130_37 = makeCons(co->gc, _3517629_37, _3517627_37);
-Obj _3518131_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518130_37);
-Obj _3518132_37 = makeCons(co->gc, _3518131_37, Nil);
-Obj _3518133_37 = makeCons(co->gc, _3518129_37, _3518132_37);
-Obj _3518134_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518133_37);
-Obj _3518135_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517626_37);
-Obj _3518136_37 = makeCons(co->gc, _3518135_37, Nil);
-Obj _3518137_37 = makeCons(co->gc, _3517628_37, _3518136_37);
-Obj _3518138_37 = makeCons(co->gc, _3518137_37, Nil);
-Obj _3518139_37 = makeCons(co->gc, _3518134_37, _3518138_37);
-Obj _3518140_37 = makeCons(co->gc, _3517628_37, _3518139_37);
-Obj _3518141_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518140_37);
+Obj g__03517628_037 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518136_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518136_037) {
+Obj g__03518137_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518138_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518137_037);
+if (True == g__03518138_037) {
+Obj g__03518139_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518140_037 = PRIM_ISCONS(g__03518139_037);
+if (True == g__03518140_037) {
+Obj g__03518141_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518142_037 = PRIM_CAR(g__03518141_037);
+Obj g__03518143_037 = PRIM_ISCONS(g__03518142_037);
+if (True == g__03518143_037) {
+Obj g__03518144_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518145_037 = PRIM_CAR(g__03518144_037);
+Obj g__03518146_037 = PRIM_CAR(g__03518145_037);
+Obj g__03518147_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518146_037);
+if (True == g__03518147_037) {
+Obj g__03518148_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518149_037 = PRIM_CAR(g__03518148_037);
+Obj g__03518150_037 = PRIM_CDR(g__03518149_037);
+Obj g__03517652_037 = g__03518150_037;
+Obj g__03518151_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518152_037 = PRIM_CDR(g__03518151_037);
+Obj g__03517653_037 = g__03518152_037;
+Obj g__03518153_037 = primGenSym(co);
+Obj g__03517654_037 = g__03518153_037;
+Obj g__03518154_037 = primGenSym(co);
+Obj g__03517655_037 = g__03518154_037;
+Obj g__03518155_037 = makeCons(co->gc, g__03517655_037, Nil);
+Obj g__03518156_037 = makeCons(co->gc, g__03517655_037, g__03517653_037);
+Obj g__03518157_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518156_037);
+Obj g__03518158_037 = makeCons(co->gc, g__03518157_037, Nil);
+Obj g__03518159_037 = makeCons(co->gc, g__03518155_037, g__03518158_037);
+Obj g__03518160_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518159_037);
+Obj g__03518161_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03517652_037);
+Obj g__03518162_037 = makeCons(co->gc, g__03518161_037, Nil);
+Obj g__03518163_037 = makeCons(co->gc, g__03517654_037, g__03518162_037);
+Obj g__03518164_037 = makeCons(co->gc, g__03518163_037, Nil);
+Obj g__03518165_037 = makeCons(co->gc, g__03518160_037, g__03518164_037);
+Obj g__03518166_037 = makeCons(co->gc, g__03517654_037, g__03518165_037);
+Obj g__03518167_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518166_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3518141_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03518167_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517602_37);
+coraCall0(co, g__03517628_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517602_37);
+coraCall0(co, g__03517628_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517602_37);
+coraCall0(co, g__03517628_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517602_37);
+coraCall0(co, g__03517628_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517602_37);
+coraCall0(co, g__03517628_037);
 return;
 }
 }
@@ -8145,42 +8182,42 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517603_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518103_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518103_37) {
-Obj _3518104_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518105_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518104_37);
-if (True == _3518105_37) {
-Obj _3518106_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = _3518106_37;
-R[1] = _3517625_37;
+Obj g__03517629_037 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518129_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518129_037) {
+Obj g__03518130_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518131_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518130_037);
+if (True == g__03518131_037) {
+Obj g__03518132_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517651_037 = g__03518132_037;
+R[1] = g__03517651_037;
 saveCont(co, clofun17, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517603_37);
+coraCall0(co, g__03517629_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517603_37);
+coraCall0(co, g__03517629_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518108_37= co->res;
-Obj _3518109_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518108_37);
-coraReturn(co, _3518109_37);
+Obj g__03518134_037= co->res;
+Obj g__03518135_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518134_037);
+coraReturn(co, g__03518135_037);
 return;
 }
 case 2:
 {
-Obj _3518107_37= co->res;
-Obj _3517625_37 = R[1];
+Obj g__03518133_037= co->res;
+Obj g__03517651_037 = R[1];
 saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518107_37, _3517625_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518133_037, g__03517651_037);
 return;
 }
 }
@@ -8190,78 +8227,78 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517604_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518081_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518081_37) {
-Obj _3518082_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518083_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518082_37);
-if (True == _3518083_37) {
-Obj _3518084_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518085_37 = PRIM_ISCONS(_3518084_37);
-if (True == _3518085_37) {
-Obj _3518086_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518087_37 = PRIM_CAR(_3518086_37);
-Obj _3517623_37 = _3518087_37;
-Obj _3518088_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518089_37 = PRIM_CDR(_3518088_37);
-Obj _3518090_37 = PRIM_ISCONS(_3518089_37);
-if (True == _3518090_37) {
-Obj _3518091_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518092_37 = PRIM_CDR(_3518091_37);
-Obj _3518093_37 = PRIM_CAR(_3518092_37);
-Obj _3517624_37 = _3518093_37;
-Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518095_37 = PRIM_CDR(_3518094_37);
-Obj _3518096_37 = PRIM_CDR(_3518095_37);
-Obj _3518097_37 = PRIM_EQ(Nil, _3518096_37);
-if (True == _3518097_37) {
-R[1] = _3517624_37;
+Obj g__03517630_037 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518107_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518107_037) {
+Obj g__03518108_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518109_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518108_037);
+if (True == g__03518109_037) {
+Obj g__03518110_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518111_037 = PRIM_ISCONS(g__03518110_037);
+if (True == g__03518111_037) {
+Obj g__03518112_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518113_037 = PRIM_CAR(g__03518112_037);
+Obj g__03517649_037 = g__03518113_037;
+Obj g__03518114_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518115_037 = PRIM_CDR(g__03518114_037);
+Obj g__03518116_037 = PRIM_ISCONS(g__03518115_037);
+if (True == g__03518116_037) {
+Obj g__03518117_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518118_037 = PRIM_CDR(g__03518117_037);
+Obj g__03518119_037 = PRIM_CAR(g__03518118_037);
+Obj g__03517650_037 = g__03518119_037;
+Obj g__03518120_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518121_037 = PRIM_CDR(g__03518120_037);
+Obj g__03518122_037 = PRIM_CDR(g__03518121_037);
+Obj g__03518123_037 = PRIM_EQ(Nil, g__03518122_037);
+if (True == g__03518123_037) {
+R[1] = g__03517650_037;
 saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517623_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517649_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517604_37);
+coraCall0(co, g__03517630_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517604_37);
+coraCall0(co, g__03517630_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517604_37);
+coraCall0(co, g__03517630_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517604_37);
+coraCall0(co, g__03517630_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517604_37);
+coraCall0(co, g__03517630_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518099_37= co->res;
-Obj _3518098_37 = R[1];
-Obj _3518100_37 = makeCons(co->gc, _3518099_37, Nil);
-Obj _3518101_37 = makeCons(co->gc, _3518098_37, _3518100_37);
-Obj _3518102_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3518101_37);
-coraReturn(co, _3518102_37);
+Obj g__03518125_037= co->res;
+Obj g__03518124_037 = R[1];
+Obj g__03518126_037 = makeCons(co->gc, g__03518125_037, Nil);
+Obj g__03518127_037 = makeCons(co->gc, g__03518124_037, g__03518126_037);
+Obj g__03518128_037 = makeCons(co->gc, getBinding(co, packageID, 87).name, g__03518127_037);
+coraReturn(co, g__03518128_037);
 return;
 }
 case 2:
 {
-Obj _3518098_37= co->res;
-Obj _3517624_37 = R[1];
-R[1] = _3518098_37;
+Obj g__03518124_037= co->res;
+Obj g__03517650_037 = R[1];
+R[1] = g__03518124_037;
 saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517624_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517650_037);
 return;
 }
 }
@@ -8271,105 +8308,105 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517605_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518046_37) {
-Obj _3518047_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518048_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518047_37);
-if (True == _3518048_37) {
-Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518050_37 = PRIM_ISCONS(_3518049_37);
-if (True == _3518050_37) {
-Obj _3518051_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj _3517619_37 = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_ISCONS(_3518054_37);
-if (True == _3518055_37) {
-Obj _3518056_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518057_37 = PRIM_CDR(_3518056_37);
-Obj _3518058_37 = PRIM_CAR(_3518057_37);
-Obj _3517620_37 = _3518058_37;
-Obj _3518059_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518060_37 = PRIM_CDR(_3518059_37);
-Obj _3518061_37 = PRIM_CDR(_3518060_37);
-Obj _3518062_37 = PRIM_ISCONS(_3518061_37);
-if (True == _3518062_37) {
-Obj _3518063_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518064_37 = PRIM_CDR(_3518063_37);
-Obj _3518065_37 = PRIM_CDR(_3518064_37);
-Obj _3518066_37 = PRIM_CAR(_3518065_37);
-Obj _3517621_37 = _3518066_37;
-Obj _3518067_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518068_37 = PRIM_CDR(_3518067_37);
-Obj _3518069_37 = PRIM_CDR(_3518068_37);
-Obj _3518070_37 = PRIM_CDR(_3518069_37);
-Obj _3518071_37 = PRIM_EQ(Nil, _3518070_37);
-if (True == _3518071_37) {
-Obj _3518072_37 = primGenSym(co);
-Obj _3517622_37 = _3518072_37;
-R[1] = _3517619_37;
-R[2] = _3517621_37;
-R[3] = _3517622_37;
+Obj g__03517631_037 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518072_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518072_037) {
+Obj g__03518073_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518074_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518073_037);
+if (True == g__03518074_037) {
+Obj g__03518075_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518076_037 = PRIM_ISCONS(g__03518075_037);
+if (True == g__03518076_037) {
+Obj g__03518077_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518078_037 = PRIM_CAR(g__03518077_037);
+Obj g__03517645_037 = g__03518078_037;
+Obj g__03518079_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518080_037 = PRIM_CDR(g__03518079_037);
+Obj g__03518081_037 = PRIM_ISCONS(g__03518080_037);
+if (True == g__03518081_037) {
+Obj g__03518082_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518083_037 = PRIM_CDR(g__03518082_037);
+Obj g__03518084_037 = PRIM_CAR(g__03518083_037);
+Obj g__03517646_037 = g__03518084_037;
+Obj g__03518085_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518086_037 = PRIM_CDR(g__03518085_037);
+Obj g__03518087_037 = PRIM_CDR(g__03518086_037);
+Obj g__03518088_037 = PRIM_ISCONS(g__03518087_037);
+if (True == g__03518088_037) {
+Obj g__03518089_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518090_037 = PRIM_CDR(g__03518089_037);
+Obj g__03518091_037 = PRIM_CDR(g__03518090_037);
+Obj g__03518092_037 = PRIM_CAR(g__03518091_037);
+Obj g__03517647_037 = g__03518092_037;
+Obj g__03518093_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518094_037 = PRIM_CDR(g__03518093_037);
+Obj g__03518095_037 = PRIM_CDR(g__03518094_037);
+Obj g__03518096_037 = PRIM_CDR(g__03518095_037);
+Obj g__03518097_037 = PRIM_EQ(Nil, g__03518096_037);
+if (True == g__03518097_037) {
+Obj g__03518098_037 = primGenSym(co);
+Obj g__03517648_037 = g__03518098_037;
+R[1] = g__03517645_037;
+R[2] = g__03517647_037;
+R[3] = g__03517648_037;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517620_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517646_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517605_37);
+coraCall0(co, g__03517631_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517605_37);
+coraCall0(co, g__03517631_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517605_37);
+coraCall0(co, g__03517631_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517605_37);
+coraCall0(co, g__03517631_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517605_37);
+coraCall0(co, g__03517631_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517605_37);
+coraCall0(co, g__03517631_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518076_37= co->res;
-Obj _3518073_37 = R[1];
-Obj _3517622_37 = R[2];
-Obj _3518077_37 = makeCons(co->gc, _3518076_37, Nil);
-Obj _3518078_37 = makeCons(co->gc, _3518073_37, _3518077_37);
-Obj _3518079_37 = makeCons(co->gc, _3517622_37, _3518078_37);
-Obj _3518080_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518079_37);
-coraReturn(co, _3518080_37);
+Obj g__03518102_037= co->res;
+Obj g__03518099_037 = R[1];
+Obj g__03517648_037 = R[2];
+Obj g__03518103_037 = makeCons(co->gc, g__03518102_037, Nil);
+Obj g__03518104_037 = makeCons(co->gc, g__03518099_037, g__03518103_037);
+Obj g__03518105_037 = makeCons(co->gc, g__03517648_037, g__03518104_037);
+Obj g__03518106_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518105_037);
+coraReturn(co, g__03518106_037);
 return;
 }
 case 2:
 {
-Obj _3518073_37= co->res;
-Obj _3517619_37 = R[1];
-Obj _3517621_37 = R[2];
-Obj _3517622_37 = R[3];
-Obj _3518074_37 = makeCons(co->gc, _3517619_37, _3517622_37);
-Obj _3518075_37 = makeCons(co->gc, _3518074_37, closureRef(R[0], 1));
-R[1] = _3518073_37;
-R[2] = _3517622_37;
+Obj g__03518099_037= co->res;
+Obj g__03517645_037 = R[1];
+Obj g__03517647_037 = R[2];
+Obj g__03517648_037 = R[3];
+Obj g__03518100_037 = makeCons(co->gc, g__03517645_037, g__03517648_037);
+Obj g__03518101_037 = makeCons(co->gc, g__03518100_037, closureRef(R[0], 1));
+R[1] = g__03518099_037;
+R[2] = g__03517648_037;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3518075_37, closureRef(R[0], 2), _3517621_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), g__03518101_037, closureRef(R[0], 2), g__03517647_037);
 return;
 }
 }
@@ -8379,85 +8416,85 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517606_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
-Obj _3518014_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518014_37) {
-Obj _3518015_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518016_37 = PRIM_ISCONS(_3518015_37);
-if (True == _3518016_37) {
-Obj _3518017_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518018_37 = PRIM_CAR(_3518017_37);
-Obj _3518019_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518018_37);
-if (True == _3518019_37) {
-Obj _3518020_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518021_37 = PRIM_CDR(_3518020_37);
-Obj _3517616_37 = _3518021_37;
-Obj _3518022_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518023_37 = PRIM_ISCONS(_3518022_37);
-if (True == _3518023_37) {
-Obj _3518024_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518025_37 = PRIM_CAR(_3518024_37);
-Obj _3518026_37 = PRIM_ISCONS(_3518025_37);
-if (True == _3518026_37) {
-Obj _3518027_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518028_37 = PRIM_CAR(_3518027_37);
-Obj _3518029_37 = PRIM_CAR(_3518028_37);
-Obj _3518030_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518029_37);
-if (True == _3518030_37) {
-Obj _3518031_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518032_37 = PRIM_CAR(_3518031_37);
-Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3517617_37 = _3518033_37;
-Obj _3518034_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518035_37 = PRIM_CDR(_3518034_37);
-Obj _3518036_37 = PRIM_EQ(Nil, _3518035_37);
-if (True == _3518036_37) {
-Obj _3518037_37 = primGenSym(co);
-Obj _3517618_37 = _3518037_37;
-Obj _3518038_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517616_37);
-Obj _3518039_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517617_37);
-Obj _3518040_37 = makeCons(co->gc, _3518039_37, Nil);
-Obj _3518041_37 = makeCons(co->gc, _3517618_37, _3518040_37);
-Obj _3518042_37 = makeCons(co->gc, _3518041_37, Nil);
-Obj _3518043_37 = makeCons(co->gc, _3518038_37, _3518042_37);
-Obj _3518044_37 = makeCons(co->gc, _3517618_37, _3518043_37);
-Obj _3518045_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518044_37);
+Obj g__03517632_037 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj g__03518040_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518040_037) {
+Obj g__03518041_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518042_037 = PRIM_ISCONS(g__03518041_037);
+if (True == g__03518042_037) {
+Obj g__03518043_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518044_037 = PRIM_CAR(g__03518043_037);
+Obj g__03518045_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518044_037);
+if (True == g__03518045_037) {
+Obj g__03518046_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518047_037 = PRIM_CDR(g__03518046_037);
+Obj g__03517642_037 = g__03518047_037;
+Obj g__03518048_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518049_037 = PRIM_ISCONS(g__03518048_037);
+if (True == g__03518049_037) {
+Obj g__03518050_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518051_037 = PRIM_CAR(g__03518050_037);
+Obj g__03518052_037 = PRIM_ISCONS(g__03518051_037);
+if (True == g__03518052_037) {
+Obj g__03518053_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518054_037 = PRIM_CAR(g__03518053_037);
+Obj g__03518055_037 = PRIM_CAR(g__03518054_037);
+Obj g__03518056_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518055_037);
+if (True == g__03518056_037) {
+Obj g__03518057_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518058_037 = PRIM_CAR(g__03518057_037);
+Obj g__03518059_037 = PRIM_CDR(g__03518058_037);
+Obj g__03517643_037 = g__03518059_037;
+Obj g__03518060_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518061_037 = PRIM_CDR(g__03518060_037);
+Obj g__03518062_037 = PRIM_EQ(Nil, g__03518061_037);
+if (True == g__03518062_037) {
+Obj g__03518063_037 = primGenSym(co);
+Obj g__03517644_037 = g__03518063_037;
+Obj g__03518064_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03517642_037);
+Obj g__03518065_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03517643_037);
+Obj g__03518066_037 = makeCons(co->gc, g__03518065_037, Nil);
+Obj g__03518067_037 = makeCons(co->gc, g__03517644_037, g__03518066_037);
+Obj g__03518068_037 = makeCons(co->gc, g__03518067_037, Nil);
+Obj g__03518069_037 = makeCons(co->gc, g__03518064_037, g__03518068_037);
+Obj g__03518070_037 = makeCons(co->gc, g__03517644_037, g__03518069_037);
+Obj g__03518071_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518070_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3518045_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03518071_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517606_37);
+coraCall0(co, g__03517632_037);
 return;
 }
 }
@@ -8468,61 +8505,61 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517607_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3517992_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517992_37) {
-Obj _3517993_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517608_37 = _3517993_37;
-Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517609_37 = _3517994_37;
-Obj _3517612_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), _3517608_37, _3517609_37, _3517607_37);
-R[1] = _3517608_37;
-R[2] = _3517612_37;
+Obj g__03517633_037 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj g__03518018_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518018_037) {
+Obj g__03518019_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517634_037 = g__03518019_037;
+Obj g__03518020_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517635_037 = g__03518020_037;
+Obj g__03517638_037 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), g__03517634_037, g__03517635_037, g__03517633_037);
+R[1] = g__03517634_037;
+R[2] = g__03517638_037;
 saveCont(co, clofun13, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3517608_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), g__03517634_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517607_37);
+coraCall0(co, g__03517633_037);
 return;
 }
 }
 case 1:
 {
-Obj _3518013_37= co->res;
-Obj _3517612_37 = R[1];
-if (True == _3518013_37) {
+Obj g__03518039_037= co->res;
+Obj g__03517638_037 = R[1];
+if (True == g__03518039_037) {
 co->ctx.sp = R;
-coraCall1(co, _3517612_37, True);
+coraCall1(co, g__03517638_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517612_37, False);
+coraCall1(co, g__03517638_037, False);
 return;
 }
 }
 case 2:
 {
-Obj _3518012_37= co->res;
-Obj _3517612_37 = R[1];
-R[1] = _3517612_37;
+Obj g__03518038_037= co->res;
+Obj g__03517638_037 = R[1];
+R[1] = g__03517638_037;
 saveCont(co, clofun13, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3518012_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03518038_037);
 return;
 }
 case 3:
 {
-Obj _3518011_37= co->res;
-Obj _3517608_37 = R[1];
-Obj _3517612_37 = R[2];
-if (True == _3518011_37) {
-R[1] = _3517612_37;
+Obj g__03518037_037= co->res;
+Obj g__03517634_037 = R[1];
+Obj g__03517638_037 = R[2];
+if (True == g__03518037_037) {
+R[1] = g__03517638_037;
 saveCont(co, clofun13, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), _3517608_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), g__03517634_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517612_37, False);
+coraCall1(co, g__03517638_037, False);
 return;
 }
 }
@@ -8533,10 +8570,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517611_37 = R[1];
-if (True == _3517611_37) {
+Obj g__03517637_037 = R[1];
+if (True == g__03517637_037) {
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -8546,76 +8583,76 @@ return;
 }
 case 1:
 {
-Obj _3518001_37= co->res;
-Obj _3517999_37 = R[1];
-Obj _3518002_37 = makeCons(co->gc, _3517999_37, _3518001_37);
-coraReturn(co, _3518002_37);
+Obj g__03518027_037= co->res;
+Obj g__03518025_037 = R[1];
+Obj g__03518028_037 = makeCons(co->gc, g__03518025_037, g__03518027_037);
+coraReturn(co, g__03518028_037);
 return;
 }
 case 2:
 {
-Obj _3518000_37= co->res;
-Obj _3517999_37 = R[1];
-R[1] = _3517999_37;
+Obj g__03518026_037= co->res;
+Obj g__03518025_037 = R[1];
+R[1] = g__03518025_037;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518000_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518026_037, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj _3518007_37= co->res;
-Obj _3517615_37 = R[1];
-Obj _3518008_37 = makeCons(co->gc, _3518007_37, Nil);
-Obj _3518009_37 = makeCons(co->gc, _3517615_37, _3518008_37);
-Obj _3518010_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518009_37);
+Obj g__03518033_037= co->res;
+Obj g__03517641_037 = R[1];
+Obj g__03518034_037 = makeCons(co->gc, g__03518033_037, Nil);
+Obj g__03518035_037 = makeCons(co->gc, g__03517641_037, g__03518034_037);
+Obj g__03518036_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518035_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), _3518010_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1), g__03518036_037);
 return;
 }
 case 4:
 {
-Obj _3518005_37= co->res;
-Obj _3517615_37 = _3518005_37;
-Obj _3518006_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
-R[1] = _3517615_37;
+Obj g__03518031_037= co->res;
+Obj g__03517641_037 = g__03518031_037;
+Obj g__03518032_037 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
+R[1] = g__03517641_037;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3518006_37, _3517615_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), g__03518032_037, g__03517641_037);
 return;
 }
 case 5:
 {
-Obj _3517996_37= co->res;
-Obj _3517613_37 = R[1];
-Obj _3517614_37 = _3517996_37;
-Obj _3517997_37 = PRIM_EQ(_3517613_37, _3517614_37);
-if (True == _3517997_37) {
-Obj _3517998_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3517999_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517998_37);
-R[1] = _3517999_37;
+Obj g__03518022_037= co->res;
+Obj g__03517639_037 = R[1];
+Obj g__03517640_037 = g__03518022_037;
+Obj g__03518023_037 = PRIM_EQ(g__03517639_037, g__03517640_037);
+if (True == g__03518023_037) {
+Obj g__03518024_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03518025_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03518024_037);
+R[1] = g__03518025_037;
 saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3518003_37 = PRIM_GT(_3517613_37, _3517614_37);
-if (True == _3518003_37) {
-Obj _3518004_37 = PRIM_SUB(_3517613_37, _3517614_37);
+Obj g__03518029_037 = PRIM_GT(g__03517639_037, g__03517640_037);
+if (True == g__03518029_037) {
+Obj g__03518030_037 = PRIM_SUB(g__03517639_037, g__03517640_037);
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3518004_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), g__03518030_037, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "primitive call mismatch", 23));
 return;
 }
 }
 }
 case 6:
 {
-Obj _3517995_37= co->res;
-Obj _3517613_37 = _3517995_37;
-R[1] = _3517613_37;
+Obj g__03518021_037= co->res;
+Obj g__03517639_037 = g__03518021_037;
+R[1] = g__03517639_037;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), closureRef(R[0], 3));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3));
 return;
 }
 }
@@ -8626,14 +8663,14 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj _3517991_37= co->res;
+Obj g__03518017_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517991_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518017_037, closureRef(R[0], 2));
 return;
 }
 }
@@ -8643,18 +8680,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517431_37 = R[1];
-Obj _3517432_37 = R[2];
-Obj _3517977_37 = PRIM_EQ(MAKE_NUMBER(0), _3517431_37);
-if (True == _3517977_37) {
-coraReturn(co, _3517432_37);
+Obj g__03517457_037 = R[1];
+Obj g__03517458_037 = R[2];
+Obj g__03518003_037 = PRIM_EQ(MAKE_NUMBER(0), g__03517457_037);
+if (True == g__03518003_037) {
+coraReturn(co, g__03517458_037);
 return;
 } else {
-Obj _3517978_37 = PRIM_SUB(_3517431_37, MAKE_NUMBER(1));
-Obj _3517979_37 = primGenSym(co);
-Obj _3517980_37 = makeCons(co->gc, _3517979_37, _3517432_37);
+Obj g__03518004_037 = PRIM_SUB(g__03517457_037, MAKE_NUMBER(1));
+Obj g__03518005_037 = primGenSym(co);
+Obj g__03518006_037 = makeCons(co->gc, g__03518005_037, g__03517458_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517978_37, _3517980_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), g__03518004_037, g__03518006_037);
 return;
 }
 }
@@ -8665,31 +8702,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj _3517975_37= co->res;
-Obj _3517593_37 = R[1];
-if (True == _3517975_37) {
-coraReturn(co, makeCString(co->gc, "ERROR"));
+Obj g__03518001_037= co->res;
+Obj g__03517619_037 = R[1];
+if (True == g__03518001_037) {
+coraReturn(co, makeString(co->gc, "ERROR", 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517593_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), g__03517619_037);
 return;
 }
 }
 case 2:
 {
-Obj _3517974_37= co->res;
-Obj _3517593_37 = _3517974_37;
-R[1] = _3517593_37;
+Obj g__03518000_037= co->res;
+Obj g__03517619_037 = g__03518000_037;
+R[1] = g__03517619_037;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517593_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517619_037);
 return;
 }
 }
@@ -8699,31 +8736,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj _3517972_37= co->res;
-Obj _3517592_37 = R[1];
-if (True == _3517972_37) {
-coraReturn(co, makeCString(co->gc, "ERROR"));
+Obj g__03517998_037= co->res;
+Obj g__03517618_037 = R[1];
+if (True == g__03517998_037) {
+coraReturn(co, makeString(co->gc, "ERROR", 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517592_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), g__03517618_037);
 return;
 }
 }
 case 2:
 {
-Obj _3517971_37= co->res;
-Obj _3517592_37 = _3517971_37;
-R[1] = _3517592_37;
+Obj g__03517997_037= co->res;
+Obj g__03517618_037 = g__03517997_037;
+R[1] = g__03517618_037;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517592_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517618_037);
 return;
 }
 }
@@ -8733,23 +8770,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v_x, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj _3517968_37= co->res;
-Obj _3517969_37 = primNot(_3517968_37);
-coraReturn(co, _3517969_37);
+Obj g__03517994_037= co->res;
+Obj g__03517995_037 = primNot(g__03517994_037);
+coraReturn(co, g__03517995_037);
 return;
 }
 case 2:
 {
-Obj _3517967_37= co->res;
+Obj g__03517993_037= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517967_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517993_037);
 return;
 }
 }
@@ -8759,40 +8796,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517427_37 = R[1];
-Obj _3517428_37 = R[2];
-Obj _3517891_37 = PRIM_EQ(Nil, _3517428_37);
-if (True == _3517891_37) {
+Obj g__03517453_037 = R[1];
+Obj g__03517454_037 = R[2];
+Obj g__03517917_037 = PRIM_EQ(Nil, g__03517454_037);
+if (True == g__03517917_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3517892_37 = PRIM_ISCONS(_3517428_37);
-if (True == _3517892_37) {
-Obj _3517893_37 = PRIM_CAR(_3517428_37);
-Obj _3517590_37 = _3517893_37;
-Obj _3517894_37 = PRIM_CDR(_3517428_37);
-Obj _3517591_37 = _3517894_37;
-R[1] = _3517427_37;
-R[2] = _3517591_37;
+Obj g__03517918_037 = PRIM_ISCONS(g__03517454_037);
+if (True == g__03517918_037) {
+Obj g__03517919_037 = PRIM_CAR(g__03517454_037);
+Obj g__03517616_037 = g__03517919_037;
+Obj g__03517920_037 = PRIM_CDR(g__03517454_037);
+Obj g__03517617_037 = g__03517920_037;
+R[1] = g__03517453_037;
+R[2] = g__03517617_037;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517427_37, _3517590_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517453_037, g__03517616_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517895_37= co->res;
-Obj _3517427_37 = R[1];
-Obj _3517591_37 = R[2];
-Obj _3517896_37 = PRIM_LT(_3517895_37, MAKE_NUMBER(0));
-if (True == _3517896_37) {
+Obj g__03517921_037= co->res;
+Obj g__03517453_037 = R[1];
+Obj g__03517617_037 = R[2];
+Obj g__03517922_037 = PRIM_LT(g__03517921_037, MAKE_NUMBER(0));
+if (True == g__03517922_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3517427_37, _3517591_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), g__03517453_037, g__03517617_037);
 return;
 } else {
 coraReturn(co, True);
@@ -8806,10 +8843,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
+Obj v_x = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), x, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8819,32 +8856,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517421_37 = R[1];
-Obj _3517422_37 = R[2];
-Obj _3517423_37 = R[3];
-Obj _3517880_37 = PRIM_EQ(Nil, _3517423_37);
-if (True == _3517880_37) {
+Obj g__03517447_037 = R[1];
+Obj g__03517448_037 = R[2];
+Obj g__03517449_037 = R[3];
+Obj g__03517906_037 = PRIM_EQ(Nil, g__03517449_037);
+if (True == g__03517906_037) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517587_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3517423_37, _3517421_37, _3517422_37);
-Obj _3517885_37 = PRIM_ISCONS(_3517423_37);
-if (True == _3517885_37) {
-Obj _3517886_37 = PRIM_CAR(_3517423_37);
-Obj _3517589_37 = _3517886_37;
-Obj _3517887_37 = PRIM_CDR(_3517423_37);
-Obj _3517888_37 = PRIM_EQ(_3517422_37, _3517589_37);
-if (True == _3517888_37) {
-coraReturn(co, _3517421_37);
+Obj g__03517613_037 = makeNative(co->gc, 1, clofun3, 0, 3, g__03517449_037, g__03517447_037, g__03517448_037);
+Obj g__03517911_037 = PRIM_ISCONS(g__03517449_037);
+if (True == g__03517911_037) {
+Obj g__03517912_037 = PRIM_CAR(g__03517449_037);
+Obj g__03517615_037 = g__03517912_037;
+Obj g__03517913_037 = PRIM_CDR(g__03517449_037);
+Obj g__03517914_037 = PRIM_EQ(g__03517448_037, g__03517615_037);
+if (True == g__03517914_037) {
+coraReturn(co, g__03517447_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, g__03517613_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, g__03517613_037);
 return;
 }
 }
@@ -8856,18 +8893,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517881_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517881_37) {
-Obj _3517882_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517883_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517588_37 = _3517883_37;
-Obj _3517884_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj g__03517907_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03517907_037) {
+Obj g__03517908_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517909_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517614_037 = g__03517909_037;
+Obj g__03517910_037 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3517884_37, closureRef(R[0], 2), _3517588_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), g__03517910_037, closureRef(R[0], 2), g__03517614_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
@@ -8878,39 +8915,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517416_37 = R[1];
-Obj _3517417_37 = R[2];
-Obj _3517418_37 = R[3];
-Obj _3517874_37 = PRIM_EQ(Nil, _3517418_37);
-if (True == _3517874_37) {
-coraReturn(co, _3517417_37);
+Obj g__03517442_037 = R[1];
+Obj g__03517443_037 = R[2];
+Obj g__03517444_037 = R[3];
+Obj g__03517900_037 = PRIM_EQ(Nil, g__03517444_037);
+if (True == g__03517900_037) {
+coraReturn(co, g__03517443_037);
 return;
 } else {
-Obj _3517875_37 = PRIM_ISCONS(_3517418_37);
-if (True == _3517875_37) {
-Obj _3517876_37 = PRIM_CAR(_3517418_37);
-Obj _3517585_37 = _3517876_37;
-Obj _3517877_37 = PRIM_CDR(_3517418_37);
-Obj _3517586_37 = _3517877_37;
-R[1] = _3517416_37;
-R[2] = _3517586_37;
+Obj g__03517901_037 = PRIM_ISCONS(g__03517444_037);
+if (True == g__03517901_037) {
+Obj g__03517902_037 = PRIM_CAR(g__03517444_037);
+Obj g__03517611_037 = g__03517902_037;
+Obj g__03517903_037 = PRIM_CDR(g__03517444_037);
+Obj g__03517612_037 = g__03517903_037;
+R[1] = g__03517442_037;
+R[2] = g__03517612_037;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3517416_37, _3517417_37, _3517585_37);
+coraCall2(co, g__03517442_037, g__03517443_037, g__03517611_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517878_37= co->res;
-Obj _3517416_37 = R[1];
-Obj _3517586_37 = R[2];
+Obj g__03517904_037= co->res;
+Obj g__03517442_037 = R[1];
+Obj g__03517612_037 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3517416_37, _3517878_37, _3517586_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), g__03517442_037, g__03517904_037, g__03517612_037);
 return;
 }
 }
@@ -8920,44 +8957,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517411_37 = R[1];
-Obj _3517412_37 = R[2];
-Obj _3517859_37 = PRIM_EQ(Nil, _3517412_37);
-if (True == _3517859_37) {
+Obj g__03517437_037 = R[1];
+Obj g__03517438_037 = R[2];
+Obj g__03517885_037 = PRIM_EQ(Nil, g__03517438_037);
+if (True == g__03517885_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517581_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3517412_37, _3517411_37);
-Obj _3517863_37 = PRIM_ISCONS(_3517412_37);
-if (True == _3517863_37) {
-Obj _3517864_37 = PRIM_CAR(_3517412_37);
-Obj _3517865_37 = PRIM_ISCONS(_3517864_37);
-if (True == _3517865_37) {
-Obj _3517866_37 = PRIM_CAR(_3517412_37);
-Obj _3517867_37 = PRIM_CAR(_3517866_37);
-Obj _3517583_37 = _3517867_37;
-Obj _3517868_37 = PRIM_CAR(_3517412_37);
-Obj _3517869_37 = PRIM_CDR(_3517868_37);
-Obj _3517584_37 = _3517869_37;
-Obj _3517870_37 = PRIM_CDR(_3517412_37);
-Obj _3517871_37 = PRIM_EQ(_3517411_37, _3517583_37);
-if (True == _3517871_37) {
-Obj _3517872_37 = makeCons(co->gc, _3517583_37, _3517584_37);
-coraReturn(co, _3517872_37);
+Obj g__03517607_037 = makeNative(co->gc, 1, clofun0, 0, 2, g__03517438_037, g__03517437_037);
+Obj g__03517889_037 = PRIM_ISCONS(g__03517438_037);
+if (True == g__03517889_037) {
+Obj g__03517890_037 = PRIM_CAR(g__03517438_037);
+Obj g__03517891_037 = PRIM_ISCONS(g__03517890_037);
+if (True == g__03517891_037) {
+Obj g__03517892_037 = PRIM_CAR(g__03517438_037);
+Obj g__03517893_037 = PRIM_CAR(g__03517892_037);
+Obj g__03517609_037 = g__03517893_037;
+Obj g__03517894_037 = PRIM_CAR(g__03517438_037);
+Obj g__03517895_037 = PRIM_CDR(g__03517894_037);
+Obj g__03517610_037 = g__03517895_037;
+Obj g__03517896_037 = PRIM_CDR(g__03517438_037);
+Obj g__03517897_037 = PRIM_EQ(g__03517437_037, g__03517609_037);
+if (True == g__03517897_037) {
+Obj g__03517898_037 = makeCons(co->gc, g__03517609_037, g__03517610_037);
+coraReturn(co, g__03517898_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517581_37);
+coraCall0(co, g__03517607_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517581_37);
+coraCall0(co, g__03517607_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517581_37);
+coraCall0(co, g__03517607_037);
 return;
 }
 }
@@ -8969,17 +9006,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517860_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517860_37) {
-Obj _3517861_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517862_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517582_37 = _3517862_37;
+Obj g__03517886_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03517886_037) {
+Obj g__03517887_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517888_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517608_037 = g__03517888_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), _3517582_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), g__03517608_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "no match-help found!", 20));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 52c3903..5e8dba8 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -326,9 +326,11 @@
 							(generate-num w x)
 							(generate-str w ")")))
 					  ((string? x) (begin
-							(generate-str w "makeCString(co->gc, \"")
+							(generate-str w "makeString(co->gc, \"")
 							(generate-str w (escape-str x))
-							(generate-str w "\")")))
+							(generate-str w "\", ")
+							(generate-num w (bytes-length x))
+							(generate-str w ")")))
 					  ((= x ()) (generate-str w "Nil"))
 					  ((= x true) (generate-str w "True"))
 					  ((= x false) (generate-str w "False")))
@@ -585,7 +587,7 @@
 	       (generate-str to "__symbolTable[")
 	       (generate-num to acc)
 	       (generate-str to "] = bindSymbol(co, intern(\"")
-	       (generate-str to (symbol->string sym))
+	       (generate-str to (escape-str (symbol->string sym)))
 	       (generate-str to "\"));\n")
 	       (+ acc 1)))
 	    0 globals)
diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index b34c0a5..a574f62 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -8,7 +8,7 @@ builtinGenerateStr(struct Cora *co, int label, Obj *R) {
 	FILE *out = mustCObj(to);
 	Obj exp = R[2];
 	str s = stringStr(exp);
-	fprintf(out, "%s", s.str);
+	fwrite(s.str, 1, s.len, out);
 	coraReturn(co, Nil);
 }
 
@@ -19,9 +19,9 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 	Obj exp = R[2];
 	char s[256];
 	symbolStr(exp, s, 256);
-	if (s[0] >= '0' && s[0] <= '9') {
-		fprintf(out, "v");
-	}
+	// The prefix keeps the name apart from the keywords and names of C, and the
+	// names of generated symbols apart from the others.
+	fprintf(out, tag(exp) == TAG_SYMBOL ? "v_" : "g_");
 	for (const char *p = s; *p != 0; p++) {
 		if ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') ||
 			(*p >= '0' && *p <= '9')) {
@@ -29,7 +29,7 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 		} else if (*p == '_') {
 			fprintf(out, "__");
 		} else {
-			fprintf(out, "_%d", *p);
+			fprintf(out, "_%03d", (unsigned char)*p);
 		}
 	}
 	coraReturn(co, Nil);
@@ -70,8 +70,20 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, 't');
 			break;
+		case '\\':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, '\\');
+			break;
 		default:
-			dst = strAppend(dst, c);
+			if ((unsigned char)c < ' ') {
+				// three octal digits, whatever comes next
+				dst = strAppend(dst, '\\');
+				dst = strAppend(dst, '0');
+				dst = strAppend(dst, '0' + c / 8);
+				dst = strAppend(dst, '0' + c % 8);
+			} else {
+				dst = strAppend(dst, c);
+			}
 		};
 	}
 	Obj ret = makeString(co->gc, toCStr(dst), strLen(toStr(dst)));
-- 
2.43.0


From 2631669b92531bc8c2ca0ca82dbb46529ba9f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 18/29] fix: loaded code gets a stack frame of its own

---
 init.c        | 3161 ++++++++++-----------
 lib/toc.c     | 7481 +++++++++++++++++++++++++------------------------
 lib/toc.cora  |   10 +-
 src/runtime.c |    4 +-
 4 files changed, 5352 insertions(+), 5304 deletions(-)

diff --git a/init.c b/init.c
index 2d7429a..0068208 100644
--- a/init.c
+++ b/init.c
@@ -267,6 +267,7 @@ __symbolTable[160] = bindSymbol(co, intern("caar"));
 __symbolTable[161] = bindSymbol(co, intern("cadr"));
 __symbolTable[162] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
+stackAlloc(co, 1)[0] = Nil;
 co->ctx.fn = clofun95;
 co->ctx.label = 0;
 }
@@ -275,319 +276,319 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513286_037 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj g__03513289_037 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj g__03513292_037 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj g__03513295_037 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj g__03513298_037 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj g__03513302_037 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj g__03513307_037 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj g__03513311_037 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj g__03513319_037 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj g__03513321_037 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj g__03513326_037 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj g__03513325_037 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj g__03513328_037 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj g__03513331_037 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj g__03513334_037 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj g__03513337_037 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj g__03513341_037 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj g__03513346_037 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj g__03513350_037 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj g__03513358_037 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj g__03513360_037 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj g__03513365_037 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj g__03513807_037= co->res;
-Obj g__03513813_037 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj g__03513825_037 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj g__03513826_037 = makeCons(co->gc, makeString(co->gc, "primSet", 7), Nil);
-Obj g__03513827_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513826_037);
-Obj g__03513828_037 = makeCons(co->gc, getBinding(co, packageID, 70).name, g__03513827_037);
-Obj g__03513829_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CAR", 8), Nil);
-Obj g__03513830_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513829_037);
-Obj g__03513831_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03513830_037);
-Obj g__03513832_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CDR", 8), Nil);
-Obj g__03513833_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513832_037);
-Obj g__03513834_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03513833_037);
-Obj g__03513835_037 = makeCons(co->gc, makeString(co->gc, "makeCons", 8), Nil);
-Obj g__03513836_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513835_037);
-Obj g__03513837_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513836_037);
-Obj g__03513838_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ISCONS", 11), Nil);
-Obj g__03513839_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513838_037);
-Obj g__03513840_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03513839_037);
-Obj g__03513841_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ADD", 8), Nil);
-Obj g__03513842_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513841_037);
-Obj g__03513843_037 = makeCons(co->gc, getBinding(co, packageID, 69).name, g__03513842_037);
-Obj g__03513844_037 = makeCons(co->gc, makeString(co->gc, "PRIM_SUB", 8), Nil);
-Obj g__03513845_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513844_037);
-Obj g__03513846_037 = makeCons(co->gc, getBinding(co, packageID, 68).name, g__03513845_037);
-Obj g__03513847_037 = makeCons(co->gc, makeString(co->gc, "PRIM_MUL", 8), Nil);
-Obj g__03513848_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513847_037);
-Obj g__03513849_037 = makeCons(co->gc, getBinding(co, packageID, 67).name, g__03513848_037);
-Obj g__03513850_037 = makeCons(co->gc, makeString(co->gc, "primDiv", 7), Nil);
-Obj g__03513851_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513850_037);
-Obj g__03513852_037 = makeCons(co->gc, getBinding(co, packageID, 66).name, g__03513851_037);
-Obj g__03513853_037 = makeCons(co->gc, makeString(co->gc, "PRIM_EQ", 7), Nil);
-Obj g__03513854_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513853_037);
-Obj g__03513855_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513854_037);
-Obj g__03513856_037 = makeCons(co->gc, makeString(co->gc, "PRIM_GT", 7), Nil);
-Obj g__03513857_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513856_037);
-Obj g__03513858_037 = makeCons(co->gc, getBinding(co, packageID, 65).name, g__03513857_037);
-Obj g__03513859_037 = makeCons(co->gc, makeString(co->gc, "PRIM_LT", 7), Nil);
-Obj g__03513860_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513859_037);
-Obj g__03513861_037 = makeCons(co->gc, getBinding(co, packageID, 64).name, g__03513860_037);
-Obj g__03513862_037 = makeCons(co->gc, makeString(co->gc, "primGenSym", 10), Nil);
-Obj g__03513863_037 = makeCons(co->gc, MAKE_NUMBER(0), g__03513862_037);
-Obj g__03513864_037 = makeCons(co->gc, getBinding(co, packageID, 63).name, g__03513863_037);
-Obj g__03513865_037 = makeCons(co->gc, makeString(co->gc, "primIsSymbol", 12), Nil);
-Obj g__03513866_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513865_037);
-Obj g__03513867_037 = makeCons(co->gc, getBinding(co, packageID, 62).name, g__03513866_037);
-Obj g__03513868_037 = makeCons(co->gc, makeString(co->gc, "primNot", 7), Nil);
+Obj g__03513846_037= co->res;
+Obj g__03513852_037 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj g__03513864_037 = primSet(co, getBinding(co, packageID, 73).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj g__03513865_037 = makeCons(co->gc, makeString(co->gc, "primSet", 7), Nil);
+Obj g__03513866_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513865_037);
+Obj g__03513867_037 = makeCons(co->gc, getBinding(co, packageID, 70).name, g__03513866_037);
+Obj g__03513868_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CAR", 8), Nil);
 Obj g__03513869_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513868_037);
-Obj g__03513870_037 = makeCons(co->gc, getBinding(co, packageID, 61).name, g__03513869_037);
-Obj g__03513871_037 = makeCons(co->gc, makeString(co->gc, "primIsNumber", 12), Nil);
+Obj g__03513870_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03513869_037);
+Obj g__03513871_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CDR", 8), Nil);
 Obj g__03513872_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513871_037);
-Obj g__03513873_037 = makeCons(co->gc, getBinding(co, packageID, 60).name, g__03513872_037);
-Obj g__03513874_037 = makeCons(co->gc, makeString(co->gc, "primIsString", 12), Nil);
-Obj g__03513875_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513874_037);
-Obj g__03513876_037 = makeCons(co->gc, getBinding(co, packageID, 59).name, g__03513875_037);
-Obj g__03513877_037 = makeCons(co->gc, g__03513876_037, Nil);
-Obj g__03513878_037 = makeCons(co->gc, g__03513873_037, g__03513877_037);
-Obj g__03513879_037 = makeCons(co->gc, g__03513870_037, g__03513878_037);
-Obj g__03513880_037 = makeCons(co->gc, g__03513867_037, g__03513879_037);
-Obj g__03513881_037 = makeCons(co->gc, g__03513864_037, g__03513880_037);
-Obj g__03513882_037 = makeCons(co->gc, g__03513861_037, g__03513881_037);
-Obj g__03513883_037 = makeCons(co->gc, g__03513858_037, g__03513882_037);
-Obj g__03513884_037 = makeCons(co->gc, g__03513855_037, g__03513883_037);
-Obj g__03513885_037 = makeCons(co->gc, g__03513852_037, g__03513884_037);
-Obj g__03513886_037 = makeCons(co->gc, g__03513849_037, g__03513885_037);
-Obj g__03513887_037 = makeCons(co->gc, g__03513846_037, g__03513886_037);
-Obj g__03513888_037 = makeCons(co->gc, g__03513843_037, g__03513887_037);
-Obj g__03513889_037 = makeCons(co->gc, g__03513840_037, g__03513888_037);
-Obj g__03513890_037 = makeCons(co->gc, g__03513837_037, g__03513889_037);
-Obj g__03513891_037 = makeCons(co->gc, g__03513834_037, g__03513890_037);
-Obj g__03513892_037 = makeCons(co->gc, g__03513831_037, g__03513891_037);
-Obj g__03513893_037 = makeCons(co->gc, g__03513828_037, g__03513892_037);
-Obj g__03513894_037 = primSet(co, getBinding(co, packageID, 71).name, g__03513893_037);
-Obj g__03513909_037 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj g__03513913_037 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj g__03514091_037 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj g__03514092_037 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
-Obj g__03514093_037 = makeCons(co->gc, getBinding(co, packageID, 101).name, g__03514092_037);
-Obj g__03514094_037 = makeCons(co->gc, getBinding(co, packageID, 103).name, g__03514093_037);
-Obj g__03514095_037 = makeCons(co->gc, getBinding(co, packageID, 133).name, g__03514094_037);
-Obj g__03514096_037 = makeCons(co->gc, getBinding(co, packageID, 139).name, g__03514095_037);
-Obj g__03514097_037 = makeCons(co->gc, getBinding(co, packageID, 148).name, g__03514096_037);
-Obj g__03514098_037 = makeCons(co->gc, getBinding(co, packageID, 150).name, g__03514097_037);
-Obj g__03514099_037 = makeCons(co->gc, getBinding(co, packageID, 77).name, g__03514098_037);
-Obj g__03514100_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03514099_037);
-Obj g__03514101_037 = makeCons(co->gc, getBinding(co, packageID, 41).name, g__03514100_037);
-Obj g__03514102_037 = makeCons(co->gc, getBinding(co, packageID, 42).name, g__03514101_037);
-Obj g__03514103_037 = makeCons(co->gc, getBinding(co, packageID, 43).name, g__03514102_037);
-Obj g__03514104_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03514103_037);
-Obj g__03514105_037 = makeCons(co->gc, getBinding(co, packageID, 44).name, g__03514104_037);
-Obj g__03514106_037 = makeCons(co->gc, getBinding(co, packageID, 45).name, g__03514105_037);
-Obj g__03514107_037 = makeCons(co->gc, getBinding(co, packageID, 72).name, g__03514106_037);
-Obj g__03514108_037 = makeCons(co->gc, getBinding(co, packageID, 46).name, g__03514107_037);
-Obj g__03514109_037 = makeCons(co->gc, getBinding(co, packageID, 47).name, g__03514108_037);
-Obj g__03514110_037 = makeCons(co->gc, getBinding(co, packageID, 48).name, g__03514109_037);
-Obj g__03514111_037 = makeCons(co->gc, getBinding(co, packageID, 49).name, g__03514110_037);
-Obj g__03514112_037 = makeCons(co->gc, getBinding(co, packageID, 50).name, g__03514111_037);
-Obj g__03514113_037 = makeCons(co->gc, getBinding(co, packageID, 51).name, g__03514112_037);
-Obj g__03514114_037 = makeCons(co->gc, getBinding(co, packageID, 52).name, g__03514113_037);
-Obj g__03514115_037 = makeCons(co->gc, getBinding(co, packageID, 53).name, g__03514114_037);
-Obj g__03514116_037 = makeCons(co->gc, getBinding(co, packageID, 54).name, g__03514115_037);
-Obj g__03514117_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03514116_037);
-Obj g__03514118_037 = makeCons(co->gc, getBinding(co, packageID, 76).name, g__03514117_037);
-Obj g__03514119_037 = makeCons(co->gc, getBinding(co, packageID, 75).name, g__03514118_037);
-Obj g__03514120_037 = makeCons(co->gc, getBinding(co, packageID, 162).name, g__03514119_037);
-Obj g__03514121_037 = makeCons(co->gc, getBinding(co, packageID, 56).name, g__03514120_037);
-Obj g__03514122_037 = makeCons(co->gc, getBinding(co, packageID, 122).name, g__03514121_037);
-Obj g__03514123_037 = makeCons(co->gc, getBinding(co, packageID, 132).name, g__03514122_037);
-Obj g__03514124_037 = makeCons(co->gc, getBinding(co, packageID, 152).name, g__03514123_037);
-Obj g__03514125_037 = makeCons(co->gc, getBinding(co, packageID, 155).name, g__03514124_037);
-Obj g__03514126_037 = makeCons(co->gc, getBinding(co, packageID, 156).name, g__03514125_037);
-Obj g__03514127_037 = makeCons(co->gc, getBinding(co, packageID, 157).name, g__03514126_037);
-Obj g__03514128_037 = makeCons(co->gc, getBinding(co, packageID, 158).name, g__03514127_037);
-Obj g__03514129_037 = makeCons(co->gc, getBinding(co, packageID, 159).name, g__03514128_037);
-Obj g__03514130_037 = makeCons(co->gc, getBinding(co, packageID, 160).name, g__03514129_037);
-Obj g__03514131_037 = makeCons(co->gc, getBinding(co, packageID, 161).name, g__03514130_037);
-Obj g__03514132_037 = primSet(co, getBinding(co, packageID, 55).name, g__03514131_037);
-Obj g__03514133_037 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj g__03514134_037 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj g__03514135_037 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj g__03514136_037 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj g__03514137_037 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj g__03514138_037 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj g__03514139_037 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj g__03514140_037 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
-Obj g__03514141_037 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj g__03514142_037 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
-Obj g__03514143_037 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
-Obj g__03514144_037 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
-Obj g__03514145_037 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
-Obj g__03514146_037 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
-Obj g__03514147_037 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj g__03514148_037 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj g__03514149_037 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
-Obj g__03514150_037 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj g__03514151_037 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj g__03514152_037 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj g__03514153_037 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj g__03514154_037 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj g__03514155_037 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj g__03514156_037 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj g__03514157_037 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj g__03514158_037 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj g__03514159_037 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj g__03514160_037 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj g__03514161_037 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
-Obj g__03514162_037 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj g__03514163_037 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj g__03514164_037 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
-Obj g__03514165_037 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
-Obj g__03514166_037 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
-Obj g__03514167_037 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
-Obj g__03514168_037 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
-Obj g__03514169_037 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
-Obj g__03514170_037 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
-Obj g__03514171_037 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj g__03514172_037 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
-Obj g__03514173_037 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
-coraReturn(co, g__03514173_037);
+Obj g__03513873_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03513872_037);
+Obj g__03513874_037 = makeCons(co->gc, makeString(co->gc, "makeCons", 8), Nil);
+Obj g__03513875_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513874_037);
+Obj g__03513876_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513875_037);
+Obj g__03513877_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ISCONS", 11), Nil);
+Obj g__03513878_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513877_037);
+Obj g__03513879_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03513878_037);
+Obj g__03513880_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ADD", 8), Nil);
+Obj g__03513881_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513880_037);
+Obj g__03513882_037 = makeCons(co->gc, getBinding(co, packageID, 69).name, g__03513881_037);
+Obj g__03513883_037 = makeCons(co->gc, makeString(co->gc, "PRIM_SUB", 8), Nil);
+Obj g__03513884_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513883_037);
+Obj g__03513885_037 = makeCons(co->gc, getBinding(co, packageID, 68).name, g__03513884_037);
+Obj g__03513886_037 = makeCons(co->gc, makeString(co->gc, "PRIM_MUL", 8), Nil);
+Obj g__03513887_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513886_037);
+Obj g__03513888_037 = makeCons(co->gc, getBinding(co, packageID, 67).name, g__03513887_037);
+Obj g__03513889_037 = makeCons(co->gc, makeString(co->gc, "primDiv", 7), Nil);
+Obj g__03513890_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513889_037);
+Obj g__03513891_037 = makeCons(co->gc, getBinding(co, packageID, 66).name, g__03513890_037);
+Obj g__03513892_037 = makeCons(co->gc, makeString(co->gc, "PRIM_EQ", 7), Nil);
+Obj g__03513893_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513892_037);
+Obj g__03513894_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513893_037);
+Obj g__03513895_037 = makeCons(co->gc, makeString(co->gc, "PRIM_GT", 7), Nil);
+Obj g__03513896_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513895_037);
+Obj g__03513897_037 = makeCons(co->gc, getBinding(co, packageID, 65).name, g__03513896_037);
+Obj g__03513898_037 = makeCons(co->gc, makeString(co->gc, "PRIM_LT", 7), Nil);
+Obj g__03513899_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03513898_037);
+Obj g__03513900_037 = makeCons(co->gc, getBinding(co, packageID, 64).name, g__03513899_037);
+Obj g__03513901_037 = makeCons(co->gc, makeString(co->gc, "primGenSym", 10), Nil);
+Obj g__03513902_037 = makeCons(co->gc, MAKE_NUMBER(0), g__03513901_037);
+Obj g__03513903_037 = makeCons(co->gc, getBinding(co, packageID, 63).name, g__03513902_037);
+Obj g__03513904_037 = makeCons(co->gc, makeString(co->gc, "primIsSymbol", 12), Nil);
+Obj g__03513905_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513904_037);
+Obj g__03513906_037 = makeCons(co->gc, getBinding(co, packageID, 62).name, g__03513905_037);
+Obj g__03513907_037 = makeCons(co->gc, makeString(co->gc, "primNot", 7), Nil);
+Obj g__03513908_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513907_037);
+Obj g__03513909_037 = makeCons(co->gc, getBinding(co, packageID, 61).name, g__03513908_037);
+Obj g__03513910_037 = makeCons(co->gc, makeString(co->gc, "primIsNumber", 12), Nil);
+Obj g__03513911_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513910_037);
+Obj g__03513912_037 = makeCons(co->gc, getBinding(co, packageID, 60).name, g__03513911_037);
+Obj g__03513913_037 = makeCons(co->gc, makeString(co->gc, "primIsString", 12), Nil);
+Obj g__03513914_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03513913_037);
+Obj g__03513915_037 = makeCons(co->gc, getBinding(co, packageID, 59).name, g__03513914_037);
+Obj g__03513916_037 = makeCons(co->gc, g__03513915_037, Nil);
+Obj g__03513917_037 = makeCons(co->gc, g__03513912_037, g__03513916_037);
+Obj g__03513918_037 = makeCons(co->gc, g__03513909_037, g__03513917_037);
+Obj g__03513919_037 = makeCons(co->gc, g__03513906_037, g__03513918_037);
+Obj g__03513920_037 = makeCons(co->gc, g__03513903_037, g__03513919_037);
+Obj g__03513921_037 = makeCons(co->gc, g__03513900_037, g__03513920_037);
+Obj g__03513922_037 = makeCons(co->gc, g__03513897_037, g__03513921_037);
+Obj g__03513923_037 = makeCons(co->gc, g__03513894_037, g__03513922_037);
+Obj g__03513924_037 = makeCons(co->gc, g__03513891_037, g__03513923_037);
+Obj g__03513925_037 = makeCons(co->gc, g__03513888_037, g__03513924_037);
+Obj g__03513926_037 = makeCons(co->gc, g__03513885_037, g__03513925_037);
+Obj g__03513927_037 = makeCons(co->gc, g__03513882_037, g__03513926_037);
+Obj g__03513928_037 = makeCons(co->gc, g__03513879_037, g__03513927_037);
+Obj g__03513929_037 = makeCons(co->gc, g__03513876_037, g__03513928_037);
+Obj g__03513930_037 = makeCons(co->gc, g__03513873_037, g__03513929_037);
+Obj g__03513931_037 = makeCons(co->gc, g__03513870_037, g__03513930_037);
+Obj g__03513932_037 = makeCons(co->gc, g__03513867_037, g__03513931_037);
+Obj g__03513933_037 = primSet(co, getBinding(co, packageID, 71).name, g__03513932_037);
+Obj g__03513948_037 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj g__03513952_037 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj g__03514130_037 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj g__03514131_037 = makeCons(co->gc, getBinding(co, packageID, 100).name, Nil);
+Obj g__03514132_037 = makeCons(co->gc, getBinding(co, packageID, 101).name, g__03514131_037);
+Obj g__03514133_037 = makeCons(co->gc, getBinding(co, packageID, 103).name, g__03514132_037);
+Obj g__03514134_037 = makeCons(co->gc, getBinding(co, packageID, 133).name, g__03514133_037);
+Obj g__03514135_037 = makeCons(co->gc, getBinding(co, packageID, 139).name, g__03514134_037);
+Obj g__03514136_037 = makeCons(co->gc, getBinding(co, packageID, 148).name, g__03514135_037);
+Obj g__03514137_037 = makeCons(co->gc, getBinding(co, packageID, 150).name, g__03514136_037);
+Obj g__03514138_037 = makeCons(co->gc, getBinding(co, packageID, 77).name, g__03514137_037);
+Obj g__03514139_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03514138_037);
+Obj g__03514140_037 = makeCons(co->gc, getBinding(co, packageID, 41).name, g__03514139_037);
+Obj g__03514141_037 = makeCons(co->gc, getBinding(co, packageID, 42).name, g__03514140_037);
+Obj g__03514142_037 = makeCons(co->gc, getBinding(co, packageID, 43).name, g__03514141_037);
+Obj g__03514143_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03514142_037);
+Obj g__03514144_037 = makeCons(co->gc, getBinding(co, packageID, 44).name, g__03514143_037);
+Obj g__03514145_037 = makeCons(co->gc, getBinding(co, packageID, 45).name, g__03514144_037);
+Obj g__03514146_037 = makeCons(co->gc, getBinding(co, packageID, 72).name, g__03514145_037);
+Obj g__03514147_037 = makeCons(co->gc, getBinding(co, packageID, 46).name, g__03514146_037);
+Obj g__03514148_037 = makeCons(co->gc, getBinding(co, packageID, 47).name, g__03514147_037);
+Obj g__03514149_037 = makeCons(co->gc, getBinding(co, packageID, 48).name, g__03514148_037);
+Obj g__03514150_037 = makeCons(co->gc, getBinding(co, packageID, 49).name, g__03514149_037);
+Obj g__03514151_037 = makeCons(co->gc, getBinding(co, packageID, 50).name, g__03514150_037);
+Obj g__03514152_037 = makeCons(co->gc, getBinding(co, packageID, 51).name, g__03514151_037);
+Obj g__03514153_037 = makeCons(co->gc, getBinding(co, packageID, 52).name, g__03514152_037);
+Obj g__03514154_037 = makeCons(co->gc, getBinding(co, packageID, 53).name, g__03514153_037);
+Obj g__03514155_037 = makeCons(co->gc, getBinding(co, packageID, 54).name, g__03514154_037);
+Obj g__03514156_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03514155_037);
+Obj g__03514157_037 = makeCons(co->gc, getBinding(co, packageID, 76).name, g__03514156_037);
+Obj g__03514158_037 = makeCons(co->gc, getBinding(co, packageID, 75).name, g__03514157_037);
+Obj g__03514159_037 = makeCons(co->gc, getBinding(co, packageID, 162).name, g__03514158_037);
+Obj g__03514160_037 = makeCons(co->gc, getBinding(co, packageID, 56).name, g__03514159_037);
+Obj g__03514161_037 = makeCons(co->gc, getBinding(co, packageID, 122).name, g__03514160_037);
+Obj g__03514162_037 = makeCons(co->gc, getBinding(co, packageID, 132).name, g__03514161_037);
+Obj g__03514163_037 = makeCons(co->gc, getBinding(co, packageID, 152).name, g__03514162_037);
+Obj g__03514164_037 = makeCons(co->gc, getBinding(co, packageID, 155).name, g__03514163_037);
+Obj g__03514165_037 = makeCons(co->gc, getBinding(co, packageID, 156).name, g__03514164_037);
+Obj g__03514166_037 = makeCons(co->gc, getBinding(co, packageID, 157).name, g__03514165_037);
+Obj g__03514167_037 = makeCons(co->gc, getBinding(co, packageID, 158).name, g__03514166_037);
+Obj g__03514168_037 = makeCons(co->gc, getBinding(co, packageID, 159).name, g__03514167_037);
+Obj g__03514169_037 = makeCons(co->gc, getBinding(co, packageID, 160).name, g__03514168_037);
+Obj g__03514170_037 = makeCons(co->gc, getBinding(co, packageID, 161).name, g__03514169_037);
+Obj g__03514171_037 = primSet(co, getBinding(co, packageID, 55).name, g__03514170_037);
+Obj g__03514172_037 = primSet(co, getBinding(co, packageID, 40).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj g__03514173_037 = primSet(co, getBinding(co, packageID, 39).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj g__03514174_037 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj g__03514175_037 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj g__03514176_037 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj g__03514177_037 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj g__03514178_037 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj g__03514179_037 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj g__03514180_037 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj g__03514181_037 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj g__03514182_037 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj g__03514183_037 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 56)));
+Obj g__03514184_037 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 75)));
+Obj g__03514185_037 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 76)));
+Obj g__03514186_037 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj g__03514187_037 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj g__03514188_037 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 53)));
+Obj g__03514189_037 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj g__03514190_037 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj g__03514191_037 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj g__03514192_037 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj g__03514193_037 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj g__03514194_037 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj g__03514195_037 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj g__03514196_037 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj g__03514197_037 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj g__03514198_037 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj g__03514199_037 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj g__03514200_037 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 83)));
+Obj g__03514201_037 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj g__03514202_037 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj g__03514203_037 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 128)));
+Obj g__03514204_037 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 77)));
+Obj g__03514205_037 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj g__03514206_037 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj g__03514207_037 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj g__03514208_037 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj g__03514209_037 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 103)));
+Obj g__03514210_037 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj g__03514211_037 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 100)));
+Obj g__03514212_037 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 58)));
+coraReturn(co, g__03514212_037);
 return;
 }
 case 2:
 {
-Obj g__03513757_037= co->res;
-Obj g__03513786_037 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj g__03513787_037 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj g__03513796_037= co->res;
+Obj g__03513825_037 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj g__03513826_037 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 81).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj g__03513740_037= co->res;
-Obj g__03513754_037 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj g__03513779_037= co->res;
+Obj g__03513793_037 = primSet(co, getBinding(co, packageID, 87).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj g__03513718_037= co->res;
-Obj g__03513738_037 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj g__03513757_037= co->res;
+Obj g__03513777_037 = primSet(co, getBinding(co, packageID, 90).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj g__03513687_037= co->res;
-Obj g__03513688_037 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj g__03513689_037 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj g__03513692_037 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj g__03513716_037 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj g__03513726_037= co->res;
+Obj g__03513727_037 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj g__03513728_037 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj g__03513731_037 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj g__03513755_037 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj g__03513579_037= co->res;
-Obj g__03513631_037 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj g__03513632_037 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj g__03513637_037 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj g__03513641_037 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj g__03513642_037 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj g__03513650_037 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj g__03513651_037 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj g__03513657_037 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj g__03513668_037 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj g__03513674_037 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj g__03513618_037= co->res;
+Obj g__03513670_037 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj g__03513671_037 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj g__03513676_037 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj g__03513680_037 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj g__03513681_037 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj g__03513689_037 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj g__03513690_037 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj g__03513696_037 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj g__03513707_037 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj g__03513713_037 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 97).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj g__03513473_037= co->res;
-Obj g__03513495_037 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj g__03513529_037 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj g__03513542_037 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj g__03513564_037 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj g__03513578_037 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj g__03513512_037= co->res;
+Obj g__03513534_037 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj g__03513568_037 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj g__03513581_037 = primSet(co, getBinding(co, packageID, 113).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj g__03513603_037 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj g__03513617_037 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 109).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj g__03513458_037= co->res;
-Obj g__03513461_037 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj g__03513471_037 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj g__03513497_037= co->res;
+Obj g__03513500_037 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj g__03513510_037 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj g__03513444_037= co->res;
-Obj g__03513456_037 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj g__03513483_037= co->res;
+Obj g__03513495_037 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj g__03513430_037= co->res;
-Obj g__03513442_037 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj g__03513469_037= co->res;
+Obj g__03513481_037 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj g__03513416_037= co->res;
+Obj g__03513455_037= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj g__03513394_037= co->res;
-Obj g__03513399_037 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj g__03513402_037 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj g__03513414_037 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj g__03513433_037= co->res;
+Obj g__03513438_037 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj g__03513441_037 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj g__03513453_037 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj g__03513384_037= co->res;
+Obj g__03513423_037= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj g__03513382_037= co->res;
+Obj g__03513421_037= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj g__03513327_037= co->res;
-Obj g__03513328_037 = primSet(co, getBinding(co, packageID, 150).name, g__03513327_037);
-Obj g__03513334_037 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj g__03513335_037 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj g__03513336_037 = primSet(co, getBinding(co, packageID, 147).name, Nil);
-Obj g__03513337_037 = primGenSym(co);
-Obj g__03513338_037 = primSet(co, getBinding(co, packageID, 146).name, g__03513337_037);
-Obj g__03513342_037 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj g__03513351_037 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj g__03513352_037 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj g__03513369_037 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj g__03513370_037 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
-Obj g__03513381_037 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj g__03513366_037= co->res;
+Obj g__03513367_037 = primSet(co, getBinding(co, packageID, 150).name, g__03513366_037);
+Obj g__03513373_037 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj g__03513374_037 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj g__03513375_037 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj g__03513376_037 = primGenSym(co);
+Obj g__03513377_037 = primSet(co, getBinding(co, packageID, 146).name, g__03513376_037);
+Obj g__03513381_037 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj g__03513390_037 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj g__03513391_037 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj g__03513408_037 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj g__03513409_037 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj g__03513420_037 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
@@ -599,67 +600,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513169_037 = R[1];
-Obj g__03513170_037 = R[2];
-Obj g__03513171_037 = R[3];
-Obj g__03513172_037 = R[4];
-Obj g__03513258_037 = makeNative(co->gc, 2, clofun93, 1, 4, g__03513169_037, g__03513170_037, g__03513171_037, g__03513172_037);
-R[1] = g__03513172_037;
-R[2] = g__03513258_037;
+Obj g__03513208_037 = R[1];
+Obj g__03513209_037 = R[2];
+Obj g__03513210_037 = R[3];
+Obj g__03513211_037 = R[4];
+Obj g__03513297_037 = makeNative(co->gc, 2, clofun93, 1, 4, g__03513208_037, g__03513209_037, g__03513210_037, g__03513211_037);
+R[1] = g__03513211_037;
+R[2] = g__03513297_037;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), g__03513172_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), g__03513211_037);
 return;
 }
 case 1:
 {
-Obj g__03514090_037= co->res;
-Obj g__03513258_037 = R[1];
-if (True == g__03514090_037) {
+Obj g__03514129_037= co->res;
+Obj g__03513297_037 = R[1];
+if (True == g__03514129_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513258_037, True);
+coraCall1(co, g__03513297_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513258_037, False);
+coraCall1(co, g__03513297_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03514089_037= co->res;
-Obj g__03513172_037 = R[1];
-Obj g__03513258_037 = R[2];
-if (True == g__03514089_037) {
+Obj g__03514128_037= co->res;
+Obj g__03513211_037 = R[1];
+Obj g__03513297_037 = R[2];
+if (True == g__03514128_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513258_037, True);
+coraCall1(co, g__03513297_037, True);
 return;
 } else {
-R[1] = g__03513258_037;
+R[1] = g__03513297_037;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513172_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513211_037);
 return;
 }
 }
 case 3:
 {
-Obj g__03514087_037= co->res;
-Obj g__03513172_037 = R[1];
-Obj g__03513258_037 = R[2];
-if (True == g__03514087_037) {
+Obj g__03514126_037= co->res;
+Obj g__03513211_037 = R[1];
+Obj g__03513297_037 = R[2];
+if (True == g__03514126_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513258_037, True);
+coraCall1(co, g__03513297_037, True);
 return;
 } else {
-Obj g__03514088_037 = primIsString(g__03513172_037);
-if (True == g__03514088_037) {
+Obj g__03514127_037 = primIsString(g__03513211_037);
+if (True == g__03514127_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513258_037, True);
+coraCall1(co, g__03513297_037, True);
 return;
 } else {
-R[1] = g__03513172_037;
-R[2] = g__03513258_037;
+R[1] = g__03513211_037;
+R[2] = g__03513297_037;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), g__03513172_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), g__03513211_037);
 return;
 }
 }
@@ -671,49 +672,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513257_037 = R[1];
-if (True == g__03513257_037) {
+Obj g__03513296_037 = R[1];
+if (True == g__03513296_037) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj g__03513259_037 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03514075_037 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == g__03514075_037) {
-Obj g__03514076_037 = PRIM_CAR(closureRef(R[0], 3));
-Obj g__03514077_037 = PRIM_EQ(getBinding(co, packageID, 140).name, g__03514076_037);
-if (True == g__03514077_037) {
-Obj g__03514078_037 = PRIM_CDR(closureRef(R[0], 3));
-Obj g__03514079_037 = PRIM_ISCONS(g__03514078_037);
-if (True == g__03514079_037) {
-Obj g__03514080_037 = PRIM_CDR(closureRef(R[0], 3));
-Obj g__03514081_037 = PRIM_CAR(g__03514080_037);
-Obj g__03513284_037 = g__03514081_037;
-Obj g__03514082_037 = PRIM_CDR(closureRef(R[0], 3));
-Obj g__03514083_037 = PRIM_CDR(g__03514082_037);
-Obj g__03514084_037 = PRIM_EQ(Nil, g__03514083_037);
-if (True == g__03514084_037) {
-Obj g__03514085_037 = makeCons(co->gc, g__03513284_037, Nil);
-Obj g__03514086_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03514085_037);
-coraReturn(co, g__03514086_037);
+Obj g__03513298_037 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03514114_037 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == g__03514114_037) {
+Obj g__03514115_037 = PRIM_CAR(closureRef(R[0], 3));
+Obj g__03514116_037 = PRIM_EQ(getBinding(co, packageID, 140).name, g__03514115_037);
+if (True == g__03514116_037) {
+Obj g__03514117_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03514118_037 = PRIM_ISCONS(g__03514117_037);
+if (True == g__03514118_037) {
+Obj g__03514119_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03514120_037 = PRIM_CAR(g__03514119_037);
+Obj g__03513323_037 = g__03514120_037;
+Obj g__03514121_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03514122_037 = PRIM_CDR(g__03514121_037);
+Obj g__03514123_037 = PRIM_EQ(Nil, g__03514122_037);
+if (True == g__03514123_037) {
+Obj g__03514124_037 = makeCons(co->gc, g__03513323_037, Nil);
+Obj g__03514125_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03514124_037);
+coraReturn(co, g__03514125_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513259_037);
+coraCall0(co, g__03513298_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513259_037);
+coraCall0(co, g__03513298_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513259_037);
+coraCall0(co, g__03513298_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513259_037);
+coraCall0(co, g__03513298_037);
 return;
 }
 }
@@ -725,73 +726,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513914_037 = primIsSymbol(closureRef(R[0], 0));
-if (True == g__03513914_037) {
+Obj g__03513953_037 = primIsSymbol(closureRef(R[0], 0));
+if (True == g__03513953_037) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj g__03513260_037 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj g__03514053_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03514053_037) {
-Obj g__03514054_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03514055_037 = PRIM_EQ(getBinding(co, packageID, 141).name, g__03514054_037);
-if (True == g__03514055_037) {
-Obj g__03514056_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514057_037 = PRIM_ISCONS(g__03514056_037);
-if (True == g__03514057_037) {
-Obj g__03514058_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514059_037 = PRIM_CAR(g__03514058_037);
-Obj g__03513282_037 = g__03514059_037;
-Obj g__03514060_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514061_037 = PRIM_CDR(g__03514060_037);
-Obj g__03514062_037 = PRIM_ISCONS(g__03514061_037);
-if (True == g__03514062_037) {
-Obj g__03514063_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514064_037 = PRIM_CDR(g__03514063_037);
-Obj g__03514065_037 = PRIM_CAR(g__03514064_037);
-Obj g__03513283_037 = g__03514065_037;
-Obj g__03514066_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514067_037 = PRIM_CDR(g__03514066_037);
-Obj g__03514068_037 = PRIM_CDR(g__03514067_037);
-Obj g__03514069_037 = PRIM_EQ(Nil, g__03514068_037);
-if (True == g__03514069_037) {
-R[1] = g__03513283_037;
-R[2] = g__03513282_037;
+Obj g__03513299_037 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03514092_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514092_037) {
+Obj g__03514093_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03514094_037 = PRIM_EQ(getBinding(co, packageID, 141).name, g__03514093_037);
+if (True == g__03514094_037) {
+Obj g__03514095_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514096_037 = PRIM_ISCONS(g__03514095_037);
+if (True == g__03514096_037) {
+Obj g__03514097_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514098_037 = PRIM_CAR(g__03514097_037);
+Obj g__03513321_037 = g__03514098_037;
+Obj g__03514099_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514100_037 = PRIM_CDR(g__03514099_037);
+Obj g__03514101_037 = PRIM_ISCONS(g__03514100_037);
+if (True == g__03514101_037) {
+Obj g__03514102_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514103_037 = PRIM_CDR(g__03514102_037);
+Obj g__03514104_037 = PRIM_CAR(g__03514103_037);
+Obj g__03513322_037 = g__03514104_037;
+Obj g__03514105_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514106_037 = PRIM_CDR(g__03514105_037);
+Obj g__03514107_037 = PRIM_CDR(g__03514106_037);
+Obj g__03514108_037 = PRIM_EQ(Nil, g__03514107_037);
+if (True == g__03514108_037) {
+R[1] = g__03513322_037;
+R[2] = g__03513321_037;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513282_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513321_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513260_037);
+coraCall0(co, g__03513299_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513260_037);
+coraCall0(co, g__03513299_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513260_037);
+coraCall0(co, g__03513299_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513260_037);
+coraCall0(co, g__03513299_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513260_037);
+coraCall0(co, g__03513299_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03513916_037= co->res;
-if (True == g__03513916_037) {
+Obj g__03513955_037= co->res;
+if (True == g__03513955_037) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -802,8 +803,8 @@ return;
 }
 case 2:
 {
-Obj g__03513915_037= co->res;
-if (True == g__03513915_037) {
+Obj g__03513954_037= co->res;
+if (True == g__03513954_037) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -814,22 +815,22 @@ return;
 }
 case 3:
 {
-Obj g__03514071_037= co->res;
-Obj g__03513282_037 = R[1];
-Obj g__03514072_037 = makeCons(co->gc, g__03514071_037, Nil);
-Obj g__03514073_037 = makeCons(co->gc, g__03513282_037, g__03514072_037);
-Obj g__03514074_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03514073_037);
-coraReturn(co, g__03514074_037);
+Obj g__03514110_037= co->res;
+Obj g__03513321_037 = R[1];
+Obj g__03514111_037 = makeCons(co->gc, g__03514110_037, Nil);
+Obj g__03514112_037 = makeCons(co->gc, g__03513321_037, g__03514111_037);
+Obj g__03514113_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03514112_037);
+coraReturn(co, g__03514113_037);
 return;
 }
 case 4:
 {
-Obj g__03514070_037= co->res;
-Obj g__03513283_037 = R[1];
-Obj g__03513282_037 = R[2];
-R[1] = g__03513282_037;
+Obj g__03514109_037= co->res;
+Obj g__03513322_037 = R[1];
+Obj g__03513321_037 = R[2];
+R[1] = g__03513321_037;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), g__03514070_037, closureRef(R[0], 2), closureRef(R[0], 3), g__03513283_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), g__03514109_037, closureRef(R[0], 2), closureRef(R[0], 3), g__03513322_037);
 return;
 }
 }
@@ -839,132 +840,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513261_037 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj g__03514009_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03514009_037) {
-Obj g__03514010_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03514011_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03514010_037);
-if (True == g__03514011_037) {
-Obj g__03514012_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514013_037 = PRIM_ISCONS(g__03514012_037);
-if (True == g__03514013_037) {
-Obj g__03514014_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514015_037 = PRIM_CAR(g__03514014_037);
-Obj g__03514016_037 = PRIM_ISCONS(g__03514015_037);
-if (True == g__03514016_037) {
-Obj g__03514017_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514018_037 = PRIM_CAR(g__03514017_037);
-Obj g__03514019_037 = PRIM_CAR(g__03514018_037);
-Obj g__03514020_037 = PRIM_EQ(getBinding(co, packageID, 83).name, g__03514019_037);
-if (True == g__03514020_037) {
-Obj g__03514021_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514022_037 = PRIM_CAR(g__03514021_037);
-Obj g__03514023_037 = PRIM_CDR(g__03514022_037);
-Obj g__03514024_037 = PRIM_ISCONS(g__03514023_037);
-if (True == g__03514024_037) {
-Obj g__03514025_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514026_037 = PRIM_CAR(g__03514025_037);
-Obj g__03514027_037 = PRIM_CDR(g__03514026_037);
-Obj g__03514028_037 = PRIM_CAR(g__03514027_037);
-Obj g__03513280_037 = g__03514028_037;
-Obj g__03514029_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514030_037 = PRIM_CAR(g__03514029_037);
-Obj g__03514031_037 = PRIM_CDR(g__03514030_037);
-Obj g__03514032_037 = PRIM_CDR(g__03514031_037);
-Obj g__03514033_037 = PRIM_EQ(Nil, g__03514032_037);
-if (True == g__03514033_037) {
-Obj g__03514034_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514035_037 = PRIM_CDR(g__03514034_037);
-Obj g__03514036_037 = PRIM_ISCONS(g__03514035_037);
-if (True == g__03514036_037) {
-Obj g__03514037_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514038_037 = PRIM_CDR(g__03514037_037);
-Obj g__03514039_037 = PRIM_CAR(g__03514038_037);
-Obj g__03513281_037 = g__03514039_037;
-Obj g__03514040_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03514041_037 = PRIM_CDR(g__03514040_037);
-Obj g__03514042_037 = PRIM_CDR(g__03514041_037);
-Obj g__03514043_037 = PRIM_EQ(Nil, g__03514042_037);
-if (True == g__03514043_037) {
-Obj g__03514044_037 = primIsString(g__03513280_037);
-if (True == g__03514044_037) {
-Obj g__03514045_037 = makeCons(co->gc, g__03513280_037, Nil);
-Obj g__03514046_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03514045_037);
-R[1] = g__03513280_037;
-R[2] = g__03513281_037;
+Obj g__03513300_037 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03514048_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514048_037) {
+Obj g__03514049_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03514050_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03514049_037);
+if (True == g__03514050_037) {
+Obj g__03514051_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514052_037 = PRIM_ISCONS(g__03514051_037);
+if (True == g__03514052_037) {
+Obj g__03514053_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514054_037 = PRIM_CAR(g__03514053_037);
+Obj g__03514055_037 = PRIM_ISCONS(g__03514054_037);
+if (True == g__03514055_037) {
+Obj g__03514056_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514057_037 = PRIM_CAR(g__03514056_037);
+Obj g__03514058_037 = PRIM_CAR(g__03514057_037);
+Obj g__03514059_037 = PRIM_EQ(getBinding(co, packageID, 83).name, g__03514058_037);
+if (True == g__03514059_037) {
+Obj g__03514060_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514061_037 = PRIM_CAR(g__03514060_037);
+Obj g__03514062_037 = PRIM_CDR(g__03514061_037);
+Obj g__03514063_037 = PRIM_ISCONS(g__03514062_037);
+if (True == g__03514063_037) {
+Obj g__03514064_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514065_037 = PRIM_CAR(g__03514064_037);
+Obj g__03514066_037 = PRIM_CDR(g__03514065_037);
+Obj g__03514067_037 = PRIM_CAR(g__03514066_037);
+Obj g__03513319_037 = g__03514067_037;
+Obj g__03514068_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514069_037 = PRIM_CAR(g__03514068_037);
+Obj g__03514070_037 = PRIM_CDR(g__03514069_037);
+Obj g__03514071_037 = PRIM_CDR(g__03514070_037);
+Obj g__03514072_037 = PRIM_EQ(Nil, g__03514071_037);
+if (True == g__03514072_037) {
+Obj g__03514073_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514074_037 = PRIM_CDR(g__03514073_037);
+Obj g__03514075_037 = PRIM_ISCONS(g__03514074_037);
+if (True == g__03514075_037) {
+Obj g__03514076_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514077_037 = PRIM_CDR(g__03514076_037);
+Obj g__03514078_037 = PRIM_CAR(g__03514077_037);
+Obj g__03513320_037 = g__03514078_037;
+Obj g__03514079_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514080_037 = PRIM_CDR(g__03514079_037);
+Obj g__03514081_037 = PRIM_CDR(g__03514080_037);
+Obj g__03514082_037 = PRIM_EQ(Nil, g__03514081_037);
+if (True == g__03514082_037) {
+Obj g__03514083_037 = primIsString(g__03513319_037);
+if (True == g__03514083_037) {
+Obj g__03514084_037 = makeCons(co->gc, g__03513319_037, Nil);
+Obj g__03514085_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03514084_037);
+R[1] = g__03513319_037;
+R[2] = g__03513320_037;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03514046_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03514085_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513261_037);
+coraCall0(co, g__03513300_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03514049_037= co->res;
-Obj g__03514047_037 = R[1];
-Obj g__03514050_037 = makeCons(co->gc, g__03514049_037, Nil);
-Obj g__03514051_037 = makeCons(co->gc, g__03514047_037, g__03514050_037);
-Obj g__03514052_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03514051_037);
-coraReturn(co, g__03514052_037);
+Obj g__03514088_037= co->res;
+Obj g__03514086_037 = R[1];
+Obj g__03514089_037 = makeCons(co->gc, g__03514088_037, Nil);
+Obj g__03514090_037 = makeCons(co->gc, g__03514086_037, g__03514089_037);
+Obj g__03514091_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03514090_037);
+coraReturn(co, g__03514091_037);
 return;
 }
 case 2:
 {
-Obj g__03514047_037= co->res;
-Obj g__03513280_037 = R[1];
-Obj g__03513281_037 = R[2];
-Obj g__03514048_037 = makeCons(co->gc, g__03513280_037, closureRef(R[0], 3));
-R[1] = g__03514047_037;
+Obj g__03514086_037= co->res;
+Obj g__03513319_037 = R[1];
+Obj g__03513320_037 = R[2];
+Obj g__03514087_037 = makeCons(co->gc, g__03513319_037, closureRef(R[0], 3));
+R[1] = g__03514086_037;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), g__03514048_037, g__03513281_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), g__03514087_037, g__03513320_037);
 return;
 }
 }
@@ -974,34 +975,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513262_037 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj g__03514001_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03514001_037) {
-Obj g__03514002_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513275_037 = g__03514002_037;
-Obj g__03514003_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513276_037 = g__03514003_037;
-Obj g__03513279_037 = makeNative(co->gc, 2, clofun89, 1, 6, g__03513275_037, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513276_037, g__03513262_037);
-Obj g__03514007_037 = PRIM_EQ(g__03513275_037, getBinding(co, packageID, 127).name);
-if (True == g__03514007_037) {
+Obj g__03513301_037 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03514040_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514040_037) {
+Obj g__03514041_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513314_037 = g__03514041_037;
+Obj g__03514042_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513315_037 = g__03514042_037;
+Obj g__03513318_037 = makeNative(co->gc, 2, clofun89, 1, 6, g__03513314_037, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513315_037, g__03513301_037);
+Obj g__03514046_037 = PRIM_EQ(g__03513314_037, getBinding(co, packageID, 127).name);
+if (True == g__03514046_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513279_037, True);
+coraCall1(co, g__03513318_037, True);
 return;
 } else {
-Obj g__03514008_037 = PRIM_EQ(g__03513275_037, getBinding(co, packageID, 92).name);
-if (True == g__03514008_037) {
+Obj g__03514047_037 = PRIM_EQ(g__03513314_037, getBinding(co, packageID, 92).name);
+if (True == g__03514047_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513279_037, True);
+coraCall1(co, g__03513318_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513279_037, False);
+coraCall1(co, g__03513318_037, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513262_037);
+coraCall0(co, g__03513301_037);
 return;
 }
 }
@@ -1012,8 +1013,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513278_037 = R[1];
-if (True == g__03513278_037) {
+Obj g__03513317_037 = R[1];
+if (True == g__03513317_037) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1025,16 +1026,16 @@ return;
 }
 case 1:
 {
-Obj g__03514005_037= co->res;
-Obj g__03514006_037 = makeCons(co->gc, closureRef(R[0], 0), g__03514005_037);
-coraReturn(co, g__03514006_037);
+Obj g__03514044_037= co->res;
+Obj g__03514045_037 = makeCons(co->gc, closureRef(R[0], 0), g__03514044_037);
+coraReturn(co, g__03514045_037);
 return;
 }
 case 2:
 {
-Obj g__03514004_037= co->res;
+Obj g__03514043_037= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), g__03514004_037, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), g__03514043_037, closureRef(R[0], 4));
 return;
 }
 }
@@ -1044,100 +1045,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513263_037 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03513968_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513968_037) {
-Obj g__03513969_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513970_037 = PRIM_EQ(getBinding(co, packageID, 130).name, g__03513969_037);
-if (True == g__03513970_037) {
-Obj g__03513971_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513972_037 = PRIM_ISCONS(g__03513971_037);
-if (True == g__03513972_037) {
-Obj g__03513973_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513974_037 = PRIM_CAR(g__03513973_037);
-Obj g__03513272_037 = g__03513974_037;
-Obj g__03513975_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513976_037 = PRIM_CDR(g__03513975_037);
-Obj g__03513977_037 = PRIM_ISCONS(g__03513976_037);
-if (True == g__03513977_037) {
-Obj g__03513978_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513979_037 = PRIM_CDR(g__03513978_037);
-Obj g__03513980_037 = PRIM_CAR(g__03513979_037);
-Obj g__03513273_037 = g__03513980_037;
-Obj g__03513981_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513982_037 = PRIM_CDR(g__03513981_037);
-Obj g__03513983_037 = PRIM_CDR(g__03513982_037);
-Obj g__03513984_037 = PRIM_ISCONS(g__03513983_037);
-if (True == g__03513984_037) {
-Obj g__03513985_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513986_037 = PRIM_CDR(g__03513985_037);
-Obj g__03513987_037 = PRIM_CDR(g__03513986_037);
-Obj g__03513988_037 = PRIM_CAR(g__03513987_037);
-Obj g__03513274_037 = g__03513988_037;
-Obj g__03513989_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513990_037 = PRIM_CDR(g__03513989_037);
-Obj g__03513991_037 = PRIM_CDR(g__03513990_037);
-Obj g__03513992_037 = PRIM_CDR(g__03513991_037);
-Obj g__03513993_037 = PRIM_EQ(Nil, g__03513992_037);
-if (True == g__03513993_037) {
-R[1] = g__03513274_037;
-R[2] = g__03513272_037;
+Obj g__03513302_037 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03514007_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03514007_037) {
+Obj g__03514008_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03514009_037 = PRIM_EQ(getBinding(co, packageID, 130).name, g__03514008_037);
+if (True == g__03514009_037) {
+Obj g__03514010_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514011_037 = PRIM_ISCONS(g__03514010_037);
+if (True == g__03514011_037) {
+Obj g__03514012_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514013_037 = PRIM_CAR(g__03514012_037);
+Obj g__03513311_037 = g__03514013_037;
+Obj g__03514014_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514015_037 = PRIM_CDR(g__03514014_037);
+Obj g__03514016_037 = PRIM_ISCONS(g__03514015_037);
+if (True == g__03514016_037) {
+Obj g__03514017_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514018_037 = PRIM_CDR(g__03514017_037);
+Obj g__03514019_037 = PRIM_CAR(g__03514018_037);
+Obj g__03513312_037 = g__03514019_037;
+Obj g__03514020_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514021_037 = PRIM_CDR(g__03514020_037);
+Obj g__03514022_037 = PRIM_CDR(g__03514021_037);
+Obj g__03514023_037 = PRIM_ISCONS(g__03514022_037);
+if (True == g__03514023_037) {
+Obj g__03514024_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514025_037 = PRIM_CDR(g__03514024_037);
+Obj g__03514026_037 = PRIM_CDR(g__03514025_037);
+Obj g__03514027_037 = PRIM_CAR(g__03514026_037);
+Obj g__03513313_037 = g__03514027_037;
+Obj g__03514028_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03514029_037 = PRIM_CDR(g__03514028_037);
+Obj g__03514030_037 = PRIM_CDR(g__03514029_037);
+Obj g__03514031_037 = PRIM_CDR(g__03514030_037);
+Obj g__03514032_037 = PRIM_EQ(Nil, g__03514031_037);
+if (True == g__03514032_037) {
+R[1] = g__03513313_037;
+R[2] = g__03513311_037;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513273_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513312_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513263_037);
+coraCall0(co, g__03513302_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513263_037);
+coraCall0(co, g__03513302_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513263_037);
+coraCall0(co, g__03513302_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513263_037);
+coraCall0(co, g__03513302_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513263_037);
+coraCall0(co, g__03513302_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513263_037);
+coraCall0(co, g__03513302_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03513996_037= co->res;
-Obj g__03513994_037 = R[1];
-Obj g__03513272_037 = R[2];
-Obj g__03513997_037 = makeCons(co->gc, g__03513996_037, Nil);
-Obj g__03513998_037 = makeCons(co->gc, g__03513994_037, g__03513997_037);
-Obj g__03513999_037 = makeCons(co->gc, g__03513272_037, g__03513998_037);
-Obj g__03514000_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513999_037);
-coraReturn(co, g__03514000_037);
+Obj g__03514035_037= co->res;
+Obj g__03514033_037 = R[1];
+Obj g__03513311_037 = R[2];
+Obj g__03514036_037 = makeCons(co->gc, g__03514035_037, Nil);
+Obj g__03514037_037 = makeCons(co->gc, g__03514033_037, g__03514036_037);
+Obj g__03514038_037 = makeCons(co->gc, g__03513311_037, g__03514037_037);
+Obj g__03514039_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03514038_037);
+coraReturn(co, g__03514039_037);
 return;
 }
 case 2:
 {
-Obj g__03513994_037= co->res;
-Obj g__03513274_037 = R[1];
-Obj g__03513272_037 = R[2];
-Obj g__03513995_037 = makeCons(co->gc, g__03513272_037, closureRef(R[0], 1));
-R[1] = g__03513994_037;
-R[2] = g__03513272_037;
+Obj g__03514033_037= co->res;
+Obj g__03513313_037 = R[1];
+Obj g__03513311_037 = R[2];
+Obj g__03514034_037 = makeCons(co->gc, g__03513311_037, closureRef(R[0], 1));
+R[1] = g__03514033_037;
+R[2] = g__03513311_037;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), g__03513995_037, closureRef(R[0], 2), closureRef(R[0], 3), g__03513274_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), g__03514034_037, closureRef(R[0], 2), closureRef(R[0], 3), g__03513313_037);
 return;
 }
 }
@@ -1147,73 +1148,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513264_037 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03513942_037 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == g__03513942_037) {
-Obj g__03513943_037 = PRIM_CAR(closureRef(R[0], 2));
-Obj g__03513944_037 = PRIM_EQ(getBinding(co, packageID, 80).name, g__03513943_037);
-if (True == g__03513944_037) {
-Obj g__03513945_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513946_037 = PRIM_ISCONS(g__03513945_037);
-if (True == g__03513946_037) {
-Obj g__03513947_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513948_037 = PRIM_CAR(g__03513947_037);
-Obj g__03513269_037 = g__03513948_037;
-Obj g__03513949_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513950_037 = PRIM_CDR(g__03513949_037);
-Obj g__03513951_037 = PRIM_ISCONS(g__03513950_037);
-if (True == g__03513951_037) {
-Obj g__03513952_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513953_037 = PRIM_CDR(g__03513952_037);
-Obj g__03513954_037 = PRIM_CAR(g__03513953_037);
-Obj g__03513270_037 = g__03513954_037;
-Obj g__03513955_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513956_037 = PRIM_CDR(g__03513955_037);
-Obj g__03513957_037 = PRIM_CDR(g__03513956_037);
-Obj g__03513958_037 = PRIM_ISCONS(g__03513957_037);
-if (True == g__03513958_037) {
-Obj g__03513959_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513960_037 = PRIM_CDR(g__03513959_037);
-Obj g__03513961_037 = PRIM_CDR(g__03513960_037);
-Obj g__03513962_037 = PRIM_CAR(g__03513961_037);
-Obj g__03513271_037 = g__03513962_037;
-Obj g__03513963_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03513964_037 = PRIM_CDR(g__03513963_037);
-Obj g__03513965_037 = PRIM_CDR(g__03513964_037);
-Obj g__03513966_037 = PRIM_CDR(g__03513965_037);
-Obj g__03513967_037 = PRIM_EQ(Nil, g__03513966_037);
-if (True == g__03513967_037) {
+Obj g__03513303_037 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03513981_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03513981_037) {
+Obj g__03513982_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03513983_037 = PRIM_EQ(getBinding(co, packageID, 80).name, g__03513982_037);
+if (True == g__03513983_037) {
+Obj g__03513984_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513985_037 = PRIM_ISCONS(g__03513984_037);
+if (True == g__03513985_037) {
+Obj g__03513986_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513987_037 = PRIM_CAR(g__03513986_037);
+Obj g__03513308_037 = g__03513987_037;
+Obj g__03513988_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513989_037 = PRIM_CDR(g__03513988_037);
+Obj g__03513990_037 = PRIM_ISCONS(g__03513989_037);
+if (True == g__03513990_037) {
+Obj g__03513991_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513992_037 = PRIM_CDR(g__03513991_037);
+Obj g__03513993_037 = PRIM_CAR(g__03513992_037);
+Obj g__03513309_037 = g__03513993_037;
+Obj g__03513994_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513995_037 = PRIM_CDR(g__03513994_037);
+Obj g__03513996_037 = PRIM_CDR(g__03513995_037);
+Obj g__03513997_037 = PRIM_ISCONS(g__03513996_037);
+if (True == g__03513997_037) {
+Obj g__03513998_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513999_037 = PRIM_CDR(g__03513998_037);
+Obj g__03514000_037 = PRIM_CDR(g__03513999_037);
+Obj g__03514001_037 = PRIM_CAR(g__03514000_037);
+Obj g__03513310_037 = g__03514001_037;
+Obj g__03514002_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03514003_037 = PRIM_CDR(g__03514002_037);
+Obj g__03514004_037 = PRIM_CDR(g__03514003_037);
+Obj g__03514005_037 = PRIM_CDR(g__03514004_037);
+Obj g__03514006_037 = PRIM_EQ(Nil, g__03514005_037);
+if (True == g__03514006_037) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), g__03513269_037, g__03513270_037, g__03513271_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 3), g__03513308_037, g__03513309_037, g__03513310_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513264_037);
+coraCall0(co, g__03513303_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513264_037);
+coraCall0(co, g__03513303_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513264_037);
+coraCall0(co, g__03513303_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513264_037);
+coraCall0(co, g__03513303_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513264_037);
+coraCall0(co, g__03513303_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513264_037);
+coraCall0(co, g__03513303_037);
 return;
 }
 }
@@ -1224,81 +1225,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513265_037 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj g__03513918_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513918_037) {
-Obj g__03513919_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513920_037 = PRIM_EQ(getBinding(co, packageID, 134).name, g__03513919_037);
-if (True == g__03513920_037) {
-Obj g__03513921_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513922_037 = PRIM_ISCONS(g__03513921_037);
-if (True == g__03513922_037) {
-Obj g__03513923_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513924_037 = PRIM_CAR(g__03513923_037);
-Obj g__03513266_037 = g__03513924_037;
-Obj g__03513925_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513926_037 = PRIM_CDR(g__03513925_037);
-Obj g__03513927_037 = PRIM_ISCONS(g__03513926_037);
-if (True == g__03513927_037) {
-Obj g__03513928_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513929_037 = PRIM_CDR(g__03513928_037);
-Obj g__03513930_037 = PRIM_CAR(g__03513929_037);
-Obj g__03513267_037 = g__03513930_037;
-Obj g__03513931_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513932_037 = PRIM_CDR(g__03513931_037);
-Obj g__03513933_037 = PRIM_CDR(g__03513932_037);
-Obj g__03513934_037 = PRIM_EQ(Nil, g__03513933_037);
-if (True == g__03513934_037) {
-R[1] = g__03513267_037;
+Obj g__03513304_037 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj g__03513957_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513957_037) {
+Obj g__03513958_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513959_037 = PRIM_EQ(getBinding(co, packageID, 134).name, g__03513958_037);
+if (True == g__03513959_037) {
+Obj g__03513960_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513961_037 = PRIM_ISCONS(g__03513960_037);
+if (True == g__03513961_037) {
+Obj g__03513962_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513963_037 = PRIM_CAR(g__03513962_037);
+Obj g__03513305_037 = g__03513963_037;
+Obj g__03513964_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513965_037 = PRIM_CDR(g__03513964_037);
+Obj g__03513966_037 = PRIM_ISCONS(g__03513965_037);
+if (True == g__03513966_037) {
+Obj g__03513967_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513968_037 = PRIM_CDR(g__03513967_037);
+Obj g__03513969_037 = PRIM_CAR(g__03513968_037);
+Obj g__03513306_037 = g__03513969_037;
+Obj g__03513970_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513971_037 = PRIM_CDR(g__03513970_037);
+Obj g__03513972_037 = PRIM_CDR(g__03513971_037);
+Obj g__03513973_037 = PRIM_EQ(Nil, g__03513972_037);
+if (True == g__03513973_037) {
+R[1] = g__03513306_037;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), g__03513266_037, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), g__03513305_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513265_037);
+coraCall0(co, g__03513304_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513265_037);
+coraCall0(co, g__03513304_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513265_037);
+coraCall0(co, g__03513304_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513265_037);
+coraCall0(co, g__03513304_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513265_037);
+coraCall0(co, g__03513304_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03513938_037= co->res;
-Obj g__03513937_037 = R[1];
-Obj g__03513939_037 = makeCons(co->gc, g__03513938_037, Nil);
-Obj g__03513940_037 = makeCons(co->gc, g__03513937_037, g__03513939_037);
-Obj g__03513941_037 = makeCons(co->gc, getBinding(co, packageID, 70).name, g__03513940_037);
-coraReturn(co, g__03513941_037);
+Obj g__03513977_037= co->res;
+Obj g__03513976_037 = R[1];
+Obj g__03513978_037 = makeCons(co->gc, g__03513977_037, Nil);
+Obj g__03513979_037 = makeCons(co->gc, g__03513976_037, g__03513978_037);
+Obj g__03513980_037 = makeCons(co->gc, getBinding(co, packageID, 70).name, g__03513979_037);
+coraReturn(co, g__03513980_037);
 return;
 }
 case 2:
 {
-Obj g__03513935_037= co->res;
-Obj g__03513267_037 = R[1];
-Obj g__03513268_037 = g__03513935_037;
-Obj g__03513936_037 = makeCons(co->gc, g__03513268_037, Nil);
-Obj g__03513937_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513936_037);
-R[1] = g__03513937_037;
+Obj g__03513974_037= co->res;
+Obj g__03513306_037 = R[1];
+Obj g__03513307_037 = g__03513974_037;
+Obj g__03513975_037 = makeCons(co->gc, g__03513307_037, Nil);
+Obj g__03513976_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513975_037);
+R[1] = g__03513976_037;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513267_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03513306_037);
 return;
 }
 }
@@ -1314,9 +1315,9 @@ return;
 }
 case 1:
 {
-Obj g__03513917_037= co->res;
+Obj g__03513956_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), g__03513917_037, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), g__03513956_037, closureRef(R[0], 3));
 return;
 }
 }
@@ -1333,16 +1334,16 @@ return;
 }
 case 1:
 {
-Obj g__03513911_037= co->res;
-Obj g__03513912_037 = primNot(g__03513911_037);
-coraReturn(co, g__03513912_037);
+Obj g__03513950_037= co->res;
+Obj g__03513951_037 = primNot(g__03513950_037);
+coraReturn(co, g__03513951_037);
 return;
 }
 case 2:
 {
-Obj g__03513910_037= co->res;
+Obj g__03513949_037= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513910_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513949_037);
 return;
 }
 }
@@ -1352,44 +1353,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513164_037 = R[1];
-Obj g__03513165_037 = R[2];
-Obj g__03513895_037 = PRIM_EQ(Nil, g__03513165_037);
-if (True == g__03513895_037) {
+Obj g__03513203_037 = R[1];
+Obj g__03513204_037 = R[2];
+Obj g__03513934_037 = PRIM_EQ(Nil, g__03513204_037);
+if (True == g__03513934_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03513252_037 = makeNative(co->gc, 1, clofun82, 0, 2, g__03513165_037, g__03513164_037);
-Obj g__03513899_037 = PRIM_ISCONS(g__03513165_037);
-if (True == g__03513899_037) {
-Obj g__03513900_037 = PRIM_CAR(g__03513165_037);
-Obj g__03513901_037 = PRIM_ISCONS(g__03513900_037);
-if (True == g__03513901_037) {
-Obj g__03513902_037 = PRIM_CAR(g__03513165_037);
-Obj g__03513903_037 = PRIM_CAR(g__03513902_037);
-Obj g__03513254_037 = g__03513903_037;
-Obj g__03513904_037 = PRIM_CAR(g__03513165_037);
-Obj g__03513905_037 = PRIM_CDR(g__03513904_037);
-Obj g__03513255_037 = g__03513905_037;
-Obj g__03513906_037 = PRIM_CDR(g__03513165_037);
-Obj g__03513907_037 = PRIM_EQ(g__03513164_037, g__03513254_037);
-if (True == g__03513907_037) {
-Obj g__03513908_037 = makeCons(co->gc, g__03513254_037, g__03513255_037);
-coraReturn(co, g__03513908_037);
+Obj g__03513291_037 = makeNative(co->gc, 1, clofun82, 0, 2, g__03513204_037, g__03513203_037);
+Obj g__03513938_037 = PRIM_ISCONS(g__03513204_037);
+if (True == g__03513938_037) {
+Obj g__03513939_037 = PRIM_CAR(g__03513204_037);
+Obj g__03513940_037 = PRIM_ISCONS(g__03513939_037);
+if (True == g__03513940_037) {
+Obj g__03513941_037 = PRIM_CAR(g__03513204_037);
+Obj g__03513942_037 = PRIM_CAR(g__03513941_037);
+Obj g__03513293_037 = g__03513942_037;
+Obj g__03513943_037 = PRIM_CAR(g__03513204_037);
+Obj g__03513944_037 = PRIM_CDR(g__03513943_037);
+Obj g__03513294_037 = g__03513944_037;
+Obj g__03513945_037 = PRIM_CDR(g__03513204_037);
+Obj g__03513946_037 = PRIM_EQ(g__03513203_037, g__03513293_037);
+if (True == g__03513946_037) {
+Obj g__03513947_037 = makeCons(co->gc, g__03513293_037, g__03513294_037);
+coraReturn(co, g__03513947_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513252_037);
+coraCall0(co, g__03513291_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513252_037);
+coraCall0(co, g__03513291_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513252_037);
+coraCall0(co, g__03513291_037);
 return;
 }
 }
@@ -1401,13 +1402,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513896_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513896_037) {
-Obj g__03513897_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513898_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513253_037 = g__03513898_037;
+Obj g__03513935_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513935_037) {
+Obj g__03513936_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513937_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513292_037 = g__03513937_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), g__03513253_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), closureRef(R[0], 1), g__03513292_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -1422,27 +1423,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513159_037 = R[1];
-Obj g__03513160_037 = R[2];
-Obj g__03513161_037 = R[3];
-Obj g__03513814_037 = PRIM_EQ(Nil, g__03513161_037);
-if (True == g__03513814_037) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), g__03513159_037, g__03513160_037);
-return;
-} else {
-Obj g__03513815_037 = PRIM_ISCONS(g__03513161_037);
-if (True == g__03513815_037) {
-Obj g__03513816_037 = PRIM_CAR(g__03513161_037);
-Obj g__03513249_037 = g__03513816_037;
-Obj g__03513817_037 = PRIM_CDR(g__03513161_037);
-Obj g__03513250_037 = g__03513817_037;
-R[1] = g__03513249_037;
-R[2] = g__03513159_037;
-R[3] = g__03513160_037;
-R[4] = g__03513250_037;
+Obj g__03513198_037 = R[1];
+Obj g__03513199_037 = R[2];
+Obj g__03513200_037 = R[3];
+Obj g__03513853_037 = PRIM_EQ(Nil, g__03513200_037);
+if (True == g__03513853_037) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 78)), g__03513198_037, g__03513199_037);
+return;
+} else {
+Obj g__03513854_037 = PRIM_ISCONS(g__03513200_037);
+if (True == g__03513854_037) {
+Obj g__03513855_037 = PRIM_CAR(g__03513200_037);
+Obj g__03513288_037 = g__03513855_037;
+Obj g__03513856_037 = PRIM_CDR(g__03513200_037);
+Obj g__03513289_037 = g__03513856_037;
+R[1] = g__03513288_037;
+R[2] = g__03513198_037;
+R[3] = g__03513199_037;
+R[4] = g__03513289_037;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), g__03513249_037, makeString(co->gc, "#*ns-export*", 12));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), g__03513288_037, makeString(co->gc, "#*ns-export*", 12));
 return;
 } else {
 co->ctx.sp = R;
@@ -1453,90 +1454,90 @@ return;
 }
 case 1:
 {
-Obj g__03513824_037= co->res;
+Obj g__03513863_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513824_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513863_037);
 return;
 }
 case 2:
 {
-Obj g__03513823_037= co->res;
-Obj g__03513249_037 = R[1];
+Obj g__03513862_037= co->res;
+Obj g__03513288_037 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), g__03513249_037, g__03513823_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), g__03513288_037, g__03513862_037);
 return;
 }
 case 3:
 {
-Obj g__03513822_037= co->res;
-Obj g__03513249_037 = R[1];
-R[1] = g__03513249_037;
+Obj g__03513861_037= co->res;
+Obj g__03513288_037 = R[1];
+R[1] = g__03513288_037;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeString(co->gc, "#", 1), g__03513822_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeString(co->gc, "#", 1), g__03513861_037);
 return;
 }
 case 4:
 {
-Obj g__03513821_037= co->res;
-Obj g__03513249_037 = R[1];
-Obj g__03513159_037 = R[2];
-Obj g__03513160_037 = R[3];
-Obj g__03513250_037 = R[4];
-if (True == g__03513821_037) {
-R[1] = g__03513249_037;
+Obj g__03513860_037= co->res;
+Obj g__03513288_037 = R[1];
+Obj g__03513198_037 = R[2];
+Obj g__03513199_037 = R[3];
+Obj g__03513289_037 = R[4];
+if (True == g__03513860_037) {
+R[1] = g__03513288_037;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), g__03513159_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), g__03513198_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), g__03513159_037, g__03513160_037, g__03513250_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 73)), g__03513198_037, g__03513199_037, g__03513289_037);
 return;
 }
 }
 case 5:
 {
-Obj g__03513820_037= co->res;
-Obj g__03513249_037 = R[1];
-Obj g__03513159_037 = R[2];
-Obj g__03513160_037 = R[3];
-Obj g__03513250_037 = R[4];
-Obj g__03513251_037 = g__03513820_037;
-R[1] = g__03513249_037;
-R[2] = g__03513159_037;
-R[3] = g__03513160_037;
-R[4] = g__03513250_037;
+Obj g__03513859_037= co->res;
+Obj g__03513288_037 = R[1];
+Obj g__03513198_037 = R[2];
+Obj g__03513199_037 = R[3];
+Obj g__03513289_037 = R[4];
+Obj g__03513290_037 = g__03513859_037;
+R[1] = g__03513288_037;
+R[2] = g__03513198_037;
+R[3] = g__03513199_037;
+R[4] = g__03513289_037;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), g__03513159_037, g__03513251_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), g__03513198_037, g__03513290_037);
 return;
 }
 case 6:
 {
-Obj g__03513819_037= co->res;
-Obj g__03513249_037 = R[1];
-Obj g__03513159_037 = R[2];
-Obj g__03513160_037 = R[3];
-Obj g__03513250_037 = R[4];
-R[1] = g__03513249_037;
-R[2] = g__03513159_037;
-R[3] = g__03513160_037;
-R[4] = g__03513250_037;
+Obj g__03513858_037= co->res;
+Obj g__03513288_037 = R[1];
+Obj g__03513198_037 = R[2];
+Obj g__03513199_037 = R[3];
+Obj g__03513289_037 = R[4];
+R[1] = g__03513288_037;
+R[2] = g__03513198_037;
+R[3] = g__03513199_037;
+R[4] = g__03513289_037;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), g__03513819_037, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), g__03513858_037, Nil);
 return;
 }
 case 7:
 {
-Obj g__03513818_037= co->res;
-Obj g__03513249_037 = R[1];
-Obj g__03513159_037 = R[2];
-Obj g__03513160_037 = R[3];
-Obj g__03513250_037 = R[4];
-R[1] = g__03513249_037;
-R[2] = g__03513159_037;
-R[3] = g__03513160_037;
-R[4] = g__03513250_037;
+Obj g__03513857_037= co->res;
+Obj g__03513288_037 = R[1];
+Obj g__03513198_037 = R[2];
+Obj g__03513199_037 = R[3];
+Obj g__03513289_037 = R[4];
+R[1] = g__03513288_037;
+R[2] = g__03513198_037;
+R[3] = g__03513199_037;
+R[4] = g__03513289_037;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513818_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513857_037);
 return;
 }
 }
@@ -1548,8 +1549,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj g__03513808_037 = PRIM_EQ(v_ns, makeString(co->gc, "", 0));
-if (True == g__03513808_037) {
+Obj g__03513847_037 = PRIM_EQ(v_ns, makeString(co->gc, "", 0));
+if (True == g__03513847_037) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1562,34 +1563,34 @@ return;
 }
 case 1:
 {
-Obj g__03513812_037= co->res;
+Obj g__03513851_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513812_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), g__03513851_037);
 return;
 }
 case 2:
 {
-Obj g__03513811_037= co->res;
+Obj g__03513850_037= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), v_ns, g__03513811_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), v_ns, g__03513850_037);
 return;
 }
 case 3:
 {
-Obj g__03513810_037= co->res;
+Obj g__03513849_037= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeString(co->gc, "#", 1), g__03513810_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 75)), makeString(co->gc, "#", 1), g__03513849_037);
 return;
 }
 case 4:
 {
-Obj g__03513809_037= co->res;
+Obj g__03513848_037= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == g__03513809_037) {
+if (True == g__03513848_037) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1614,27 +1615,27 @@ return;
 }
 case 1:
 {
-Obj g__03513790_037= co->res;
-Obj g__03513248_037 = R[1];
+Obj g__03513829_037= co->res;
+Obj g__03513287_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, g__03513790_037, makeNative(co->gc, 4, clofun78, 3, 1, g__03513248_037));
+coraCall1(co, g__03513829_037, makeNative(co->gc, 4, clofun78, 3, 1, g__03513287_037));
 return;
 }
 case 2:
 {
-Obj g__03513789_037= co->res;
-Obj g__03513248_037 = R[1];
-R[1] = g__03513248_037;
+Obj g__03513828_037= co->res;
+Obj g__03513287_037 = R[1];
+R[1] = g__03513287_037;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), g__03513789_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), g__03513828_037);
 return;
 }
 case 3:
 {
-Obj g__03513788_037= co->res;
+Obj g__03513827_037= co->res;
 Obj v_sexp = R[1];
-Obj g__03513248_037 = g__03513788_037;
-R[1] = g__03513248_037;
+Obj g__03513287_037 = g__03513827_037;
+R[1] = g__03513287_037;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_sexp);
 return;
@@ -1649,41 +1650,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj g__03513791_037 = makeCons(co->gc, makeString(co->gc, "cora/init", 9), v_import);
+Obj g__03513830_037 = makeCons(co->gc, makeString(co->gc, "cora/init", 9), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = g__03513791_037;
+R[3] = g__03513830_037;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj g__03513801_037= co->res;
-Obj g__03513791_037 = R[1];
-Obj g__03513802_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03513801_037);
-Obj g__03513803_037 = makeCons(co->gc, g__03513802_037, Nil);
-Obj g__03513804_037 = makeCons(co->gc, g__03513791_037, g__03513803_037);
-Obj g__03513805_037 = makeCons(co->gc, closureRef(R[0], 0), g__03513804_037);
-Obj g__03513806_037 = makeCons(co->gc, getBinding(co, packageID, 80).name, g__03513805_037);
-coraReturn(co, g__03513806_037);
+Obj g__03513840_037= co->res;
+Obj g__03513830_037 = R[1];
+Obj g__03513841_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03513840_037);
+Obj g__03513842_037 = makeCons(co->gc, g__03513841_037, Nil);
+Obj g__03513843_037 = makeCons(co->gc, g__03513830_037, g__03513842_037);
+Obj g__03513844_037 = makeCons(co->gc, closureRef(R[0], 0), g__03513843_037);
+Obj g__03513845_037 = makeCons(co->gc, getBinding(co, packageID, 80).name, g__03513844_037);
+coraReturn(co, g__03513845_037);
 return;
 }
 case 2:
 {
-Obj g__03513794_037= co->res;
+Obj g__03513833_037= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj g__03513791_037 = R[3];
-Obj g__03513795_037 = makeCons(co->gc, v_export, Nil);
-Obj g__03513796_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03513795_037);
-Obj g__03513797_037 = makeCons(co->gc, g__03513796_037, Nil);
-Obj g__03513798_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03513797_037);
-Obj g__03513799_037 = makeCons(co->gc, getBinding(co, packageID, 134).name, g__03513798_037);
-Obj g__03513800_037 = makeCons(co->gc, g__03513799_037, v_body);
-R[1] = g__03513791_037;
+Obj g__03513830_037 = R[3];
+Obj g__03513834_037 = makeCons(co->gc, v_export, Nil);
+Obj g__03513835_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03513834_037);
+Obj g__03513836_037 = makeCons(co->gc, g__03513835_037, Nil);
+Obj g__03513837_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03513836_037);
+Obj g__03513838_037 = makeCons(co->gc, getBinding(co, packageID, 134).name, g__03513837_037);
+Obj g__03513839_037 = makeCons(co->gc, g__03513838_037, v_body);
+R[1] = g__03513830_037;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513794_037, g__03513800_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513833_037, g__03513839_037);
 return;
 }
 }
@@ -1694,9 +1695,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj g__03513792_037 = makeCons(co->gc, v_imp, Nil);
-Obj g__03513793_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03513792_037);
-coraReturn(co, g__03513793_037);
+Obj g__03513831_037 = makeCons(co->gc, v_imp, Nil);
+Obj g__03513832_037 = makeCons(co->gc, getBinding(co, packageID, 83).name, g__03513831_037);
+coraReturn(co, g__03513832_037);
 return;
 }
 }
@@ -1719,62 +1720,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513152_037 = R[1];
-Obj g__03513153_037 = R[2];
-Obj g__03513154_037 = R[3];
-Obj g__03513155_037 = R[4];
-Obj g__03513242_037 = makeNative(co->gc, 1, clofun74, 0, 4, g__03513154_037, g__03513152_037, g__03513153_037, g__03513155_037);
-Obj g__03513768_037 = PRIM_ISCONS(g__03513152_037);
-if (True == g__03513768_037) {
-Obj g__03513769_037 = PRIM_CAR(g__03513152_037);
-Obj g__03513770_037 = PRIM_ISCONS(g__03513769_037);
-if (True == g__03513770_037) {
-Obj g__03513771_037 = PRIM_CAR(g__03513152_037);
-Obj g__03513772_037 = PRIM_CAR(g__03513771_037);
-Obj g__03513773_037 = PRIM_EQ(getBinding(co, packageID, 83).name, g__03513772_037);
-if (True == g__03513773_037) {
-Obj g__03513774_037 = PRIM_CAR(g__03513152_037);
-Obj g__03513775_037 = PRIM_CDR(g__03513774_037);
-Obj g__03513776_037 = PRIM_ISCONS(g__03513775_037);
-if (True == g__03513776_037) {
-Obj g__03513777_037 = PRIM_CAR(g__03513152_037);
-Obj g__03513778_037 = PRIM_CDR(g__03513777_037);
-Obj g__03513779_037 = PRIM_CAR(g__03513778_037);
-Obj g__03513246_037 = g__03513779_037;
-Obj g__03513780_037 = PRIM_CAR(g__03513152_037);
-Obj g__03513781_037 = PRIM_CDR(g__03513780_037);
-Obj g__03513782_037 = PRIM_CDR(g__03513781_037);
-Obj g__03513783_037 = PRIM_EQ(Nil, g__03513782_037);
-if (True == g__03513783_037) {
-Obj g__03513784_037 = PRIM_CDR(g__03513152_037);
-Obj g__03513247_037 = g__03513784_037;
-Obj g__03513785_037 = makeCons(co->gc, g__03513246_037, g__03513153_037);
+Obj g__03513191_037 = R[1];
+Obj g__03513192_037 = R[2];
+Obj g__03513193_037 = R[3];
+Obj g__03513194_037 = R[4];
+Obj g__03513281_037 = makeNative(co->gc, 1, clofun74, 0, 4, g__03513193_037, g__03513191_037, g__03513192_037, g__03513194_037);
+Obj g__03513807_037 = PRIM_ISCONS(g__03513191_037);
+if (True == g__03513807_037) {
+Obj g__03513808_037 = PRIM_CAR(g__03513191_037);
+Obj g__03513809_037 = PRIM_ISCONS(g__03513808_037);
+if (True == g__03513809_037) {
+Obj g__03513810_037 = PRIM_CAR(g__03513191_037);
+Obj g__03513811_037 = PRIM_CAR(g__03513810_037);
+Obj g__03513812_037 = PRIM_EQ(getBinding(co, packageID, 83).name, g__03513811_037);
+if (True == g__03513812_037) {
+Obj g__03513813_037 = PRIM_CAR(g__03513191_037);
+Obj g__03513814_037 = PRIM_CDR(g__03513813_037);
+Obj g__03513815_037 = PRIM_ISCONS(g__03513814_037);
+if (True == g__03513815_037) {
+Obj g__03513816_037 = PRIM_CAR(g__03513191_037);
+Obj g__03513817_037 = PRIM_CDR(g__03513816_037);
+Obj g__03513818_037 = PRIM_CAR(g__03513817_037);
+Obj g__03513285_037 = g__03513818_037;
+Obj g__03513819_037 = PRIM_CAR(g__03513191_037);
+Obj g__03513820_037 = PRIM_CDR(g__03513819_037);
+Obj g__03513821_037 = PRIM_CDR(g__03513820_037);
+Obj g__03513822_037 = PRIM_EQ(Nil, g__03513821_037);
+if (True == g__03513822_037) {
+Obj g__03513823_037 = PRIM_CDR(g__03513191_037);
+Obj g__03513286_037 = g__03513823_037;
+Obj g__03513824_037 = makeCons(co->gc, g__03513285_037, g__03513192_037);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), g__03513247_037, g__03513785_037, g__03513154_037, g__03513155_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), g__03513286_037, g__03513824_037, g__03513193_037, g__03513194_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513242_037);
+coraCall0(co, g__03513281_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513242_037);
+coraCall0(co, g__03513281_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513242_037);
+coraCall0(co, g__03513281_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513242_037);
+coraCall0(co, g__03513281_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513242_037);
+coraCall0(co, g__03513281_037);
 return;
 }
 }
@@ -1785,37 +1786,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513243_037 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03513759_037 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == g__03513759_037) {
-Obj g__03513760_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03513761_037 = PRIM_ISCONS(g__03513760_037);
-if (True == g__03513761_037) {
-Obj g__03513762_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03513763_037 = PRIM_CAR(g__03513762_037);
-Obj g__03513764_037 = PRIM_EQ(getBinding(co, packageID, 84).name, g__03513763_037);
-if (True == g__03513764_037) {
-Obj g__03513765_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03513766_037 = PRIM_CDR(g__03513765_037);
-Obj g__03513244_037 = g__03513766_037;
-Obj g__03513767_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03513245_037 = g__03513767_037;
+Obj g__03513282_037 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03513798_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03513798_037) {
+Obj g__03513799_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513800_037 = PRIM_ISCONS(g__03513799_037);
+if (True == g__03513800_037) {
+Obj g__03513801_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513802_037 = PRIM_CAR(g__03513801_037);
+Obj g__03513803_037 = PRIM_EQ(getBinding(co, packageID, 84).name, g__03513802_037);
+if (True == g__03513803_037) {
+Obj g__03513804_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513805_037 = PRIM_CDR(g__03513804_037);
+Obj g__03513283_037 = g__03513805_037;
+Obj g__03513806_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03513284_037 = g__03513806_037;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), g__03513245_037, closureRef(R[0], 2), g__03513244_037, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 85)), g__03513284_037, closureRef(R[0], 2), g__03513283_037, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513243_037);
+coraCall0(co, g__03513282_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513243_037);
+coraCall0(co, g__03513282_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513243_037);
+coraCall0(co, g__03513282_037);
 return;
 }
 }
@@ -1832,9 +1833,9 @@ return;
 }
 case 1:
 {
-Obj g__03513758_037= co->res;
+Obj g__03513797_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), g__03513758_037, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), g__03513797_037, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1852,17 +1853,17 @@ return;
 }
 case 1:
 {
-Obj g__03513756_037= co->res;
-Obj g__03513755_037 = R[1];
+Obj g__03513795_037= co->res;
+Obj g__03513794_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), g__03513755_037, g__03513756_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), g__03513794_037, g__03513795_037);
 return;
 }
 case 2:
 {
-Obj g__03513755_037= co->res;
+Obj g__03513794_037= co->res;
 Obj v_exp = R[1];
-R[1] = g__03513755_037;
+R[1] = g__03513794_037;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
@@ -1884,57 +1885,57 @@ return;
 }
 case 1:
 {
-Obj g__03513744_037= co->res;
-Obj g__03513743_037 = R[1];
+Obj g__03513783_037= co->res;
+Obj g__03513782_037 = R[1];
 Obj v_fn = R[2];
-Obj g__03513745_037 = makeCons(co->gc, g__03513744_037, Nil);
-Obj g__03513746_037 = makeCons(co->gc, g__03513743_037, g__03513745_037);
-Obj g__03513747_037 = makeCons(co->gc, v_fn, g__03513746_037);
-coraReturn(co, g__03513747_037);
+Obj g__03513784_037 = makeCons(co->gc, g__03513783_037, Nil);
+Obj g__03513785_037 = makeCons(co->gc, g__03513782_037, g__03513784_037);
+Obj g__03513786_037 = makeCons(co->gc, v_fn, g__03513785_037);
+coraReturn(co, g__03513786_037);
 return;
 }
 case 2:
 {
-Obj g__03513750_037= co->res;
-Obj g__03513748_037 = R[1];
+Obj g__03513789_037= co->res;
+Obj g__03513787_037 = R[1];
 Obj v_fn = R[2];
-Obj g__03513751_037 = makeCons(co->gc, g__03513750_037, Nil);
-Obj g__03513752_037 = makeCons(co->gc, g__03513748_037, g__03513751_037);
-Obj g__03513753_037 = makeCons(co->gc, v_fn, g__03513752_037);
-coraReturn(co, g__03513753_037);
+Obj g__03513790_037 = makeCons(co->gc, g__03513789_037, Nil);
+Obj g__03513791_037 = makeCons(co->gc, g__03513787_037, g__03513790_037);
+Obj g__03513792_037 = makeCons(co->gc, v_fn, g__03513791_037);
+coraReturn(co, g__03513792_037);
 return;
 }
 case 3:
 {
-Obj g__03513742_037= co->res;
+Obj g__03513781_037= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == g__03513742_037) {
-Obj g__03513743_037 = PRIM_CAR(v_arglist);
-R[1] = g__03513743_037;
+if (True == g__03513781_037) {
+Obj g__03513782_037 = PRIM_CAR(v_arglist);
+R[1] = g__03513782_037;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_arglist);
 return;
 } else {
-Obj g__03513748_037 = PRIM_CAR(v_arglist);
-Obj g__03513749_037 = PRIM_CDR(v_arglist);
-R[1] = g__03513748_037;
+Obj g__03513787_037 = PRIM_CAR(v_arglist);
+Obj g__03513788_037 = PRIM_CDR(v_arglist);
+R[1] = g__03513787_037;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_fn, g__03513749_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 87)), v_fn, g__03513788_037);
 return;
 }
 }
 case 4:
 {
-Obj g__03513741_037= co->res;
+Obj g__03513780_037= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513741_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513780_037);
 return;
 }
 }
@@ -1951,9 +1952,9 @@ return;
 }
 case 1:
 {
-Obj g__03513739_037= co->res;
+Obj g__03513778_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), g__03513739_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 90)), g__03513778_037);
 return;
 }
 }
@@ -1963,50 +1964,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513147_037 = R[1];
-Obj g__03513719_037 = primIsSymbol(g__03513147_037);
-if (True == g__03513719_037) {
-Obj g__03513720_037 = makeCons(co->gc, g__03513147_037, Nil);
-Obj g__03513721_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513720_037);
-coraReturn(co, g__03513721_037);
-return;
-} else {
-Obj g__03513238_037 = makeNative(co->gc, 1, clofun68, 0, 1, g__03513147_037);
-Obj g__03513728_037 = PRIM_ISCONS(g__03513147_037);
-if (True == g__03513728_037) {
-Obj g__03513729_037 = PRIM_CAR(g__03513147_037);
-Obj g__03513730_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03513729_037);
-if (True == g__03513730_037) {
-Obj g__03513731_037 = PRIM_CDR(g__03513147_037);
-Obj g__03513732_037 = PRIM_ISCONS(g__03513731_037);
-if (True == g__03513732_037) {
-Obj g__03513733_037 = PRIM_CDR(g__03513147_037);
-Obj g__03513734_037 = PRIM_CAR(g__03513733_037);
-Obj g__03513241_037 = g__03513734_037;
-Obj g__03513735_037 = PRIM_CDR(g__03513147_037);
-Obj g__03513736_037 = PRIM_CDR(g__03513735_037);
-Obj g__03513737_037 = PRIM_EQ(Nil, g__03513736_037);
-if (True == g__03513737_037) {
-coraReturn(co, g__03513241_037);
+Obj g__03513186_037 = R[1];
+Obj g__03513758_037 = primIsSymbol(g__03513186_037);
+if (True == g__03513758_037) {
+Obj g__03513759_037 = makeCons(co->gc, g__03513186_037, Nil);
+Obj g__03513760_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513759_037);
+coraReturn(co, g__03513760_037);
+return;
+} else {
+Obj g__03513277_037 = makeNative(co->gc, 1, clofun68, 0, 1, g__03513186_037);
+Obj g__03513767_037 = PRIM_ISCONS(g__03513186_037);
+if (True == g__03513767_037) {
+Obj g__03513768_037 = PRIM_CAR(g__03513186_037);
+Obj g__03513769_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03513768_037);
+if (True == g__03513769_037) {
+Obj g__03513770_037 = PRIM_CDR(g__03513186_037);
+Obj g__03513771_037 = PRIM_ISCONS(g__03513770_037);
+if (True == g__03513771_037) {
+Obj g__03513772_037 = PRIM_CDR(g__03513186_037);
+Obj g__03513773_037 = PRIM_CAR(g__03513772_037);
+Obj g__03513280_037 = g__03513773_037;
+Obj g__03513774_037 = PRIM_CDR(g__03513186_037);
+Obj g__03513775_037 = PRIM_CDR(g__03513774_037);
+Obj g__03513776_037 = PRIM_EQ(Nil, g__03513775_037);
+if (True == g__03513776_037) {
+coraReturn(co, g__03513280_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513238_037);
+coraCall0(co, g__03513277_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513238_037);
+coraCall0(co, g__03513277_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513238_037);
+coraCall0(co, g__03513277_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513238_037);
+coraCall0(co, g__03513277_037);
 return;
 }
 }
@@ -2018,15 +2019,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513722_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513722_037) {
-Obj g__03513723_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513239_037 = g__03513723_037;
-Obj g__03513724_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513240_037 = g__03513724_037;
-Obj g__03513725_037 = makeCons(co->gc, g__03513239_037, g__03513240_037);
+Obj g__03513761_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513761_037) {
+Obj g__03513762_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513278_037 = g__03513762_037;
+Obj g__03513763_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513279_037 = g__03513763_037;
+Obj g__03513764_037 = makeCons(co->gc, g__03513278_037, g__03513279_037);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), g__03513725_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 90)), g__03513764_037);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2035,9 +2036,9 @@ return;
 }
 case 1:
 {
-Obj g__03513726_037= co->res;
-Obj g__03513727_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513726_037);
-coraReturn(co, g__03513727_037);
+Obj g__03513765_037= co->res;
+Obj g__03513766_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513765_037);
+coraReturn(co, g__03513766_037);
 return;
 }
 }
@@ -2048,9 +2049,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513717_037 = PRIM_CDR(v_exp);
+Obj g__03513756_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03513717_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03513756_037);
 return;
 }
 }
@@ -2060,25 +2061,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513143_037 = R[1];
-Obj g__03513231_037 = makeNative(co->gc, 1, clofun65, 0, 1, g__03513143_037);
-Obj g__03513712_037 = PRIM_ISCONS(g__03513143_037);
-if (True == g__03513712_037) {
-Obj g__03513713_037 = PRIM_CAR(g__03513143_037);
-Obj g__03513237_037 = g__03513713_037;
-Obj g__03513714_037 = PRIM_CDR(g__03513143_037);
-Obj g__03513715_037 = PRIM_EQ(Nil, g__03513714_037);
-if (True == g__03513715_037) {
-coraReturn(co, g__03513237_037);
+Obj g__03513182_037 = R[1];
+Obj g__03513270_037 = makeNative(co->gc, 1, clofun65, 0, 1, g__03513182_037);
+Obj g__03513751_037 = PRIM_ISCONS(g__03513182_037);
+if (True == g__03513751_037) {
+Obj g__03513752_037 = PRIM_CAR(g__03513182_037);
+Obj g__03513276_037 = g__03513752_037;
+Obj g__03513753_037 = PRIM_CDR(g__03513182_037);
+Obj g__03513754_037 = PRIM_EQ(Nil, g__03513753_037);
+if (True == g__03513754_037) {
+coraReturn(co, g__03513276_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513231_037);
+coraCall0(co, g__03513270_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513231_037);
+coraCall0(co, g__03513270_037);
 return;
 }
 }
@@ -2089,39 +2090,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513232_037 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj g__03513700_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513700_037) {
-Obj g__03513701_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513235_037 = g__03513701_037;
-Obj g__03513702_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513703_037 = PRIM_ISCONS(g__03513702_037);
-if (True == g__03513703_037) {
-Obj g__03513704_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513705_037 = PRIM_CAR(g__03513704_037);
-Obj g__03513236_037 = g__03513705_037;
-Obj g__03513706_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513707_037 = PRIM_CDR(g__03513706_037);
-Obj g__03513708_037 = PRIM_EQ(Nil, g__03513707_037);
-if (True == g__03513708_037) {
-Obj g__03513709_037 = makeCons(co->gc, g__03513236_037, Nil);
-Obj g__03513710_037 = makeCons(co->gc, g__03513235_037, g__03513709_037);
-Obj g__03513711_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03513710_037);
-coraReturn(co, g__03513711_037);
+Obj g__03513271_037 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj g__03513739_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513739_037) {
+Obj g__03513740_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513274_037 = g__03513740_037;
+Obj g__03513741_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513742_037 = PRIM_ISCONS(g__03513741_037);
+if (True == g__03513742_037) {
+Obj g__03513743_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513744_037 = PRIM_CAR(g__03513743_037);
+Obj g__03513275_037 = g__03513744_037;
+Obj g__03513745_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513746_037 = PRIM_CDR(g__03513745_037);
+Obj g__03513747_037 = PRIM_EQ(Nil, g__03513746_037);
+if (True == g__03513747_037) {
+Obj g__03513748_037 = makeCons(co->gc, g__03513275_037, Nil);
+Obj g__03513749_037 = makeCons(co->gc, g__03513274_037, g__03513748_037);
+Obj g__03513750_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03513749_037);
+coraReturn(co, g__03513750_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513232_037);
+coraCall0(co, g__03513271_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513232_037);
+coraCall0(co, g__03513271_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513232_037);
+coraCall0(co, g__03513271_037);
 return;
 }
 }
@@ -2132,15 +2133,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513693_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513693_037) {
-Obj g__03513694_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513233_037 = g__03513694_037;
-Obj g__03513695_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513234_037 = g__03513695_037;
-R[1] = g__03513233_037;
+Obj g__03513732_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513732_037) {
+Obj g__03513733_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513272_037 = g__03513733_037;
+Obj g__03513734_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513273_037 = g__03513734_037;
+R[1] = g__03513272_037;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03513234_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03513273_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -2150,12 +2151,12 @@ return;
 }
 case 1:
 {
-Obj g__03513696_037= co->res;
-Obj g__03513233_037 = R[1];
-Obj g__03513697_037 = makeCons(co->gc, g__03513696_037, Nil);
-Obj g__03513698_037 = makeCons(co->gc, g__03513233_037, g__03513697_037);
-Obj g__03513699_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03513698_037);
-coraReturn(co, g__03513699_037);
+Obj g__03513735_037= co->res;
+Obj g__03513272_037 = R[1];
+Obj g__03513736_037 = makeCons(co->gc, g__03513735_037, Nil);
+Obj g__03513737_037 = makeCons(co->gc, g__03513272_037, g__03513736_037);
+Obj g__03513738_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03513737_037);
+coraReturn(co, g__03513738_037);
 return;
 }
 }
@@ -2172,16 +2173,16 @@ return;
 }
 case 1:
 {
-Obj g__03513691_037= co->res;
+Obj g__03513730_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), g__03513691_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), g__03513730_037);
 return;
 }
 case 2:
 {
-Obj g__03513690_037= co->res;
+Obj g__03513729_037= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), g__03513690_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), g__03513729_037);
 return;
 }
 }
@@ -2222,61 +2223,61 @@ return;
 }
 case 1:
 {
-Obj g__03513679_037= co->res;
-Obj g__03513228_037 = R[1];
-Obj g__03513230_037 = R[2];
-Obj g__03513680_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513230_037);
-Obj g__03513681_037 = makeCons(co->gc, g__03513680_037, g__03513228_037);
-Obj g__03513682_037 = makeCons(co->gc, getBinding(co, packageID, 109).name, g__03513681_037);
-Obj g__03513683_037 = makeCons(co->gc, g__03513682_037, Nil);
-Obj g__03513684_037 = makeCons(co->gc, g__03513230_037, g__03513683_037);
-Obj g__03513685_037 = makeCons(co->gc, g__03513679_037, g__03513684_037);
-Obj g__03513686_037 = makeCons(co->gc, getBinding(co, packageID, 135).name, g__03513685_037);
-coraReturn(co, g__03513686_037);
+Obj g__03513718_037= co->res;
+Obj g__03513267_037 = R[1];
+Obj g__03513269_037 = R[2];
+Obj g__03513719_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513269_037);
+Obj g__03513720_037 = makeCons(co->gc, g__03513719_037, g__03513267_037);
+Obj g__03513721_037 = makeCons(co->gc, getBinding(co, packageID, 109).name, g__03513720_037);
+Obj g__03513722_037 = makeCons(co->gc, g__03513721_037, Nil);
+Obj g__03513723_037 = makeCons(co->gc, g__03513269_037, g__03513722_037);
+Obj g__03513724_037 = makeCons(co->gc, g__03513718_037, g__03513723_037);
+Obj g__03513725_037 = makeCons(co->gc, getBinding(co, packageID, 135).name, g__03513724_037);
+coraReturn(co, g__03513725_037);
 return;
 }
 case 2:
 {
-Obj g__03513678_037= co->res;
+Obj g__03513717_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513228_037 = R[2];
-Obj g__03513230_037 = g__03513678_037;
-R[1] = g__03513228_037;
-R[2] = g__03513230_037;
+Obj g__03513267_037 = R[2];
+Obj g__03513269_037 = g__03513717_037;
+R[1] = g__03513267_037;
+R[2] = g__03513269_037;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 3:
 {
-Obj g__03513677_037= co->res;
+Obj g__03513716_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513228_037 = R[2];
-Obj g__03513229_037 = g__03513677_037;
+Obj g__03513267_037 = R[2];
+Obj g__03513268_037 = g__03513716_037;
 R[1] = v_exp;
-R[2] = g__03513228_037;
+R[2] = g__03513267_037;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), g__03513229_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), g__03513268_037);
 return;
 }
 case 4:
 {
-Obj g__03513676_037= co->res;
+Obj g__03513715_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513228_037 = g__03513676_037;
+Obj g__03513267_037 = g__03513715_037;
 R[1] = v_exp;
-R[2] = g__03513228_037;
+R[2] = g__03513267_037;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), g__03513228_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), g__03513267_037);
 return;
 }
 case 5:
 {
-Obj g__03513675_037= co->res;
+Obj g__03513714_037= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), g__03513675_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 106)), g__03513714_037);
 return;
 }
 }
@@ -2287,25 +2288,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj g__03513669_037 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == g__03513669_037) {
+Obj g__03513708_037 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == g__03513708_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03513670_037 = primGenSym(co);
-Obj g__03513671_037 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = g__03513670_037;
+Obj g__03513709_037 = primGenSym(co);
+Obj g__03513710_037 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = g__03513709_037;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), g__03513671_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 98)), g__03513710_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03513672_037= co->res;
-Obj g__03513670_037 = R[1];
-Obj g__03513673_037 = makeCons(co->gc, g__03513670_037, g__03513672_037);
-coraReturn(co, g__03513673_037);
+Obj g__03513711_037= co->res;
+Obj g__03513709_037 = R[1];
+Obj g__03513712_037 = makeCons(co->gc, g__03513709_037, g__03513711_037);
+coraReturn(co, g__03513712_037);
 return;
 }
 }
@@ -2322,45 +2323,45 @@ return;
 }
 case 1:
 {
-Obj g__03513666_037= co->res;
-Obj g__03513227_037 = R[1];
-Obj g__03513667_037 = primNot(g__03513666_037);
-if (True == g__03513667_037) {
+Obj g__03513705_037= co->res;
+Obj g__03513266_037 = R[1];
+Obj g__03513706_037 = primNot(g__03513705_037);
+if (True == g__03513706_037) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeString(co->gc, "inconsistent func rule args count", 33));
 return;
 } else {
-coraReturn(co, g__03513227_037);
+coraReturn(co, g__03513266_037);
 return;
 }
 }
 case 2:
 {
-Obj g__03513665_037= co->res;
-Obj g__03513227_037 = R[1];
-R[1] = g__03513227_037;
+Obj g__03513704_037= co->res;
+Obj g__03513266_037 = R[1];
+R[1] = g__03513266_037;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513665_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513704_037);
 return;
 }
 case 3:
 {
-Obj g__03513660_037= co->res;
-Obj g__03513226_037 = g__03513660_037;
-Obj g__03513661_037 = PRIM_CAR(g__03513226_037);
-Obj g__03513227_037 = g__03513661_037;
-Obj g__03513664_037 = PRIM_CDR(g__03513226_037);
-R[1] = g__03513227_037;
+Obj g__03513699_037= co->res;
+Obj g__03513265_037 = g__03513699_037;
+Obj g__03513700_037 = PRIM_CAR(g__03513265_037);
+Obj g__03513266_037 = g__03513700_037;
+Obj g__03513703_037 = PRIM_CDR(g__03513265_037);
+R[1] = g__03513266_037;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, g__03513227_037), g__03513664_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 101)), makeNative(co->gc, 2, clofun57, 1, 1, g__03513266_037), g__03513703_037);
 return;
 }
 case 4:
 {
-Obj g__03513658_037= co->res;
-Obj g__03513225_037 = g__03513658_037;
+Obj g__03513697_037= co->res;
+Obj g__03513264_037 = g__03513697_037;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), g__03513225_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun56, 1, 0), g__03513264_037);
 return;
 }
 }
@@ -2371,9 +2372,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513662_037 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj g__03513663_037 = primNot(g__03513662_037);
-coraReturn(co, g__03513663_037);
+Obj g__03513701_037 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj g__03513702_037 = primNot(g__03513701_037);
+coraReturn(co, g__03513702_037);
 return;
 }
 }
@@ -2384,9 +2385,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513659_037 = PRIM_CDR(v_x);
+Obj g__03513698_037 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), g__03513659_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), g__03513698_037);
 return;
 }
 }
@@ -2398,25 +2399,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj g__03513652_037 = PRIM_EQ(v_l1, Nil);
-if (True == g__03513652_037) {
+Obj g__03513691_037 = PRIM_EQ(v_l1, Nil);
+if (True == g__03513691_037) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj g__03513653_037 = PRIM_CAR(v_l1);
-Obj g__03513654_037 = PRIM_CDR(v_l1);
-R[1] = g__03513653_037;
+Obj g__03513692_037 = PRIM_CAR(v_l1);
+Obj g__03513693_037 = PRIM_CDR(v_l1);
+R[1] = g__03513692_037;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513654_037, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 100)), g__03513693_037, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj g__03513655_037= co->res;
-Obj g__03513653_037 = R[1];
-Obj g__03513656_037 = makeCons(co->gc, g__03513653_037, g__03513655_037);
-coraReturn(co, g__03513656_037);
+Obj g__03513694_037= co->res;
+Obj g__03513692_037 = R[1];
+Obj g__03513695_037 = makeCons(co->gc, g__03513692_037, g__03513694_037);
+coraReturn(co, g__03513695_037);
 return;
 }
 }
@@ -2442,14 +2443,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj g__03513643_037 = PRIM_ISCONS(v_l);
-if (True == g__03513643_037) {
-Obj g__03513644_037 = PRIM_CAR(v_l);
+Obj g__03513682_037 = PRIM_ISCONS(v_l);
+if (True == g__03513682_037) {
+Obj g__03513683_037 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, g__03513644_037);
+coraCall1(co, v_fn, g__03513683_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -2459,21 +2460,21 @@ return;
 }
 case 1:
 {
-Obj g__03513645_037= co->res;
+Obj g__03513684_037= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == g__03513645_037) {
-Obj g__03513646_037 = PRIM_CAR(v_l);
-Obj g__03513647_037 = makeCons(co->gc, g__03513646_037, v_res);
-Obj g__03513648_037 = PRIM_CDR(v_l);
+if (True == g__03513684_037) {
+Obj g__03513685_037 = PRIM_CAR(v_l);
+Obj g__03513686_037 = makeCons(co->gc, g__03513685_037, v_res);
+Obj g__03513687_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), g__03513647_037, v_fn, g__03513648_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), g__03513686_037, v_fn, g__03513687_037);
 return;
 } else {
-Obj g__03513649_037 = PRIM_CDR(v_l);
+Obj g__03513688_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), v_res, v_fn, g__03513649_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 102)), v_res, v_fn, g__03513688_037);
 return;
 }
 }
@@ -2498,15 +2499,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj g__03513638_037 = PRIM_EQ(v_l, Nil);
-if (True == g__03513638_037) {
+Obj g__03513677_037 = PRIM_EQ(v_l, Nil);
+if (True == g__03513677_037) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj g__03513639_037 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj g__03513640_037 = PRIM_CDR(v_l);
+Obj g__03513678_037 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj g__03513679_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), g__03513639_037, g__03513640_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 104)), g__03513678_037, g__03513679_037);
 return;
 }
 }
@@ -2527,25 +2528,25 @@ return;
 }
 case 1:
 {
-Obj g__03513636_037= co->res;
-Obj g__03513635_037 = R[1];
+Obj g__03513675_037= co->res;
+Obj g__03513674_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), g__03513635_037, g__03513636_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 105)), g__03513674_037, g__03513675_037);
 return;
 }
 case 2:
 {
-Obj g__03513633_037= co->res;
+Obj g__03513672_037= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == g__03513633_037) {
+if (True == g__03513672_037) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 } else {
-Obj g__03513634_037 = PRIM_CAR(v_rules);
-Obj g__03513635_037 = makeCons(co->gc, g__03513634_037, v_res);
-R[1] = g__03513635_037;
+Obj g__03513673_037 = PRIM_CAR(v_rules);
+Obj g__03513674_037 = makeCons(co->gc, g__03513673_037, v_res);
+R[1] = g__03513674_037;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_rules);
 return;
@@ -2573,103 +2574,103 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj g__03513580_037 = PRIM_EQ(Nil, v_input);
-if (True == g__03513580_037) {
+Obj g__03513619_037 = PRIM_EQ(Nil, v_input);
+if (True == g__03513619_037) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_result);
 return;
 } else {
-Obj g__03513214_037 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj g__03513598_037 = PRIM_ISCONS(v_input);
-if (True == g__03513598_037) {
-Obj g__03513599_037 = PRIM_CAR(v_input);
-Obj g__03513600_037 = PRIM_EQ(getBinding(co, packageID, 107).name, g__03513599_037);
-if (True == g__03513600_037) {
-Obj g__03513601_037 = PRIM_CDR(v_input);
-Obj g__03513602_037 = PRIM_ISCONS(g__03513601_037);
-if (True == g__03513602_037) {
-Obj g__03513603_037 = PRIM_CDR(v_input);
-Obj g__03513604_037 = PRIM_CAR(g__03513603_037);
-Obj g__03513221_037 = g__03513604_037;
-Obj g__03513605_037 = PRIM_CDR(v_input);
-Obj g__03513606_037 = PRIM_CDR(g__03513605_037);
-Obj g__03513607_037 = PRIM_ISCONS(g__03513606_037);
-if (True == g__03513607_037) {
-Obj g__03513608_037 = PRIM_CDR(v_input);
-Obj g__03513609_037 = PRIM_CDR(g__03513608_037);
-Obj g__03513610_037 = PRIM_CAR(g__03513609_037);
-Obj g__03513611_037 = PRIM_EQ(getBinding(co, packageID, 112).name, g__03513610_037);
-if (True == g__03513611_037) {
-Obj g__03513612_037 = PRIM_CDR(v_input);
-Obj g__03513613_037 = PRIM_CDR(g__03513612_037);
-Obj g__03513614_037 = PRIM_CDR(g__03513613_037);
-Obj g__03513615_037 = PRIM_ISCONS(g__03513614_037);
-if (True == g__03513615_037) {
-Obj g__03513616_037 = PRIM_CDR(v_input);
-Obj g__03513617_037 = PRIM_CDR(g__03513616_037);
-Obj g__03513618_037 = PRIM_CDR(g__03513617_037);
-Obj g__03513619_037 = PRIM_CAR(g__03513618_037);
-Obj g__03513222_037 = g__03513619_037;
-Obj g__03513620_037 = PRIM_CDR(v_input);
-Obj g__03513621_037 = PRIM_CDR(g__03513620_037);
-Obj g__03513622_037 = PRIM_CDR(g__03513621_037);
-Obj g__03513623_037 = PRIM_CDR(g__03513622_037);
-Obj g__03513223_037 = g__03513623_037;
-R[1] = g__03513221_037;
-R[2] = g__03513222_037;
+Obj g__03513253_037 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj g__03513637_037 = PRIM_ISCONS(v_input);
+if (True == g__03513637_037) {
+Obj g__03513638_037 = PRIM_CAR(v_input);
+Obj g__03513639_037 = PRIM_EQ(getBinding(co, packageID, 107).name, g__03513638_037);
+if (True == g__03513639_037) {
+Obj g__03513640_037 = PRIM_CDR(v_input);
+Obj g__03513641_037 = PRIM_ISCONS(g__03513640_037);
+if (True == g__03513641_037) {
+Obj g__03513642_037 = PRIM_CDR(v_input);
+Obj g__03513643_037 = PRIM_CAR(g__03513642_037);
+Obj g__03513260_037 = g__03513643_037;
+Obj g__03513644_037 = PRIM_CDR(v_input);
+Obj g__03513645_037 = PRIM_CDR(g__03513644_037);
+Obj g__03513646_037 = PRIM_ISCONS(g__03513645_037);
+if (True == g__03513646_037) {
+Obj g__03513647_037 = PRIM_CDR(v_input);
+Obj g__03513648_037 = PRIM_CDR(g__03513647_037);
+Obj g__03513649_037 = PRIM_CAR(g__03513648_037);
+Obj g__03513650_037 = PRIM_EQ(getBinding(co, packageID, 112).name, g__03513649_037);
+if (True == g__03513650_037) {
+Obj g__03513651_037 = PRIM_CDR(v_input);
+Obj g__03513652_037 = PRIM_CDR(g__03513651_037);
+Obj g__03513653_037 = PRIM_CDR(g__03513652_037);
+Obj g__03513654_037 = PRIM_ISCONS(g__03513653_037);
+if (True == g__03513654_037) {
+Obj g__03513655_037 = PRIM_CDR(v_input);
+Obj g__03513656_037 = PRIM_CDR(g__03513655_037);
+Obj g__03513657_037 = PRIM_CDR(g__03513656_037);
+Obj g__03513658_037 = PRIM_CAR(g__03513657_037);
+Obj g__03513261_037 = g__03513658_037;
+Obj g__03513659_037 = PRIM_CDR(v_input);
+Obj g__03513660_037 = PRIM_CDR(g__03513659_037);
+Obj g__03513661_037 = PRIM_CDR(g__03513660_037);
+Obj g__03513662_037 = PRIM_CDR(g__03513661_037);
+Obj g__03513262_037 = g__03513662_037;
+R[1] = g__03513260_037;
+R[2] = g__03513261_037;
 R[3] = v_result;
-R[4] = g__03513223_037;
+R[4] = g__03513262_037;
 saveCont(co, clofun48, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513214_037);
+coraCall0(co, g__03513253_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513214_037);
+coraCall0(co, g__03513253_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513214_037);
+coraCall0(co, g__03513253_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513214_037);
+coraCall0(co, g__03513253_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513214_037);
+coraCall0(co, g__03513253_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513214_037);
+coraCall0(co, g__03513253_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03513624_037= co->res;
-Obj g__03513221_037 = R[1];
-Obj g__03513222_037 = R[2];
+Obj g__03513663_037= co->res;
+Obj g__03513260_037 = R[1];
+Obj g__03513261_037 = R[2];
 Obj v_result = R[3];
-Obj g__03513223_037 = R[4];
-Obj g__03513625_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513624_037);
-Obj g__03513224_037 = g__03513625_037;
-Obj g__03513626_037 = makeCons(co->gc, g__03513221_037, Nil);
-Obj g__03513627_037 = makeCons(co->gc, g__03513222_037, g__03513626_037);
-Obj g__03513628_037 = makeCons(co->gc, getBinding(co, packageID, 112).name, g__03513627_037);
-Obj g__03513629_037 = makeCons(co->gc, g__03513224_037, v_result);
-Obj g__03513630_037 = makeCons(co->gc, g__03513628_037, g__03513629_037);
+Obj g__03513262_037 = R[4];
+Obj g__03513664_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513663_037);
+Obj g__03513263_037 = g__03513664_037;
+Obj g__03513665_037 = makeCons(co->gc, g__03513260_037, Nil);
+Obj g__03513666_037 = makeCons(co->gc, g__03513261_037, g__03513665_037);
+Obj g__03513667_037 = makeCons(co->gc, getBinding(co, packageID, 112).name, g__03513666_037);
+Obj g__03513668_037 = makeCons(co->gc, g__03513263_037, v_result);
+Obj g__03513669_037 = makeCons(co->gc, g__03513667_037, g__03513668_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513223_037, Nil, g__03513630_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513262_037, Nil, g__03513669_037);
 return;
 }
 }
@@ -2679,53 +2680,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513215_037 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03513585_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513585_037) {
-Obj g__03513586_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513587_037 = PRIM_EQ(getBinding(co, packageID, 107).name, g__03513586_037);
-if (True == g__03513587_037) {
-Obj g__03513588_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513589_037 = PRIM_ISCONS(g__03513588_037);
-if (True == g__03513589_037) {
-Obj g__03513590_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513591_037 = PRIM_CAR(g__03513590_037);
-Obj g__03513218_037 = g__03513591_037;
-Obj g__03513592_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513593_037 = PRIM_CDR(g__03513592_037);
-Obj g__03513219_037 = g__03513593_037;
-R[1] = g__03513218_037;
-R[2] = g__03513219_037;
+Obj g__03513254_037 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03513624_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513624_037) {
+Obj g__03513625_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513626_037 = PRIM_EQ(getBinding(co, packageID, 107).name, g__03513625_037);
+if (True == g__03513626_037) {
+Obj g__03513627_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513628_037 = PRIM_ISCONS(g__03513627_037);
+if (True == g__03513628_037) {
+Obj g__03513629_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513630_037 = PRIM_CAR(g__03513629_037);
+Obj g__03513257_037 = g__03513630_037;
+Obj g__03513631_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513632_037 = PRIM_CDR(g__03513631_037);
+Obj g__03513258_037 = g__03513632_037;
+R[1] = g__03513257_037;
+R[2] = g__03513258_037;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513215_037);
+coraCall0(co, g__03513254_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513215_037);
+coraCall0(co, g__03513254_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03513215_037);
+coraCall0(co, g__03513254_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03513594_037= co->res;
-Obj g__03513218_037 = R[1];
-Obj g__03513219_037 = R[2];
-Obj g__03513595_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513594_037);
-Obj g__03513220_037 = g__03513595_037;
-Obj g__03513596_037 = makeCons(co->gc, g__03513220_037, closureRef(R[0], 2));
-Obj g__03513597_037 = makeCons(co->gc, g__03513218_037, g__03513596_037);
+Obj g__03513633_037= co->res;
+Obj g__03513257_037 = R[1];
+Obj g__03513258_037 = R[2];
+Obj g__03513634_037 = makeCons(co->gc, getBinding(co, packageID, 136).name, g__03513633_037);
+Obj g__03513259_037 = g__03513634_037;
+Obj g__03513635_037 = makeCons(co->gc, g__03513259_037, closureRef(R[0], 2));
+Obj g__03513636_037 = makeCons(co->gc, g__03513257_037, g__03513635_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513219_037, Nil, g__03513597_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513258_037, Nil, g__03513636_037);
 return;
 }
 }
@@ -2735,15 +2736,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513581_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03513581_037) {
-Obj g__03513582_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03513216_037 = g__03513582_037;
-Obj g__03513583_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03513217_037 = g__03513583_037;
-Obj g__03513584_037 = makeCons(co->gc, g__03513216_037, closureRef(R[0], 1));
+Obj g__03513620_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03513620_037) {
+Obj g__03513621_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03513255_037 = g__03513621_037;
+Obj g__03513622_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513256_037 = g__03513622_037;
+Obj g__03513623_037 = makeCons(co->gc, g__03513255_037, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513217_037, g__03513584_037, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 108)), g__03513256_037, g__03513623_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2778,47 +2779,47 @@ return;
 }
 case 1:
 {
-Obj g__03513567_037= co->res;
-Obj g__03513208_037 = R[1];
-Obj g__03513209_037 = g__03513567_037;
-Obj g__03513212_037 = makeNative(co->gc, 2, clofun43, 1, 2, g__03513208_037, g__03513209_037);
-Obj g__03513574_037 = PRIM_ISCONS(g__03513208_037);
-if (True == g__03513574_037) {
-Obj g__03513575_037 = PRIM_CAR(g__03513208_037);
-Obj g__03513576_037 = PRIM_EQ(getBinding(co, packageID, 153).name, g__03513575_037);
-Obj g__03513577_037 = primNot(g__03513576_037);
-if (True == g__03513577_037) {
+Obj g__03513606_037= co->res;
+Obj g__03513247_037 = R[1];
+Obj g__03513248_037 = g__03513606_037;
+Obj g__03513251_037 = makeNative(co->gc, 2, clofun43, 1, 2, g__03513247_037, g__03513248_037);
+Obj g__03513613_037 = PRIM_ISCONS(g__03513247_037);
+if (True == g__03513613_037) {
+Obj g__03513614_037 = PRIM_CAR(g__03513247_037);
+Obj g__03513615_037 = PRIM_EQ(getBinding(co, packageID, 153).name, g__03513614_037);
+Obj g__03513616_037 = primNot(g__03513615_037);
+if (True == g__03513616_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513212_037, True);
+coraCall1(co, g__03513251_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513212_037, False);
+coraCall1(co, g__03513251_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513212_037, False);
+coraCall1(co, g__03513251_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03513566_037= co->res;
+Obj g__03513605_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513208_037 = g__03513566_037;
-R[1] = g__03513208_037;
+Obj g__03513247_037 = g__03513605_037;
+R[1] = g__03513247_037;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 3:
 {
-Obj g__03513565_037= co->res;
+Obj g__03513604_037= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), g__03513565_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), g__03513604_037);
 return;
 }
 }
@@ -2828,13 +2829,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513211_037 = R[1];
-if (True == g__03513211_037) {
-Obj g__03513568_037 = primGenSym(co);
-Obj g__03513213_037 = g__03513568_037;
-R[1] = g__03513213_037;
+Obj g__03513250_037 = R[1];
+if (True == g__03513250_037) {
+Obj g__03513607_037 = primGenSym(co);
+Obj g__03513252_037 = g__03513607_037;
+R[1] = g__03513252_037;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), g__03513213_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), g__03513252_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2844,13 +2845,13 @@ return;
 }
 case 1:
 {
-Obj g__03513569_037= co->res;
-Obj g__03513213_037 = R[1];
-Obj g__03513570_037 = makeCons(co->gc, g__03513569_037, Nil);
-Obj g__03513571_037 = makeCons(co->gc, closureRef(R[0], 0), g__03513570_037);
-Obj g__03513572_037 = makeCons(co->gc, g__03513213_037, g__03513571_037);
-Obj g__03513573_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513572_037);
-coraReturn(co, g__03513573_037);
+Obj g__03513608_037= co->res;
+Obj g__03513252_037 = R[1];
+Obj g__03513609_037 = makeCons(co->gc, g__03513608_037, Nil);
+Obj g__03513610_037 = makeCons(co->gc, closureRef(R[0], 0), g__03513609_037);
+Obj g__03513611_037 = makeCons(co->gc, g__03513252_037, g__03513610_037);
+Obj g__03513612_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513611_037);
+coraReturn(co, g__03513612_037);
 return;
 }
 }
@@ -2870,49 +2871,49 @@ return;
 }
 case 1:
 {
-Obj g__03513563_037= co->res;
-Obj g__03513202_037 = R[1];
-if (True == g__03513563_037) {
+Obj g__03513602_037= co->res;
+Obj g__03513241_037 = R[1];
+if (True == g__03513602_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513202_037, True);
+coraCall1(co, g__03513241_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513202_037, False);
+coraCall1(co, g__03513241_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03513561_037= co->res;
+Obj g__03513600_037= co->res;
 Obj v_rules = R[1];
-Obj g__03513202_037 = R[2];
-if (True == g__03513561_037) {
-Obj g__03513562_037 = PRIM_CDR(v_rules);
-R[1] = g__03513202_037;
+Obj g__03513241_037 = R[2];
+if (True == g__03513600_037) {
+Obj g__03513601_037 = PRIM_CDR(v_rules);
+R[1] = g__03513241_037;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), g__03513562_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), g__03513601_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513202_037, False);
+coraCall1(co, g__03513241_037, False);
 return;
 }
 }
 case 3:
 {
-Obj g__03513543_037= co->res;
+Obj g__03513582_037= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == g__03513543_037) {
-Obj g__03513544_037 = makeCons(co->gc, makeString(co->gc, "no match-help found!", 20), Nil);
-Obj g__03513545_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03513544_037);
-coraReturn(co, g__03513545_037);
+if (True == g__03513582_037) {
+Obj g__03513583_037 = makeCons(co->gc, makeString(co->gc, "no match-help found!", 20), Nil);
+Obj g__03513584_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03513583_037);
+coraReturn(co, g__03513584_037);
 return;
 } else {
-Obj g__03513202_037 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj g__03513241_037 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = g__03513202_037;
+R[2] = g__03513241_037;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_rules);
 return;
@@ -2925,16 +2926,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513201_037 = R[1];
-if (True == g__03513201_037) {
-Obj g__03513546_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03513203_037 = g__03513546_037;
-Obj g__03513547_037 = primGenSym(co);
-Obj g__03513204_037 = g__03513547_037;
-R[1] = g__03513203_037;
-R[2] = g__03513204_037;
+Obj g__03513240_037 = R[1];
+if (True == g__03513240_037) {
+Obj g__03513585_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513242_037 = g__03513585_037;
+Obj g__03513586_037 = primGenSym(co);
+Obj g__03513243_037 = g__03513586_037;
+R[1] = g__03513242_037;
+R[2] = g__03513243_037;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), g__03513204_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), closureRef(R[0], 1), g__03513243_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -2944,53 +2945,53 @@ return;
 }
 case 1:
 {
-Obj g__03513553_037= co->res;
-Obj g__03513206_037 = R[1];
-Obj g__03513204_037 = R[2];
-Obj g__03513207_037 = g__03513553_037;
-Obj g__03513554_037 = makeCons(co->gc, g__03513207_037, Nil);
-Obj g__03513555_037 = makeCons(co->gc, Nil, g__03513554_037);
-Obj g__03513556_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513555_037);
-Obj g__03513557_037 = makeCons(co->gc, g__03513206_037, Nil);
-Obj g__03513558_037 = makeCons(co->gc, g__03513556_037, g__03513557_037);
-Obj g__03513559_037 = makeCons(co->gc, g__03513204_037, g__03513558_037);
-Obj g__03513560_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513559_037);
-coraReturn(co, g__03513560_037);
+Obj g__03513592_037= co->res;
+Obj g__03513245_037 = R[1];
+Obj g__03513243_037 = R[2];
+Obj g__03513246_037 = g__03513592_037;
+Obj g__03513593_037 = makeCons(co->gc, g__03513246_037, Nil);
+Obj g__03513594_037 = makeCons(co->gc, Nil, g__03513593_037);
+Obj g__03513595_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513594_037);
+Obj g__03513596_037 = makeCons(co->gc, g__03513245_037, Nil);
+Obj g__03513597_037 = makeCons(co->gc, g__03513595_037, g__03513596_037);
+Obj g__03513598_037 = makeCons(co->gc, g__03513243_037, g__03513597_037);
+Obj g__03513599_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513598_037);
+coraReturn(co, g__03513599_037);
 return;
 }
 case 2:
 {
-Obj g__03513550_037= co->res;
-Obj g__03513204_037 = R[1];
-Obj g__03513206_037 = g__03513550_037;
-Obj g__03513551_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03513552_037 = PRIM_CDR(g__03513551_037);
-R[1] = g__03513206_037;
-R[2] = g__03513204_037;
+Obj g__03513589_037= co->res;
+Obj g__03513243_037 = R[1];
+Obj g__03513245_037 = g__03513589_037;
+Obj g__03513590_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03513591_037 = PRIM_CDR(g__03513590_037);
+R[1] = g__03513245_037;
+R[2] = g__03513243_037;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), g__03513552_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 0), g__03513591_037);
 return;
 }
 case 3:
 {
-Obj g__03513549_037= co->res;
-Obj g__03513205_037 = R[1];
-Obj g__03513204_037 = R[2];
-R[1] = g__03513204_037;
+Obj g__03513588_037= co->res;
+Obj g__03513244_037 = R[1];
+Obj g__03513243_037 = R[2];
+R[1] = g__03513243_037;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), g__03513549_037, closureRef(R[0], 0), g__03513205_037, g__03513204_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), g__03513588_037, closureRef(R[0], 0), g__03513244_037, g__03513243_037);
 return;
 }
 case 4:
 {
-Obj g__03513548_037= co->res;
-Obj g__03513203_037 = R[1];
-Obj g__03513204_037 = R[2];
-Obj g__03513205_037 = g__03513548_037;
-R[1] = g__03513205_037;
-R[2] = g__03513204_037;
+Obj g__03513587_037= co->res;
+Obj g__03513242_037 = R[1];
+Obj g__03513243_037 = R[2];
+Obj g__03513244_037 = g__03513587_037;
+R[1] = g__03513244_037;
+R[2] = g__03513243_037;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), g__03513203_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), g__03513242_037);
 return;
 }
 }
@@ -3002,36 +3003,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj g__03513530_037 = PRIM_CDR(v_rules);
-Obj g__03513531_037 = PRIM_CAR(g__03513530_037);
-Obj g__03513196_037 = g__03513531_037;
-Obj g__03513199_037 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, g__03513196_037);
-R[1] = g__03513196_037;
-R[2] = g__03513199_037;
+Obj g__03513569_037 = PRIM_CDR(v_rules);
+Obj g__03513570_037 = PRIM_CAR(g__03513569_037);
+Obj g__03513235_037 = g__03513570_037;
+Obj g__03513238_037 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, g__03513235_037);
+R[1] = g__03513235_037;
+R[2] = g__03513238_037;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), g__03513196_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), g__03513235_037);
 return;
 }
 case 1:
 {
-Obj g__03513539_037= co->res;
-Obj g__03513196_037 = R[1];
-Obj g__03513199_037 = R[2];
-if (True == g__03513539_037) {
-Obj g__03513540_037 = PRIM_CAR(g__03513196_037);
-Obj g__03513541_037 = PRIM_EQ(g__03513540_037, getBinding(co, packageID, 112).name);
-if (True == g__03513541_037) {
+Obj g__03513578_037= co->res;
+Obj g__03513235_037 = R[1];
+Obj g__03513238_037 = R[2];
+if (True == g__03513578_037) {
+Obj g__03513579_037 = PRIM_CAR(g__03513235_037);
+Obj g__03513580_037 = PRIM_EQ(g__03513579_037, getBinding(co, packageID, 112).name);
+if (True == g__03513580_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513199_037, True);
+coraCall1(co, g__03513238_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513199_037, False);
+coraCall1(co, g__03513238_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513199_037, False);
+coraCall1(co, g__03513238_037, False);
 return;
 }
 }
@@ -3042,8 +3043,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513198_037 = R[1];
-if (True == g__03513198_037) {
+Obj g__03513237_037 = R[1];
+if (True == g__03513237_037) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
@@ -3054,20 +3055,20 @@ return;
 }
 case 1:
 {
-Obj g__03513533_037= co->res;
-Obj g__03513532_037 = R[1];
-Obj g__03513534_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj g__03513535_037 = makeCons(co->gc, g__03513534_037, Nil);
-Obj g__03513536_037 = makeCons(co->gc, g__03513533_037, g__03513535_037);
-Obj g__03513537_037 = makeCons(co->gc, g__03513532_037, g__03513536_037);
-Obj g__03513538_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513537_037);
-coraReturn(co, g__03513538_037);
+Obj g__03513572_037= co->res;
+Obj g__03513571_037 = R[1];
+Obj g__03513573_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03513574_037 = makeCons(co->gc, g__03513573_037, Nil);
+Obj g__03513575_037 = makeCons(co->gc, g__03513572_037, g__03513574_037);
+Obj g__03513576_037 = makeCons(co->gc, g__03513571_037, g__03513575_037);
+Obj g__03513577_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513576_037);
+coraReturn(co, g__03513577_037);
 return;
 }
 case 2:
 {
-Obj g__03513532_037= co->res;
-R[1] = g__03513532_037;
+Obj g__03513571_037= co->res;
+R[1] = g__03513571_037;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
@@ -3093,29 +3094,29 @@ return;
 }
 case 1:
 {
-Obj g__03513514_037= co->res;
+Obj g__03513553_037= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == g__03513514_037) {
-Obj g__03513515_037 = PRIM_CAR(v_pat);
-Obj g__03513516_037 = PRIM_EQ(g__03513515_037, getBinding(co, packageID, 140).name);
-if (True == g__03513516_037) {
-Obj g__03513517_037 = makeCons(co->gc, v_expr, Nil);
-Obj g__03513518_037 = makeCons(co->gc, v_pat, g__03513517_037);
-Obj g__03513519_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513518_037);
-Obj g__03513520_037 = makeCons(co->gc, v_cc, Nil);
-Obj g__03513521_037 = makeCons(co->gc, g__03513520_037, Nil);
-Obj g__03513522_037 = makeCons(co->gc, v_body, g__03513521_037);
-Obj g__03513523_037 = makeCons(co->gc, g__03513519_037, g__03513522_037);
-Obj g__03513524_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513523_037);
-coraReturn(co, g__03513524_037);
-return;
-} else {
-Obj g__03513525_037 = PRIM_CAR(v_pat);
-Obj g__03513526_037 = PRIM_EQ(g__03513525_037, getBinding(co, packageID, 153).name);
-if (True == g__03513526_037) {
+if (True == g__03513553_037) {
+Obj g__03513554_037 = PRIM_CAR(v_pat);
+Obj g__03513555_037 = PRIM_EQ(g__03513554_037, getBinding(co, packageID, 140).name);
+if (True == g__03513555_037) {
+Obj g__03513556_037 = makeCons(co->gc, v_expr, Nil);
+Obj g__03513557_037 = makeCons(co->gc, v_pat, g__03513556_037);
+Obj g__03513558_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513557_037);
+Obj g__03513559_037 = makeCons(co->gc, v_cc, Nil);
+Obj g__03513560_037 = makeCons(co->gc, g__03513559_037, Nil);
+Obj g__03513561_037 = makeCons(co->gc, v_body, g__03513560_037);
+Obj g__03513562_037 = makeCons(co->gc, g__03513558_037, g__03513561_037);
+Obj g__03513563_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513562_037);
+coraReturn(co, g__03513563_037);
+return;
+} else {
+Obj g__03513564_037 = PRIM_CAR(v_pat);
+Obj g__03513565_037 = PRIM_EQ(g__03513564_037, getBinding(co, packageID, 153).name);
+if (True == g__03513565_037) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3126,45 +3127,45 @@ return;
 }
 }
 } else {
-Obj g__03513527_037 = makeCons(co->gc, v_pat, Nil);
-Obj g__03513528_037 = makeCons(co->gc, makeString(co->gc, "match fail", 10), g__03513527_037);
+Obj g__03513566_037 = makeCons(co->gc, v_pat, Nil);
+Obj g__03513567_037 = makeCons(co->gc, makeString(co->gc, "match fail", 10), g__03513566_037);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), g__03513528_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), g__03513567_037);
 return;
 }
 }
 case 2:
 {
-Obj g__03513499_037= co->res;
+Obj g__03513538_037= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == g__03513499_037) {
-Obj g__03513500_037 = PRIM_EQ(v_pat, v_expr);
-if (True == g__03513500_037) {
+if (True == g__03513538_037) {
+Obj g__03513539_037 = PRIM_EQ(v_pat, v_expr);
+if (True == g__03513539_037) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj g__03513501_037 = makeCons(co->gc, v_expr, Nil);
-Obj g__03513502_037 = makeCons(co->gc, v_pat, g__03513501_037);
-Obj g__03513503_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513502_037);
-Obj g__03513504_037 = makeCons(co->gc, v_cc, Nil);
-Obj g__03513505_037 = makeCons(co->gc, g__03513504_037, Nil);
-Obj g__03513506_037 = makeCons(co->gc, v_body, g__03513505_037);
-Obj g__03513507_037 = makeCons(co->gc, g__03513503_037, g__03513506_037);
-Obj g__03513508_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513507_037);
-coraReturn(co, g__03513508_037);
+Obj g__03513540_037 = makeCons(co->gc, v_expr, Nil);
+Obj g__03513541_037 = makeCons(co->gc, v_pat, g__03513540_037);
+Obj g__03513542_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03513541_037);
+Obj g__03513543_037 = makeCons(co->gc, v_cc, Nil);
+Obj g__03513544_037 = makeCons(co->gc, g__03513543_037, Nil);
+Obj g__03513545_037 = makeCons(co->gc, v_body, g__03513544_037);
+Obj g__03513546_037 = makeCons(co->gc, g__03513542_037, g__03513545_037);
+Obj g__03513547_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513546_037);
+coraReturn(co, g__03513547_037);
 return;
 }
 } else {
-Obj g__03513509_037 = primIsSymbol(v_pat);
-if (True == g__03513509_037) {
-Obj g__03513510_037 = makeCons(co->gc, v_body, Nil);
-Obj g__03513511_037 = makeCons(co->gc, v_expr, g__03513510_037);
-Obj g__03513512_037 = makeCons(co->gc, v_pat, g__03513511_037);
-Obj g__03513513_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513512_037);
-coraReturn(co, g__03513513_037);
+Obj g__03513548_037 = primIsSymbol(v_pat);
+if (True == g__03513548_037) {
+Obj g__03513549_037 = makeCons(co->gc, v_body, Nil);
+Obj g__03513550_037 = makeCons(co->gc, v_expr, g__03513549_037);
+Obj g__03513551_037 = makeCons(co->gc, v_pat, g__03513550_037);
+Obj g__03513552_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513551_037);
+coraReturn(co, g__03513552_037);
 return;
 } else {
 R[1] = v_expr;
@@ -3192,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj g__03513496_037= co->res;
+Obj g__03513535_037= co->res;
 Obj v_x = R[1];
-if (True == g__03513496_037) {
-Obj g__03513497_037 = primIsSymbol(v_x);
-Obj g__03513498_037 = primNot(g__03513497_037);
-if (True == g__03513498_037) {
+if (True == g__03513535_037) {
+Obj g__03513536_037 = primIsSymbol(v_x);
+Obj g__03513537_037 = primNot(g__03513536_037);
+if (True == g__03513537_037) {
 coraReturn(co, True);
 return;
 } else {
@@ -3230,41 +3231,41 @@ return;
 }
 case 1:
 {
-Obj g__03513475_037= co->res;
-Obj g__03513189_037 = R[1];
+Obj g__03513514_037= co->res;
+Obj g__03513228_037 = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj g__03513190_037 = g__03513475_037;
-Obj g__03513193_037 = makeNative(co->gc, 3, clofun35, 1, 5, g__03513189_037, g__03513190_037, v_expr, v_body, v_cc);
-Obj g__03513492_037 = PRIM_ISCONS(v_expr);
-if (True == g__03513492_037) {
-Obj g__03513493_037 = PRIM_CAR(v_expr);
-Obj g__03513494_037 = PRIM_EQ(g__03513493_037, getBinding(co, packageID, 153).name);
-if (True == g__03513494_037) {
+Obj g__03513229_037 = g__03513514_037;
+Obj g__03513232_037 = makeNative(co->gc, 3, clofun35, 1, 5, g__03513228_037, g__03513229_037, v_expr, v_body, v_cc);
+Obj g__03513531_037 = PRIM_ISCONS(v_expr);
+if (True == g__03513531_037) {
+Obj g__03513532_037 = PRIM_CAR(v_expr);
+Obj g__03513533_037 = PRIM_EQ(g__03513532_037, getBinding(co, packageID, 153).name);
+if (True == g__03513533_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513193_037, True);
+coraCall1(co, g__03513232_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513193_037, False);
+coraCall1(co, g__03513232_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513193_037, False);
+coraCall1(co, g__03513232_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03513474_037= co->res;
+Obj g__03513513_037= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj g__03513189_037 = g__03513474_037;
-R[1] = g__03513189_037;
+Obj g__03513228_037 = g__03513513_037;
+R[1] = g__03513228_037;
 R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
@@ -3279,72 +3280,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513192_037 = R[1];
-if (True == g__03513192_037) {
+Obj g__03513231_037 = R[1];
+if (True == g__03513231_037) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj g__03513479_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj g__03513480_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03513479_037);
-Obj g__03513481_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj g__03513482_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03513481_037);
-Obj g__03513483_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj g__03513484_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03513483_037);
-R[1] = g__03513482_037;
-R[2] = g__03513480_037;
+Obj g__03513518_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03513519_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03513518_037);
+Obj g__03513520_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03513521_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03513520_037);
+Obj g__03513522_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03513523_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03513522_037);
+R[1] = g__03513521_037;
+R[2] = g__03513519_037;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), g__03513484_037, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), g__03513523_037, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj g__03513478_037= co->res;
-Obj g__03513194_037 = R[1];
+Obj g__03513517_037= co->res;
+Obj g__03513233_037 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), g__03513194_037, g__03513478_037, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), g__03513233_037, g__03513517_037, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj g__03513477_037= co->res;
-Obj g__03513194_037 = R[1];
-Obj g__03513195_037 = g__03513477_037;
-R[1] = g__03513194_037;
+Obj g__03513516_037= co->res;
+Obj g__03513233_037 = R[1];
+Obj g__03513234_037 = g__03513516_037;
+R[1] = g__03513233_037;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), g__03513195_037, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), g__03513234_037, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03513476_037= co->res;
-Obj g__03513194_037 = g__03513476_037;
-R[1] = g__03513194_037;
+Obj g__03513515_037= co->res;
+Obj g__03513233_037 = g__03513515_037;
+R[1] = g__03513233_037;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj g__03513486_037= co->res;
-Obj g__03513480_037 = R[1];
-Obj g__03513487_037 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj g__03513488_037 = makeCons(co->gc, g__03513487_037, Nil);
-Obj g__03513489_037 = makeCons(co->gc, g__03513486_037, g__03513488_037);
-Obj g__03513490_037 = makeCons(co->gc, g__03513480_037, g__03513489_037);
-Obj g__03513491_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513490_037);
-coraReturn(co, g__03513491_037);
+Obj g__03513525_037= co->res;
+Obj g__03513519_037 = R[1];
+Obj g__03513526_037 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj g__03513527_037 = makeCons(co->gc, g__03513526_037, Nil);
+Obj g__03513528_037 = makeCons(co->gc, g__03513525_037, g__03513527_037);
+Obj g__03513529_037 = makeCons(co->gc, g__03513519_037, g__03513528_037);
+Obj g__03513530_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513529_037);
+coraReturn(co, g__03513530_037);
 return;
 }
 case 5:
 {
-Obj g__03513485_037= co->res;
-Obj g__03513482_037 = R[1];
-Obj g__03513480_037 = R[2];
-R[1] = g__03513480_037;
+Obj g__03513524_037= co->res;
+Obj g__03513521_037 = R[1];
+Obj g__03513519_037 = R[2];
+R[1] = g__03513519_037;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), g__03513482_037, g__03513485_037, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), g__03513521_037, g__03513524_037, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513472_037 = PRIM_CDR(v_exp);
+Obj g__03513511_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), g__03513472_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), g__03513511_037);
 return;
 }
 }
@@ -3368,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj g__03513462_037 = PRIM_CDR(v_pat);
+Obj g__03513501_037 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513462_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513501_037);
 return;
 }
 case 1:
 {
-Obj g__03513467_037= co->res;
-Obj g__03513465_037 = R[1];
-Obj g__03513468_037 = makeCons(co->gc, g__03513467_037, Nil);
-Obj g__03513469_037 = makeCons(co->gc, g__03513465_037, g__03513468_037);
-Obj g__03513470_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513469_037);
-coraReturn(co, g__03513470_037);
+Obj g__03513506_037= co->res;
+Obj g__03513504_037 = R[1];
+Obj g__03513507_037 = makeCons(co->gc, g__03513506_037, Nil);
+Obj g__03513508_037 = makeCons(co->gc, g__03513504_037, g__03513507_037);
+Obj g__03513509_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513508_037);
+coraReturn(co, g__03513509_037);
 return;
 }
 case 2:
 {
-Obj g__03513463_037= co->res;
+Obj g__03513502_037= co->res;
 Obj v_pat = R[1];
-if (True == g__03513463_037) {
-Obj g__03513464_037 = PRIM_CAR(v_pat);
-coraReturn(co, g__03513464_037);
+if (True == g__03513502_037) {
+Obj g__03513503_037 = PRIM_CAR(v_pat);
+coraReturn(co, g__03513503_037);
 return;
 } else {
-Obj g__03513465_037 = PRIM_CAR(v_pat);
-Obj g__03513466_037 = PRIM_CDR(v_pat);
-R[1] = g__03513465_037;
+Obj g__03513504_037 = PRIM_CAR(v_pat);
+Obj g__03513505_037 = PRIM_CDR(v_pat);
+R[1] = g__03513504_037;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), g__03513466_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), g__03513505_037);
 return;
 }
 }
@@ -3409,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513459_037 = PRIM_EQ(v_x, True);
-if (True == g__03513459_037) {
+Obj g__03513498_037 = PRIM_EQ(v_x, True);
+if (True == g__03513498_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj g__03513460_037 = PRIM_EQ(v_x, False);
-if (True == g__03513460_037) {
+Obj g__03513499_037 = PRIM_EQ(v_x, False);
+if (True == g__03513499_037) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513457_037 = PRIM_CDR(v_exp);
+Obj g__03513496_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), g__03513457_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), g__03513496_037);
 return;
 }
 }
@@ -3445,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj g__03513445_037 = PRIM_EQ(Nil, v_l);
-if (True == g__03513445_037) {
+Obj g__03513484_037 = PRIM_EQ(Nil, v_l);
+if (True == g__03513484_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj g__03513446_037 = PRIM_CAR(v_l);
-Obj g__03513447_037 = PRIM_EQ(g__03513446_037, False);
-if (True == g__03513447_037) {
+Obj g__03513485_037 = PRIM_CAR(v_l);
+Obj g__03513486_037 = PRIM_EQ(g__03513485_037, False);
+if (True == g__03513486_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj g__03513448_037 = PRIM_CDR(v_l);
+Obj g__03513487_037 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), g__03513448_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), g__03513487_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03513449_037= co->res;
+Obj g__03513488_037= co->res;
 Obj v_l = R[1];
-Obj g__03513188_037 = g__03513449_037;
-Obj g__03513450_037 = PRIM_EQ(g__03513188_037, False);
-if (True == g__03513450_037) {
+Obj g__03513227_037 = g__03513488_037;
+Obj g__03513489_037 = PRIM_EQ(g__03513227_037, False);
+if (True == g__03513489_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj g__03513451_037 = PRIM_CAR(v_l);
-Obj g__03513452_037 = makeCons(co->gc, False, Nil);
-Obj g__03513453_037 = makeCons(co->gc, g__03513188_037, g__03513452_037);
-Obj g__03513454_037 = makeCons(co->gc, g__03513451_037, g__03513453_037);
-Obj g__03513455_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513454_037);
-coraReturn(co, g__03513455_037);
+Obj g__03513490_037 = PRIM_CAR(v_l);
+Obj g__03513491_037 = makeCons(co->gc, False, Nil);
+Obj g__03513492_037 = makeCons(co->gc, g__03513227_037, g__03513491_037);
+Obj g__03513493_037 = makeCons(co->gc, g__03513490_037, g__03513492_037);
+Obj g__03513494_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513493_037);
+coraReturn(co, g__03513494_037);
 return;
 }
 }
@@ -3491,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513443_037 = PRIM_CDR(v_exp);
+Obj g__03513482_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), g__03513443_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), g__03513482_037);
 return;
 }
 }
@@ -3504,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj g__03513431_037 = PRIM_EQ(v_l, Nil);
-if (True == g__03513431_037) {
+Obj g__03513470_037 = PRIM_EQ(v_l, Nil);
+if (True == g__03513470_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj g__03513432_037 = PRIM_CAR(v_l);
-Obj g__03513433_037 = PRIM_EQ(g__03513432_037, True);
-if (True == g__03513433_037) {
+Obj g__03513471_037 = PRIM_CAR(v_l);
+Obj g__03513472_037 = PRIM_EQ(g__03513471_037, True);
+if (True == g__03513472_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj g__03513434_037 = PRIM_CDR(v_l);
+Obj g__03513473_037 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), g__03513434_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), g__03513473_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03513435_037= co->res;
+Obj g__03513474_037= co->res;
 Obj v_l = R[1];
-Obj g__03513187_037 = g__03513435_037;
-Obj g__03513436_037 = PRIM_EQ(g__03513187_037, True);
-if (True == g__03513436_037) {
+Obj g__03513226_037 = g__03513474_037;
+Obj g__03513475_037 = PRIM_EQ(g__03513226_037, True);
+if (True == g__03513475_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj g__03513437_037 = PRIM_CAR(v_l);
-Obj g__03513438_037 = makeCons(co->gc, g__03513187_037, Nil);
-Obj g__03513439_037 = makeCons(co->gc, True, g__03513438_037);
-Obj g__03513440_037 = makeCons(co->gc, g__03513437_037, g__03513439_037);
-Obj g__03513441_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513440_037);
-coraReturn(co, g__03513441_037);
+Obj g__03513476_037 = PRIM_CAR(v_l);
+Obj g__03513477_037 = makeCons(co->gc, g__03513226_037, Nil);
+Obj g__03513478_037 = makeCons(co->gc, True, g__03513477_037);
+Obj g__03513479_037 = makeCons(co->gc, g__03513476_037, g__03513478_037);
+Obj g__03513480_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513479_037);
+coraReturn(co, g__03513480_037);
 return;
 }
 }
@@ -3550,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513417_037 = PRIM_CDR(v_exp);
-Obj g__03513418_037 = PRIM_EQ(Nil, g__03513417_037);
-if (True == g__03513418_037) {
-Obj g__03513419_037 = makeCons(co->gc, makeString(co->gc, "no cond match", 13), Nil);
-Obj g__03513420_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03513419_037);
-coraReturn(co, g__03513420_037);
+Obj g__03513456_037 = PRIM_CDR(v_exp);
+Obj g__03513457_037 = PRIM_EQ(Nil, g__03513456_037);
+if (True == g__03513457_037) {
+Obj g__03513458_037 = makeCons(co->gc, makeString(co->gc, "no cond match", 13), Nil);
+Obj g__03513459_037 = makeCons(co->gc, getBinding(co, packageID, 128).name, g__03513458_037);
+coraReturn(co, g__03513459_037);
 return;
 } else {
 R[1] = v_exp;
@@ -3566,38 +3567,38 @@ return;
 }
 case 1:
 {
-Obj g__03513424_037= co->res;
-Obj g__03513423_037 = R[1];
-Obj g__03513422_037 = R[2];
-Obj g__03513425_037 = makeCons(co->gc, getBinding(co, packageID, 129).name, g__03513424_037);
-Obj g__03513426_037 = makeCons(co->gc, g__03513425_037, Nil);
-Obj g__03513427_037 = makeCons(co->gc, g__03513423_037, g__03513426_037);
-Obj g__03513428_037 = makeCons(co->gc, g__03513422_037, g__03513427_037);
-Obj g__03513429_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513428_037);
-coraReturn(co, g__03513429_037);
+Obj g__03513463_037= co->res;
+Obj g__03513462_037 = R[1];
+Obj g__03513461_037 = R[2];
+Obj g__03513464_037 = makeCons(co->gc, getBinding(co, packageID, 129).name, g__03513463_037);
+Obj g__03513465_037 = makeCons(co->gc, g__03513464_037, Nil);
+Obj g__03513466_037 = makeCons(co->gc, g__03513462_037, g__03513465_037);
+Obj g__03513467_037 = makeCons(co->gc, g__03513461_037, g__03513466_037);
+Obj g__03513468_037 = makeCons(co->gc, getBinding(co, packageID, 127).name, g__03513467_037);
+coraReturn(co, g__03513468_037);
 return;
 }
 case 2:
 {
-Obj g__03513423_037= co->res;
+Obj g__03513462_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513422_037 = R[2];
-R[1] = g__03513423_037;
-R[2] = g__03513422_037;
+Obj g__03513461_037 = R[2];
+R[1] = g__03513462_037;
+R[2] = g__03513461_037;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 3:
 {
-Obj g__03513421_037= co->res;
+Obj g__03513460_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513186_037 = g__03513421_037;
-Obj g__03513422_037 = PRIM_CAR(g__03513186_037);
+Obj g__03513225_037 = g__03513460_037;
+Obj g__03513461_037 = PRIM_CAR(g__03513225_037);
 R[1] = v_exp;
-R[2] = g__03513422_037;
+R[2] = g__03513461_037;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), g__03513186_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), g__03513225_037);
 return;
 }
 }
@@ -3608,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513415_037 = PRIM_CDR(v_exp);
+Obj g__03513454_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03513415_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03513454_037);
 return;
 }
 }
@@ -3621,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513403_037 = PRIM_CDR(v_exp);
+Obj g__03513442_037 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513403_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), g__03513442_037);
 return;
 }
 case 1:
 {
-Obj g__03513409_037= co->res;
-Obj g__03513407_037 = R[1];
-Obj g__03513406_037 = R[2];
-Obj g__03513410_037 = makeCons(co->gc, g__03513409_037, Nil);
-Obj g__03513411_037 = makeCons(co->gc, g__03513407_037, g__03513410_037);
-Obj g__03513412_037 = makeCons(co->gc, g__03513406_037, g__03513411_037);
-Obj g__03513413_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513412_037);
-coraReturn(co, g__03513413_037);
+Obj g__03513448_037= co->res;
+Obj g__03513446_037 = R[1];
+Obj g__03513445_037 = R[2];
+Obj g__03513449_037 = makeCons(co->gc, g__03513448_037, Nil);
+Obj g__03513450_037 = makeCons(co->gc, g__03513446_037, g__03513449_037);
+Obj g__03513451_037 = makeCons(co->gc, g__03513445_037, g__03513450_037);
+Obj g__03513452_037 = makeCons(co->gc, getBinding(co, packageID, 130).name, g__03513451_037);
+coraReturn(co, g__03513452_037);
 return;
 }
 case 2:
 {
-Obj g__03513408_037= co->res;
-Obj g__03513407_037 = R[1];
-Obj g__03513406_037 = R[2];
-R[1] = g__03513407_037;
-R[2] = g__03513406_037;
+Obj g__03513447_037= co->res;
+Obj g__03513446_037 = R[1];
+Obj g__03513445_037 = R[2];
+R[1] = g__03513446_037;
+R[2] = g__03513445_037;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03513408_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03513447_037);
 return;
 }
 case 3:
 {
-Obj g__03513407_037= co->res;
+Obj g__03513446_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513406_037 = R[2];
-R[1] = g__03513407_037;
-R[2] = g__03513406_037;
+Obj g__03513445_037 = R[2];
+R[1] = g__03513446_037;
+R[2] = g__03513445_037;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 4:
 {
-Obj g__03513404_037= co->res;
+Obj g__03513443_037= co->res;
 Obj v_exp = R[1];
-if (True == g__03513404_037) {
-Obj g__03513405_037 = PRIM_CAR(v_exp);
-coraReturn(co, g__03513405_037);
+if (True == g__03513443_037) {
+Obj g__03513444_037 = PRIM_CAR(v_exp);
+coraReturn(co, g__03513444_037);
 return;
 } else {
-Obj g__03513406_037 = PRIM_CAR(v_exp);
+Obj g__03513445_037 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = g__03513406_037;
+R[2] = g__03513445_037;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
@@ -3686,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513400_037 = PRIM_ISCONS(v_x);
-Obj g__03513401_037 = primNot(g__03513400_037);
-coraReturn(co, g__03513401_037);
+Obj g__03513439_037 = PRIM_ISCONS(v_x);
+Obj g__03513440_037 = primNot(g__03513439_037);
+coraReturn(co, g__03513440_037);
 return;
 }
 }
@@ -3700,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj g__03513395_037 = PRIM_ISCONS(v_l);
-if (True == g__03513395_037) {
-Obj g__03513396_037 = PRIM_CAR(v_l);
-Obj g__03513397_037 = PRIM_EQ(g__03513396_037, v_x);
-if (True == g__03513397_037) {
+Obj g__03513434_037 = PRIM_ISCONS(v_l);
+if (True == g__03513434_037) {
+Obj g__03513435_037 = PRIM_CAR(v_l);
+Obj g__03513436_037 = PRIM_EQ(g__03513435_037, v_x);
+if (True == g__03513436_037) {
 coraReturn(co, True);
 return;
 } else {
-Obj g__03513398_037 = PRIM_CDR(v_l);
+Obj g__03513437_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, g__03513398_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, g__03513437_037);
 return;
 }
 } else {
@@ -3733,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj g__03513387_037= co->res;
-Obj g__03513386_037 = R[1];
-Obj g__03513385_037 = R[2];
-Obj g__03513388_037 = makeCons(co->gc, g__03513387_037, Nil);
-Obj g__03513389_037 = makeCons(co->gc, g__03513386_037, g__03513388_037);
-Obj g__03513390_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513389_037);
-Obj g__03513391_037 = makeCons(co->gc, g__03513390_037, Nil);
-Obj g__03513392_037 = makeCons(co->gc, g__03513385_037, g__03513391_037);
-Obj g__03513393_037 = makeCons(co->gc, getBinding(co, packageID, 134).name, g__03513392_037);
-coraReturn(co, g__03513393_037);
+Obj g__03513426_037= co->res;
+Obj g__03513425_037 = R[1];
+Obj g__03513424_037 = R[2];
+Obj g__03513427_037 = makeCons(co->gc, g__03513426_037, Nil);
+Obj g__03513428_037 = makeCons(co->gc, g__03513425_037, g__03513427_037);
+Obj g__03513429_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513428_037);
+Obj g__03513430_037 = makeCons(co->gc, g__03513429_037, Nil);
+Obj g__03513431_037 = makeCons(co->gc, g__03513424_037, g__03513430_037);
+Obj g__03513432_037 = makeCons(co->gc, getBinding(co, packageID, 134).name, g__03513431_037);
+coraReturn(co, g__03513432_037);
 return;
 }
 case 2:
 {
-Obj g__03513386_037= co->res;
+Obj g__03513425_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513385_037 = R[2];
-R[1] = g__03513386_037;
-R[2] = g__03513385_037;
+Obj g__03513424_037 = R[2];
+R[1] = g__03513425_037;
+R[2] = g__03513424_037;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 3:
 {
-Obj g__03513385_037= co->res;
+Obj g__03513424_037= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = g__03513385_037;
+R[2] = g__03513424_037;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -3774,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513383_037 = PRIM_CDR(v_exp);
+Obj g__03513422_037 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), g__03513383_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), g__03513422_037);
 return;
 }
 }
@@ -3794,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj g__03513375_037= co->res;
-Obj g__03513374_037 = R[1];
-Obj g__03513373_037 = R[2];
-Obj g__03513376_037 = makeCons(co->gc, g__03513374_037, g__03513375_037);
-Obj g__03513377_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513376_037);
-Obj g__03513378_037 = makeCons(co->gc, g__03513377_037, Nil);
-Obj g__03513379_037 = makeCons(co->gc, g__03513373_037, g__03513378_037);
-Obj g__03513380_037 = makeCons(co->gc, getBinding(co, packageID, 145).name, g__03513379_037);
-coraReturn(co, g__03513380_037);
+Obj g__03513414_037= co->res;
+Obj g__03513413_037 = R[1];
+Obj g__03513412_037 = R[2];
+Obj g__03513415_037 = makeCons(co->gc, g__03513413_037, g__03513414_037);
+Obj g__03513416_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513415_037);
+Obj g__03513417_037 = makeCons(co->gc, g__03513416_037, Nil);
+Obj g__03513418_037 = makeCons(co->gc, g__03513412_037, g__03513417_037);
+Obj g__03513419_037 = makeCons(co->gc, getBinding(co, packageID, 145).name, g__03513418_037);
+coraReturn(co, g__03513419_037);
 return;
 }
 case 2:
 {
-Obj g__03513374_037= co->res;
+Obj g__03513413_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513373_037 = R[2];
-R[1] = g__03513374_037;
-R[2] = g__03513373_037;
+Obj g__03513412_037 = R[2];
+R[1] = g__03513413_037;
+R[2] = g__03513412_037;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj g__03513371_037= co->res;
+Obj g__03513410_037= co->res;
 Obj v_exp = R[1];
-Obj g__03513372_037 = makeCons(co->gc, g__03513371_037, Nil);
-Obj g__03513373_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513372_037);
+Obj g__03513411_037 = makeCons(co->gc, g__03513410_037, Nil);
+Obj g__03513412_037 = makeCons(co->gc, getBinding(co, packageID, 140).name, g__03513411_037);
 R[1] = v_exp;
-R[2] = g__03513373_037;
+R[2] = g__03513412_037;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -3836,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513353_037 = PRIM_ISCONS(v_exp);
-if (True == g__03513353_037) {
-Obj g__03513354_037 = PRIM_CAR(v_exp);
-Obj g__03513355_037 = PRIM_EQ(g__03513354_037, globalRef(co, getBinding(co, packageID, 146)));
-if (True == g__03513355_037) {
-Obj g__03513356_037 = PRIM_CDR(v_exp);
-coraReturn(co, g__03513356_037);
-return;
-} else {
-Obj g__03513357_037 = PRIM_CAR(v_exp);
-Obj g__03513358_037 = PRIM_EQ(g__03513357_037, getBinding(co, packageID, 141).name);
-if (True == g__03513358_037) {
+Obj g__03513392_037 = PRIM_ISCONS(v_exp);
+if (True == g__03513392_037) {
+Obj g__03513393_037 = PRIM_CAR(v_exp);
+Obj g__03513394_037 = PRIM_EQ(g__03513393_037, globalRef(co, getBinding(co, packageID, 146)));
+if (True == g__03513394_037) {
+Obj g__03513395_037 = PRIM_CDR(v_exp);
+coraReturn(co, g__03513395_037);
+return;
+} else {
+Obj g__03513396_037 = PRIM_CAR(v_exp);
+Obj g__03513397_037 = PRIM_EQ(g__03513396_037, getBinding(co, packageID, 141).name);
+if (True == g__03513397_037) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 } else {
-Obj g__03513365_037 = PRIM_CAR(v_exp);
-Obj g__03513366_037 = PRIM_EQ(g__03513365_037, getBinding(co, packageID, 140).name);
-if (True == g__03513366_037) {
+Obj g__03513404_037 = PRIM_CAR(v_exp);
+Obj g__03513405_037 = PRIM_EQ(g__03513404_037, getBinding(co, packageID, 140).name);
+if (True == g__03513405_037) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3873,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj g__03513361_037= co->res;
-Obj g__03513359_037 = R[1];
-Obj g__03513362_037 = makeCons(co->gc, g__03513361_037, Nil);
-Obj g__03513363_037 = makeCons(co->gc, g__03513359_037, g__03513362_037);
-Obj g__03513364_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513363_037);
-coraReturn(co, g__03513364_037);
+Obj g__03513400_037= co->res;
+Obj g__03513398_037 = R[1];
+Obj g__03513401_037 = makeCons(co->gc, g__03513400_037, Nil);
+Obj g__03513402_037 = makeCons(co->gc, g__03513398_037, g__03513401_037);
+Obj g__03513403_037 = makeCons(co->gc, getBinding(co, packageID, 141).name, g__03513402_037);
+coraReturn(co, g__03513403_037);
 return;
 }
 case 2:
 {
-Obj g__03513360_037= co->res;
-Obj g__03513359_037 = R[1];
-R[1] = g__03513359_037;
+Obj g__03513399_037= co->res;
+Obj g__03513398_037 = R[1];
+R[1] = g__03513398_037;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), g__03513360_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), g__03513399_037);
 return;
 }
 case 3:
 {
-Obj g__03513359_037= co->res;
+Obj g__03513398_037= co->res;
 Obj v_exp = R[1];
-R[1] = g__03513359_037;
+R[1] = g__03513398_037;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj g__03513368_037= co->res;
+Obj g__03513407_037= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), g__03513368_037);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), g__03513407_037);
 return;
 }
 }
@@ -3915,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj g__03513367_037 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == g__03513367_037) {
+Obj g__03513406_037 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == g__03513406_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
@@ -3947,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj g__03513343_037 = PRIM_EQ(Nil, v_macros);
-if (True == g__03513343_037) {
+Obj g__03513382_037 = PRIM_EQ(Nil, v_macros);
+if (True == g__03513382_037) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj g__03513350_037 = PRIM_CAR(v_macros);
+Obj g__03513389_037 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), g__03513350_037);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), g__03513389_037);
 return;
 }
 }
@@ -3966,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj g__03513185_037 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj g__03513346_037 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == g__03513346_037) {
-Obj g__03513347_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03513348_037 = PRIM_CAR(v_item);
-Obj g__03513349_037 = PRIM_EQ(g__03513347_037, g__03513348_037);
-if (True == g__03513349_037) {
+Obj g__03513224_037 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj g__03513385_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03513385_037) {
+Obj g__03513386_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03513387_037 = PRIM_CAR(v_item);
+Obj g__03513388_037 = PRIM_EQ(g__03513386_037, g__03513387_037);
+if (True == g__03513388_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03513185_037, True);
+coraCall1(co, g__03513224_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513185_037, False);
+coraCall1(co, g__03513224_037, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03513185_037, False);
+coraCall1(co, g__03513224_037, False);
 return;
 }
 }
@@ -3994,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03513184_037 = R[1];
-if (True == g__03513184_037) {
-Obj g__03513344_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03513223_037 = R[1];
+if (True == g__03513223_037) {
+Obj g__03513383_037 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, g__03513344_037, closureRef(R[0], 1));
+coraCall1(co, g__03513383_037, closureRef(R[0], 1));
 return;
 } else {
-Obj g__03513345_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03513384_037 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), g__03513345_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), g__03513384_037);
 return;
 }
 }
@@ -4016,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj g__03513339_037 = makeCons(co->gc, v_n, v_v);
-Obj g__03513340_037 = makeCons(co->gc, g__03513339_037, globalRef(co, getBinding(co, packageID, 147)));
-Obj g__03513341_037 = primSet(co, getBinding(co, packageID, 147).name, g__03513340_037);
-coraReturn(co, g__03513341_037);
+Obj g__03513378_037 = makeCons(co->gc, v_n, v_v);
+Obj g__03513379_037 = makeCons(co->gc, g__03513378_037, globalRef(co, getBinding(co, packageID, 147)));
+Obj g__03513380_037 = primSet(co, getBinding(co, packageID, 147).name, g__03513379_037);
+coraReturn(co, g__03513380_037);
 return;
 }
 }
@@ -4045,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj g__03513329_037 = PRIM_ISCONS(v_l);
-if (True == g__03513329_037) {
-Obj g__03513330_037 = PRIM_CAR(v_l);
+Obj g__03513368_037 = PRIM_ISCONS(v_l);
+if (True == g__03513368_037) {
+Obj g__03513369_037 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, g__03513330_037);
+coraCall1(co, v_f, g__03513369_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -4062,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj g__03513331_037= co->res;
+Obj g__03513370_037= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj g__03513332_037 = makeCons(co->gc, g__03513331_037, v_res);
-Obj g__03513333_037 = PRIM_CDR(v_l);
+Obj g__03513371_037 = makeCons(co->gc, g__03513370_037, v_res);
+Obj g__03513372_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), g__03513332_037, v_f, g__03513333_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), g__03513371_037, v_f, g__03513372_037);
 return;
 }
 }
@@ -4081,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj g__03513322_037 = PRIM_ISCONS(v_l);
-if (True == g__03513322_037) {
-Obj g__03513323_037 = PRIM_CAR(v_l);
-Obj g__03513324_037 = makeCons(co->gc, g__03513323_037, v_res);
-Obj g__03513325_037 = PRIM_CDR(v_l);
+Obj g__03513361_037 = PRIM_ISCONS(v_l);
+if (True == g__03513361_037) {
+Obj g__03513362_037 = PRIM_CAR(v_l);
+Obj g__03513363_037 = makeCons(co->gc, g__03513362_037, v_res);
+Obj g__03513364_037 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), g__03513324_037, g__03513325_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), g__03513363_037, g__03513364_037);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4102,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513320_037 = PRIM_ISCONS(v_x);
-coraReturn(co, g__03513320_037);
+Obj g__03513359_037 = PRIM_ISCONS(v_x);
+coraReturn(co, g__03513359_037);
 return;
 }
 }
@@ -4114,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj g__03513312_037 = PRIM_ISCONS(v_exp);
-if (True == g__03513312_037) {
-Obj g__03513313_037 = PRIM_CAR(v_exp);
-Obj g__03513314_037 = PRIM_CDR(v_exp);
-R[1] = g__03513313_037;
+Obj g__03513351_037 = PRIM_ISCONS(v_exp);
+if (True == g__03513351_037) {
+Obj g__03513352_037 = PRIM_CAR(v_exp);
+Obj g__03513353_037 = PRIM_CDR(v_exp);
+R[1] = g__03513352_037;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), g__03513314_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), g__03513353_037);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj g__03513315_037= co->res;
-Obj g__03513313_037 = R[1];
-Obj g__03513316_037 = makeCons(co->gc, g__03513315_037, Nil);
-Obj g__03513317_037 = makeCons(co->gc, g__03513313_037, g__03513316_037);
-Obj g__03513318_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513317_037);
-coraReturn(co, g__03513318_037);
+Obj g__03513354_037= co->res;
+Obj g__03513352_037 = R[1];
+Obj g__03513355_037 = makeCons(co->gc, g__03513354_037, Nil);
+Obj g__03513356_037 = makeCons(co->gc, g__03513352_037, g__03513355_037);
+Obj g__03513357_037 = makeCons(co->gc, getBinding(co, packageID, 153).name, g__03513356_037);
+coraReturn(co, g__03513357_037);
 return;
 }
 }
@@ -4145,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513308_037 = PRIM_CDR(v_x);
-Obj g__03513309_037 = PRIM_CDR(g__03513308_037);
-Obj g__03513310_037 = PRIM_CDR(g__03513309_037);
-coraReturn(co, g__03513310_037);
+Obj g__03513347_037 = PRIM_CDR(v_x);
+Obj g__03513348_037 = PRIM_CDR(g__03513347_037);
+Obj g__03513349_037 = PRIM_CDR(g__03513348_037);
+coraReturn(co, g__03513349_037);
 return;
 }
 }
@@ -4159,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513303_037 = PRIM_CDR(v_x);
-Obj g__03513304_037 = PRIM_CDR(g__03513303_037);
-Obj g__03513305_037 = PRIM_CDR(g__03513304_037);
-Obj g__03513306_037 = PRIM_CAR(g__03513305_037);
-coraReturn(co, g__03513306_037);
+Obj g__03513342_037 = PRIM_CDR(v_x);
+Obj g__03513343_037 = PRIM_CDR(g__03513342_037);
+Obj g__03513344_037 = PRIM_CDR(g__03513343_037);
+Obj g__03513345_037 = PRIM_CAR(g__03513344_037);
+coraReturn(co, g__03513345_037);
 return;
 }
 }
@@ -4174,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513299_037 = PRIM_CDR(v_x);
-Obj g__03513300_037 = PRIM_CDR(g__03513299_037);
-Obj g__03513301_037 = PRIM_CAR(g__03513300_037);
-coraReturn(co, g__03513301_037);
+Obj g__03513338_037 = PRIM_CDR(v_x);
+Obj g__03513339_037 = PRIM_CDR(g__03513338_037);
+Obj g__03513340_037 = PRIM_CAR(g__03513339_037);
+coraReturn(co, g__03513340_037);
 return;
 }
 }
@@ -4188,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513296_037 = PRIM_CDR(v_x);
-Obj g__03513297_037 = PRIM_CDR(g__03513296_037);
-coraReturn(co, g__03513297_037);
+Obj g__03513335_037 = PRIM_CDR(v_x);
+Obj g__03513336_037 = PRIM_CDR(g__03513335_037);
+coraReturn(co, g__03513336_037);
 return;
 }
 }
@@ -4201,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513293_037 = PRIM_CAR(v_x);
-Obj g__03513294_037 = PRIM_CDR(g__03513293_037);
-coraReturn(co, g__03513294_037);
+Obj g__03513332_037 = PRIM_CAR(v_x);
+Obj g__03513333_037 = PRIM_CDR(g__03513332_037);
+coraReturn(co, g__03513333_037);
 return;
 }
 }
@@ -4214,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513290_037 = PRIM_CAR(v_x);
-Obj g__03513291_037 = PRIM_CAR(g__03513290_037);
-coraReturn(co, g__03513291_037);
+Obj g__03513329_037 = PRIM_CAR(v_x);
+Obj g__03513330_037 = PRIM_CAR(g__03513329_037);
+coraReturn(co, g__03513330_037);
 return;
 }
 }
@@ -4227,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513287_037 = PRIM_CDR(v_x);
-Obj g__03513288_037 = PRIM_CAR(g__03513287_037);
-coraReturn(co, g__03513288_037);
+Obj g__03513326_037 = PRIM_CDR(v_x);
+Obj g__03513327_037 = PRIM_CAR(g__03513326_037);
+coraReturn(co, g__03513327_037);
 return;
 }
 }
@@ -4240,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03513285_037 = PRIM_EQ(v_x, Nil);
-coraReturn(co, g__03513285_037);
+Obj g__03513324_037 = PRIM_EQ(v_x, Nil);
+coraReturn(co, g__03513324_037);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index da53fd4..24c5afc 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -289,6 +289,7 @@ __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[131] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
+stackAlloc(co, 1)[0] = Nil;
 co->ctx.fn = clofun148;
 co->ctx.label = 0;
 }
@@ -303,152 +304,152 @@ return;
 }
 case 1:
 {
-Obj g__03519315_037= co->res;
-Obj g__03519321_037 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun114, 2, 0));
-Obj g__03519327_037 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun115, 2, 0));
-Obj g__03519349_037 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun117, 3, 0));
-Obj g__03519369_037 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun119, 3, 0));
-Obj g__03519379_037 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun122, 3, 0));
-Obj g__03519420_037 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun127, 1, 0));
-Obj g__03519459_037 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun130, 4, 0));
-Obj g__03519511_037 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun135, 2, 0));
-Obj g__03519512_037 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun136, 2, 0));
-Obj g__03519526_037 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun144, 1, 0));
-Obj g__03519527_037 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj g__03519540_037 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun146, 1, 0));
-Obj g__03519550_037 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun147, 2, 0));
-coraReturn(co, g__03519550_037);
+Obj g__03519354_037= co->res;
+Obj g__03519360_037 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj g__03519366_037 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun115, 2, 0));
+Obj g__03519388_037 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun117, 3, 0));
+Obj g__03519414_037 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun119, 3, 0));
+Obj g__03519424_037 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun122, 3, 0));
+Obj g__03519465_037 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun127, 1, 0));
+Obj g__03519504_037 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun130, 4, 0));
+Obj g__03519556_037 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun135, 2, 0));
+Obj g__03519557_037 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun136, 2, 0));
+Obj g__03519571_037 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun144, 1, 0));
+Obj g__03519572_037 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj g__03519585_037 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun146, 1, 0));
+Obj g__03519595_037 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun147, 2, 0));
+coraReturn(co, g__03519595_037);
 return;
 }
 case 2:
 {
-Obj g__03517883_037= co->res;
-Obj g__03517884_037 = primSet(co, getBinding(co, packageID, 130).name, Nil);
-Obj g__03517899_037 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj g__03517905_037 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj g__03517915_037 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj g__03517916_037 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj g__03517923_037 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj g__03517924_037 = makeCons(co->gc, makeString(co->gc, "primSet", 7), Nil);
-Obj g__03517925_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517924_037);
-Obj g__03517926_037 = makeCons(co->gc, getBinding(co, packageID, 122).name, g__03517925_037);
-Obj g__03517927_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CAR", 8), Nil);
-Obj g__03517928_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517927_037);
-Obj g__03517929_037 = makeCons(co->gc, getBinding(co, packageID, 121).name, g__03517928_037);
-Obj g__03517930_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CDR", 8), Nil);
-Obj g__03517931_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517930_037);
-Obj g__03517932_037 = makeCons(co->gc, getBinding(co, packageID, 120).name, g__03517931_037);
-Obj g__03517933_037 = makeCons(co->gc, makeString(co->gc, "makeCons", 8), Nil);
-Obj g__03517934_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517933_037);
-Obj g__03517935_037 = makeCons(co->gc, getBinding(co, packageID, 119).name, g__03517934_037);
-Obj g__03517936_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ISCONS", 11), Nil);
-Obj g__03517937_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517936_037);
-Obj g__03517938_037 = makeCons(co->gc, getBinding(co, packageID, 118).name, g__03517937_037);
-Obj g__03517939_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ADD", 8), Nil);
-Obj g__03517940_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517939_037);
-Obj g__03517941_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03517940_037);
-Obj g__03517942_037 = makeCons(co->gc, makeString(co->gc, "PRIM_SUB", 8), Nil);
-Obj g__03517943_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517942_037);
-Obj g__03517944_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03517943_037);
-Obj g__03517945_037 = makeCons(co->gc, makeString(co->gc, "PRIM_MUL", 8), Nil);
-Obj g__03517946_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517945_037);
-Obj g__03517947_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03517946_037);
-Obj g__03517948_037 = makeCons(co->gc, makeString(co->gc, "primDiv", 7), Nil);
-Obj g__03517949_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517948_037);
-Obj g__03517950_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03517949_037);
-Obj g__03517951_037 = makeCons(co->gc, makeString(co->gc, "PRIM_EQ", 7), Nil);
-Obj g__03517952_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517951_037);
-Obj g__03517953_037 = makeCons(co->gc, getBinding(co, packageID, 113).name, g__03517952_037);
-Obj g__03517954_037 = makeCons(co->gc, makeString(co->gc, "PRIM_GT", 7), Nil);
-Obj g__03517955_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517954_037);
-Obj g__03517956_037 = makeCons(co->gc, getBinding(co, packageID, 112).name, g__03517955_037);
-Obj g__03517957_037 = makeCons(co->gc, makeString(co->gc, "PRIM_LT", 7), Nil);
-Obj g__03517958_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517957_037);
-Obj g__03517959_037 = makeCons(co->gc, getBinding(co, packageID, 111).name, g__03517958_037);
-Obj g__03517960_037 = makeCons(co->gc, makeString(co->gc, "primGenSym", 10), Nil);
-Obj g__03517961_037 = makeCons(co->gc, MAKE_NUMBER(0), g__03517960_037);
-Obj g__03517962_037 = makeCons(co->gc, getBinding(co, packageID, 110).name, g__03517961_037);
-Obj g__03517963_037 = makeCons(co->gc, makeString(co->gc, "primIsSymbol", 12), Nil);
-Obj g__03517964_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517963_037);
-Obj g__03517965_037 = makeCons(co->gc, getBinding(co, packageID, 109).name, g__03517964_037);
-Obj g__03517966_037 = makeCons(co->gc, makeString(co->gc, "primNot", 7), Nil);
+Obj g__03517922_037= co->res;
+Obj g__03517923_037 = primSet(co, getBinding(co, packageID, 130).name, Nil);
+Obj g__03517938_037 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj g__03517944_037 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj g__03517954_037 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj g__03517955_037 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj g__03517962_037 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj g__03517963_037 = makeCons(co->gc, makeString(co->gc, "primSet", 7), Nil);
+Obj g__03517964_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517963_037);
+Obj g__03517965_037 = makeCons(co->gc, getBinding(co, packageID, 122).name, g__03517964_037);
+Obj g__03517966_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CAR", 8), Nil);
 Obj g__03517967_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517966_037);
-Obj g__03517968_037 = makeCons(co->gc, getBinding(co, packageID, 108).name, g__03517967_037);
-Obj g__03517969_037 = makeCons(co->gc, makeString(co->gc, "primIsNumber", 12), Nil);
+Obj g__03517968_037 = makeCons(co->gc, getBinding(co, packageID, 121).name, g__03517967_037);
+Obj g__03517969_037 = makeCons(co->gc, makeString(co->gc, "PRIM_CDR", 8), Nil);
 Obj g__03517970_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517969_037);
-Obj g__03517971_037 = makeCons(co->gc, getBinding(co, packageID, 107).name, g__03517970_037);
-Obj g__03517972_037 = makeCons(co->gc, makeString(co->gc, "primIsString", 12), Nil);
-Obj g__03517973_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517972_037);
-Obj g__03517974_037 = makeCons(co->gc, getBinding(co, packageID, 106).name, g__03517973_037);
-Obj g__03517975_037 = makeCons(co->gc, g__03517974_037, Nil);
-Obj g__03517976_037 = makeCons(co->gc, g__03517971_037, g__03517975_037);
-Obj g__03517977_037 = makeCons(co->gc, g__03517968_037, g__03517976_037);
-Obj g__03517978_037 = makeCons(co->gc, g__03517965_037, g__03517977_037);
-Obj g__03517979_037 = makeCons(co->gc, g__03517962_037, g__03517978_037);
-Obj g__03517980_037 = makeCons(co->gc, g__03517959_037, g__03517979_037);
-Obj g__03517981_037 = makeCons(co->gc, g__03517956_037, g__03517980_037);
-Obj g__03517982_037 = makeCons(co->gc, g__03517953_037, g__03517981_037);
-Obj g__03517983_037 = makeCons(co->gc, g__03517950_037, g__03517982_037);
-Obj g__03517984_037 = makeCons(co->gc, g__03517947_037, g__03517983_037);
-Obj g__03517985_037 = makeCons(co->gc, g__03517944_037, g__03517984_037);
-Obj g__03517986_037 = makeCons(co->gc, g__03517941_037, g__03517985_037);
-Obj g__03517987_037 = makeCons(co->gc, g__03517938_037, g__03517986_037);
-Obj g__03517988_037 = makeCons(co->gc, g__03517935_037, g__03517987_037);
-Obj g__03517989_037 = makeCons(co->gc, g__03517932_037, g__03517988_037);
-Obj g__03517990_037 = makeCons(co->gc, g__03517929_037, g__03517989_037);
-Obj g__03517991_037 = makeCons(co->gc, g__03517926_037, g__03517990_037);
-Obj g__03517992_037 = primSet(co, getBinding(co, packageID, 123).name, g__03517991_037);
-Obj g__03517996_037 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj g__03517999_037 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj g__03518002_037 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj g__03518007_037 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj g__03518248_037 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
-Obj g__03518259_037 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj g__03518270_037 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun28, 2, 0));
-Obj g__03518331_037 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun35, 1, 0));
-Obj g__03518506_037 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj g__03518579_037 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun48, 2, 0));
-Obj g__03518582_037 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj g__03518719_037 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun58, 2, 0));
-Obj g__03518742_037 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun61, 3, 0));
-Obj g__03518819_037 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun65, 2, 0));
-Obj g__03518850_037 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun69, 3, 0));
-Obj g__03518856_037 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun72, 4, 0));
-Obj g__03518861_037 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun74, 2, 0));
-Obj g__03518870_037 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun76, 1, 0));
-Obj g__03518921_037 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun78, 2, 0));
-Obj g__03518929_037 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun79, 2, 0));
-Obj g__03518936_037 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj g__03518941_037 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun81, 2, 0));
-Obj g__03518947_037 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun82, 3, 0));
-Obj g__03518948_037 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj g__03518955_037 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun85, 5, 0));
-Obj g__03518962_037 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun87, 5, 0));
-Obj g__03519252_037 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun100, 5, 0));
-Obj g__03519266_037 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun102, 5, 0));
-Obj g__03519288_037 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun104, 5, 0));
-Obj g__03519290_037 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj g__03519294_037 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun106, 2, 0));
-Obj g__03519295_037 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun107, 2, 0));
-Obj g__03519296_037 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj g__03519297_037 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun109, 1, 0));
-Obj g__03519298_037 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun110, 1, 0));
-Obj g__03519305_037 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun111, 1, 0));
-Obj g__03519312_037 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj g__03517971_037 = makeCons(co->gc, getBinding(co, packageID, 120).name, g__03517970_037);
+Obj g__03517972_037 = makeCons(co->gc, makeString(co->gc, "makeCons", 8), Nil);
+Obj g__03517973_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517972_037);
+Obj g__03517974_037 = makeCons(co->gc, getBinding(co, packageID, 119).name, g__03517973_037);
+Obj g__03517975_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ISCONS", 11), Nil);
+Obj g__03517976_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03517975_037);
+Obj g__03517977_037 = makeCons(co->gc, getBinding(co, packageID, 118).name, g__03517976_037);
+Obj g__03517978_037 = makeCons(co->gc, makeString(co->gc, "PRIM_ADD", 8), Nil);
+Obj g__03517979_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517978_037);
+Obj g__03517980_037 = makeCons(co->gc, getBinding(co, packageID, 117).name, g__03517979_037);
+Obj g__03517981_037 = makeCons(co->gc, makeString(co->gc, "PRIM_SUB", 8), Nil);
+Obj g__03517982_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517981_037);
+Obj g__03517983_037 = makeCons(co->gc, getBinding(co, packageID, 116).name, g__03517982_037);
+Obj g__03517984_037 = makeCons(co->gc, makeString(co->gc, "PRIM_MUL", 8), Nil);
+Obj g__03517985_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517984_037);
+Obj g__03517986_037 = makeCons(co->gc, getBinding(co, packageID, 115).name, g__03517985_037);
+Obj g__03517987_037 = makeCons(co->gc, makeString(co->gc, "primDiv", 7), Nil);
+Obj g__03517988_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517987_037);
+Obj g__03517989_037 = makeCons(co->gc, getBinding(co, packageID, 114).name, g__03517988_037);
+Obj g__03517990_037 = makeCons(co->gc, makeString(co->gc, "PRIM_EQ", 7), Nil);
+Obj g__03517991_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517990_037);
+Obj g__03517992_037 = makeCons(co->gc, getBinding(co, packageID, 113).name, g__03517991_037);
+Obj g__03517993_037 = makeCons(co->gc, makeString(co->gc, "PRIM_GT", 7), Nil);
+Obj g__03517994_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517993_037);
+Obj g__03517995_037 = makeCons(co->gc, getBinding(co, packageID, 112).name, g__03517994_037);
+Obj g__03517996_037 = makeCons(co->gc, makeString(co->gc, "PRIM_LT", 7), Nil);
+Obj g__03517997_037 = makeCons(co->gc, MAKE_NUMBER(2), g__03517996_037);
+Obj g__03517998_037 = makeCons(co->gc, getBinding(co, packageID, 111).name, g__03517997_037);
+Obj g__03517999_037 = makeCons(co->gc, makeString(co->gc, "primGenSym", 10), Nil);
+Obj g__03518000_037 = makeCons(co->gc, MAKE_NUMBER(0), g__03517999_037);
+Obj g__03518001_037 = makeCons(co->gc, getBinding(co, packageID, 110).name, g__03518000_037);
+Obj g__03518002_037 = makeCons(co->gc, makeString(co->gc, "primIsSymbol", 12), Nil);
+Obj g__03518003_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03518002_037);
+Obj g__03518004_037 = makeCons(co->gc, getBinding(co, packageID, 109).name, g__03518003_037);
+Obj g__03518005_037 = makeCons(co->gc, makeString(co->gc, "primNot", 7), Nil);
+Obj g__03518006_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03518005_037);
+Obj g__03518007_037 = makeCons(co->gc, getBinding(co, packageID, 108).name, g__03518006_037);
+Obj g__03518008_037 = makeCons(co->gc, makeString(co->gc, "primIsNumber", 12), Nil);
+Obj g__03518009_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03518008_037);
+Obj g__03518010_037 = makeCons(co->gc, getBinding(co, packageID, 107).name, g__03518009_037);
+Obj g__03518011_037 = makeCons(co->gc, makeString(co->gc, "primIsString", 12), Nil);
+Obj g__03518012_037 = makeCons(co->gc, MAKE_NUMBER(1), g__03518011_037);
+Obj g__03518013_037 = makeCons(co->gc, getBinding(co, packageID, 106).name, g__03518012_037);
+Obj g__03518014_037 = makeCons(co->gc, g__03518013_037, Nil);
+Obj g__03518015_037 = makeCons(co->gc, g__03518010_037, g__03518014_037);
+Obj g__03518016_037 = makeCons(co->gc, g__03518007_037, g__03518015_037);
+Obj g__03518017_037 = makeCons(co->gc, g__03518004_037, g__03518016_037);
+Obj g__03518018_037 = makeCons(co->gc, g__03518001_037, g__03518017_037);
+Obj g__03518019_037 = makeCons(co->gc, g__03517998_037, g__03518018_037);
+Obj g__03518020_037 = makeCons(co->gc, g__03517995_037, g__03518019_037);
+Obj g__03518021_037 = makeCons(co->gc, g__03517992_037, g__03518020_037);
+Obj g__03518022_037 = makeCons(co->gc, g__03517989_037, g__03518021_037);
+Obj g__03518023_037 = makeCons(co->gc, g__03517986_037, g__03518022_037);
+Obj g__03518024_037 = makeCons(co->gc, g__03517983_037, g__03518023_037);
+Obj g__03518025_037 = makeCons(co->gc, g__03517980_037, g__03518024_037);
+Obj g__03518026_037 = makeCons(co->gc, g__03517977_037, g__03518025_037);
+Obj g__03518027_037 = makeCons(co->gc, g__03517974_037, g__03518026_037);
+Obj g__03518028_037 = makeCons(co->gc, g__03517971_037, g__03518027_037);
+Obj g__03518029_037 = makeCons(co->gc, g__03517968_037, g__03518028_037);
+Obj g__03518030_037 = makeCons(co->gc, g__03517965_037, g__03518029_037);
+Obj g__03518031_037 = primSet(co, getBinding(co, packageID, 123).name, g__03518030_037);
+Obj g__03518035_037 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj g__03518038_037 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj g__03518041_037 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj g__03518046_037 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj g__03518287_037 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 4, clofun24, 3, 0));
+Obj g__03518298_037 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj g__03518309_037 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun28, 2, 0));
+Obj g__03518370_037 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 2, clofun35, 1, 0));
+Obj g__03518545_037 = primSet(co, getBinding(co, packageID, 77).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj g__03518618_037 = primSet(co, getBinding(co, packageID, 72).name, makeNative(co->gc, 4, clofun48, 2, 0));
+Obj g__03518621_037 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj g__03518758_037 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 3, clofun58, 2, 0));
+Obj g__03518781_037 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 4, clofun61, 3, 0));
+Obj g__03518858_037 = primSet(co, getBinding(co, packageID, 64).name, makeNative(co->gc, 3, clofun65, 2, 0));
+Obj g__03518889_037 = primSet(co, getBinding(co, packageID, 62).name, makeNative(co->gc, 4, clofun69, 3, 0));
+Obj g__03518895_037 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 5, clofun72, 4, 0));
+Obj g__03518900_037 = primSet(co, getBinding(co, packageID, 59).name, makeNative(co->gc, 3, clofun74, 2, 0));
+Obj g__03518909_037 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 2, clofun76, 1, 0));
+Obj g__03518960_037 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 6, clofun78, 2, 0));
+Obj g__03518968_037 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj g__03518975_037 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj g__03518980_037 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 4, clofun81, 2, 0));
+Obj g__03518986_037 = primSet(co, getBinding(co, packageID, 52).name, makeNative(co->gc, 4, clofun82, 3, 0));
+Obj g__03518987_037 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj g__03518994_037 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj g__03519001_037 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun87, 5, 0));
+Obj g__03519291_037 = primSet(co, getBinding(co, packageID, 47).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj g__03519305_037 = primSet(co, getBinding(co, packageID, 44).name, makeNative(co->gc, 6, clofun102, 5, 0));
+Obj g__03519327_037 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun104, 5, 0));
+Obj g__03519329_037 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj g__03519333_037 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj g__03519334_037 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun107, 2, 0));
+Obj g__03519335_037 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj g__03519336_037 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj g__03519337_037 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj g__03519344_037 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun111, 1, 0));
+Obj g__03519351_037 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun112, 2, 0));
 saveCont(co, clofun148, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun113, 1, 0));
 return;
 }
 case 3:
 {
-Obj g__03517882_037= co->res;
+Obj g__03517921_037= co->res;
 saveCont(co, clofun148, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeString(co->gc, "cora/lib/hash-h", 15));
 return;
 }
 case 4:
 {
-Obj g__03517881_037= co->res;
+Obj g__03517920_037= co->res;
 saveCont(co, clofun148, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeString(co->gc, "cora/lib/io", 11));
 return;
@@ -462,92 +463,92 @@ case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj g__03519541_037 = primGenSym(co);
-Obj g__03517878_037 = g__03519541_037;
-Obj g__03519542_037 = primSet(co, g__03517878_037, Nil);
+Obj g__03519586_037 = primGenSym(co);
+Obj g__03517917_037 = g__03519586_037;
+Obj g__03519587_037 = primSet(co, g__03517917_037, Nil);
 R[1] = v_from;
 R[2] = v_to;
-R[3] = g__03517878_037;
+R[3] = g__03517917_037;
 saveCont(co, clofun147, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), g__03517878_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), g__03517917_037);
 return;
 }
 case 1:
 {
-Obj g__03519549_037= co->res;
-Obj g__03517880_037 = R[1];
+Obj g__03519594_037= co->res;
+Obj g__03517919_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), g__03517880_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), g__03517919_037);
 return;
 }
 case 2:
 {
-Obj g__03519548_037= co->res;
-Obj g__03517879_037 = R[1];
-Obj g__03517880_037 = R[2];
-R[1] = g__03517880_037;
+Obj g__03519593_037= co->res;
+Obj g__03517918_037 = R[1];
+Obj g__03517919_037 = R[2];
+R[1] = g__03517919_037;
 saveCont(co, clofun147, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), g__03517880_037, g__03517879_037, g__03519548_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), g__03517919_037, g__03517918_037, g__03519593_037);
 return;
 }
 case 3:
 {
-Obj g__03519547_037= co->res;
-Obj g__03517878_037 = R[1];
-Obj g__03517879_037 = R[2];
-Obj g__03517880_037 = g__03519547_037;
-R[1] = g__03517879_037;
-R[2] = g__03517880_037;
+Obj g__03519592_037= co->res;
+Obj g__03517917_037 = R[1];
+Obj g__03517918_037 = R[2];
+Obj g__03517919_037 = g__03519592_037;
+R[1] = g__03517918_037;
+R[2] = g__03517919_037;
 saveCont(co, clofun147, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517878_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517917_037);
 return;
 }
 case 4:
 {
-Obj g__03519546_037= co->res;
+Obj g__03519591_037= co->res;
 Obj v_to = R[1];
-Obj g__03517878_037 = R[2];
-Obj g__03517879_037 = g__03519546_037;
-R[1] = g__03517878_037;
-R[2] = g__03517879_037;
+Obj g__03517917_037 = R[2];
+Obj g__03517918_037 = g__03519591_037;
+R[1] = g__03517917_037;
+R[2] = g__03517918_037;
 saveCont(co, clofun147, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj g__03519545_037= co->res;
-Obj g__03519543_037 = R[1];
+Obj g__03519590_037= co->res;
+Obj g__03519588_037 = R[1];
 Obj v_to = R[2];
-Obj g__03517878_037 = R[3];
+Obj g__03517917_037 = R[3];
 R[1] = v_to;
-R[2] = g__03517878_037;
+R[2] = g__03517917_037;
 saveCont(co, clofun147, 4, R);
-coraCall1(co, g__03519543_037, g__03519545_037);
+coraCall1(co, g__03519588_037, g__03519590_037);
 return;
 }
 case 6:
 {
-Obj g__03519544_037= co->res;
-Obj g__03519543_037 = R[1];
+Obj g__03519589_037= co->res;
+Obj g__03519588_037 = R[1];
 Obj v_to = R[2];
-Obj g__03517878_037 = R[3];
-R[1] = g__03519543_037;
+Obj g__03517917_037 = R[3];
+R[1] = g__03519588_037;
 R[2] = v_to;
-R[3] = g__03517878_037;
+R[3] = g__03517917_037;
 saveCont(co, clofun147, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), g__03519544_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), g__03519589_037);
 return;
 }
 case 7:
 {
-Obj g__03519543_037= co->res;
+Obj g__03519588_037= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj g__03517878_037 = R[3];
-R[1] = g__03519543_037;
+Obj g__03517917_037 = R[3];
+R[1] = g__03519588_037;
 R[2] = v_to;
-R[3] = g__03517878_037;
+R[3] = g__03517917_037;
 saveCont(co, clofun147, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
@@ -566,90 +567,90 @@ return;
 }
 case 1:
 {
-Obj g__03519535_037= co->res;
-Obj g__03517874_037 = R[1];
+Obj g__03519580_037= co->res;
+Obj g__03517913_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517913_037);
 return;
 }
 case 2:
 {
-Obj g__03519534_037= co->res;
-Obj g__03517874_037 = R[1];
-R[1] = g__03517874_037;
+Obj g__03519579_037= co->res;
+Obj g__03517913_037 = R[1];
+R[1] = g__03517913_037;
 saveCont(co, clofun146, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517913_037);
 return;
 }
 case 3:
 {
-Obj g__03519537_037= co->res;
-Obj g__03517874_037 = R[1];
+Obj g__03519582_037= co->res;
+Obj g__03517913_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517913_037);
 return;
 }
 case 4:
 {
-Obj g__03519536_037= co->res;
-Obj g__03517874_037 = R[1];
-R[1] = g__03517874_037;
+Obj g__03519581_037= co->res;
+Obj g__03517913_037 = R[1];
+R[1] = g__03517913_037;
 saveCont(co, clofun146, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517913_037);
 return;
 }
 case 5:
 {
-Obj g__03519539_037= co->res;
-Obj g__03517874_037 = R[1];
+Obj g__03519584_037= co->res;
+Obj g__03517913_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), g__03517913_037);
 return;
 }
 case 6:
 {
-Obj g__03519538_037= co->res;
-Obj g__03517874_037 = R[1];
-R[1] = g__03517874_037;
+Obj g__03519583_037= co->res;
+Obj g__03517913_037 = R[1];
+R[1] = g__03517913_037;
 saveCont(co, clofun146, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517913_037);
 return;
 }
 case 7:
 {
-Obj g__03519531_037= co->res;
-Obj g__03517877_037 = R[1];
-Obj g__03517874_037 = R[2];
-if (True == g__03519531_037) {
-Obj g__03519532_037 = PRIM_CAR(g__03517874_037);
-Obj g__03519533_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519532_037);
-if (True == g__03519533_037) {
-R[1] = g__03517874_037;
+Obj g__03519576_037= co->res;
+Obj g__03517916_037 = R[1];
+Obj g__03517913_037 = R[2];
+if (True == g__03519576_037) {
+Obj g__03519577_037 = PRIM_CAR(g__03517913_037);
+Obj g__03519578_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519577_037);
+if (True == g__03519578_037) {
+R[1] = g__03517913_037;
 saveCont(co, clofun146, 2, R);
-coraCall1(co, g__03517877_037, True);
+coraCall1(co, g__03517916_037, True);
 return;
 } else {
-R[1] = g__03517874_037;
+R[1] = g__03517913_037;
 saveCont(co, clofun146, 4, R);
-coraCall1(co, g__03517877_037, False);
+coraCall1(co, g__03517916_037, False);
 return;
 }
 } else {
-R[1] = g__03517874_037;
+R[1] = g__03517913_037;
 saveCont(co, clofun146, 6, R);
-coraCall1(co, g__03517877_037, False);
+coraCall1(co, g__03517916_037, False);
 return;
 }
 }
 case 8:
 {
-Obj g__03519528_037= co->res;
-Obj g__03517874_037 = g__03519528_037;
-Obj g__03517877_037 = makeNative(co->gc, 2, clofun145, 1, 1, g__03517874_037);
-R[1] = g__03517877_037;
-R[2] = g__03517874_037;
+Obj g__03519573_037= co->res;
+Obj g__03517913_037 = g__03519573_037;
+Obj g__03517916_037 = makeNative(co->gc, 2, clofun145, 1, 1, g__03517913_037);
+R[1] = g__03517916_037;
+R[2] = g__03517913_037;
 saveCont(co, clofun146, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), g__03517874_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), g__03517913_037);
 return;
 }
 }
@@ -659,14 +660,14 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517876_037 = R[1];
-if (True == g__03517876_037) {
-Obj g__03519529_037 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, g__03519529_037);
+Obj g__03517915_037 = R[1];
+if (True == g__03517915_037) {
+Obj g__03519574_037 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, g__03519574_037);
 return;
 } else {
-Obj g__03519530_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, g__03519530_037);
+Obj g__03519575_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, g__03519575_037);
 return;
 }
 }
@@ -677,27 +678,27 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517603_037 = R[1];
-Obj g__03517870_037 = makeNative(co->gc, 1, clofun141, 0, 1, g__03517603_037);
-Obj g__03519521_037 = PRIM_ISCONS(g__03517603_037);
-if (True == g__03519521_037) {
-Obj g__03519522_037 = PRIM_CAR(g__03517603_037);
-Obj g__03519523_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519522_037);
-if (True == g__03519523_037) {
-Obj g__03519524_037 = PRIM_CDR(g__03517603_037);
-Obj g__03517873_037 = g__03519524_037;
-Obj g__03519525_037 = makeCons(co->gc, getBinding(co, packageID, 18).name, g__03517873_037);
+Obj g__03517642_037 = R[1];
+Obj g__03517909_037 = makeNative(co->gc, 1, clofun141, 0, 1, g__03517642_037);
+Obj g__03519566_037 = PRIM_ISCONS(g__03517642_037);
+if (True == g__03519566_037) {
+Obj g__03519567_037 = PRIM_CAR(g__03517642_037);
+Obj g__03519568_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519567_037);
+if (True == g__03519568_037) {
+Obj g__03519569_037 = PRIM_CDR(g__03517642_037);
+Obj g__03517912_037 = g__03519569_037;
+Obj g__03519570_037 = makeCons(co->gc, getBinding(co, packageID, 18).name, g__03517912_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03519525_037, makeNative(co->gc, 2, clofun143, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03519570_037, makeNative(co->gc, 2, clofun143, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517870_037);
+coraCall0(co, g__03517909_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517870_037);
+coraCall0(co, g__03517909_037);
 return;
 }
 }
@@ -733,26 +734,26 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517871_037 = makeNative(co->gc, 1, clofun138, 0, 1, closureRef(R[0], 0));
-Obj g__03519516_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519516_037) {
-Obj g__03519517_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519518_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519517_037);
-if (True == g__03519518_037) {
-Obj g__03519519_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517872_037 = g__03519519_037;
-Obj g__03519520_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03517872_037);
+Obj g__03517910_037 = makeNative(co->gc, 1, clofun138, 0, 1, closureRef(R[0], 0));
+Obj g__03519561_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519561_037) {
+Obj g__03519562_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519563_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519562_037);
+if (True == g__03519563_037) {
+Obj g__03519564_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517911_037 = g__03519564_037;
+Obj g__03519565_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03517911_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03519520_037, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03519565_037, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517871_037);
+coraCall0(co, g__03517910_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517871_037);
+coraCall0(co, g__03517910_037);
 return;
 }
 }
@@ -788,9 +789,9 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03519513_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03519558_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03519513_037, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03519558_037, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
 return;
 }
 }
@@ -808,9 +809,9 @@ return;
 }
 case 1:
 {
-Obj g__03519514_037= co->res;
-Obj g__03519515_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03519514_037);
-coraReturn(co, g__03519515_037);
+Obj g__03519559_037= co->res;
+Obj g__03519560_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03519559_037);
+coraReturn(co, g__03519560_037);
 return;
 }
 }
@@ -838,50 +839,50 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517596_037 = R[1];
-Obj g__03517597_037 = R[2];
-Obj g__03517859_037 = makeNative(co->gc, 2, clofun134, 0, 2, g__03517596_037, g__03517597_037);
-Obj g__03519499_037 = PRIM_ISCONS(g__03517596_037);
-if (True == g__03519499_037) {
-Obj g__03519500_037 = PRIM_CAR(g__03517596_037);
-Obj g__03519501_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519500_037);
-if (True == g__03519501_037) {
-Obj g__03519502_037 = PRIM_CDR(g__03517596_037);
-Obj g__03519503_037 = PRIM_ISCONS(g__03519502_037);
-if (True == g__03519503_037) {
-Obj g__03519504_037 = PRIM_CDR(g__03517596_037);
-Obj g__03519505_037 = PRIM_CAR(g__03519504_037);
-Obj g__03517868_037 = g__03519505_037;
-Obj g__03519506_037 = PRIM_CDR(g__03517596_037);
-Obj g__03519507_037 = PRIM_CDR(g__03519506_037);
-Obj g__03517869_037 = g__03519507_037;
-R[1] = g__03517868_037;
+Obj g__03517635_037 = R[1];
+Obj g__03517636_037 = R[2];
+Obj g__03517898_037 = makeNative(co->gc, 2, clofun134, 0, 2, g__03517635_037, g__03517636_037);
+Obj g__03519544_037 = PRIM_ISCONS(g__03517635_037);
+if (True == g__03519544_037) {
+Obj g__03519545_037 = PRIM_CAR(g__03517635_037);
+Obj g__03519546_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519545_037);
+if (True == g__03519546_037) {
+Obj g__03519547_037 = PRIM_CDR(g__03517635_037);
+Obj g__03519548_037 = PRIM_ISCONS(g__03519547_037);
+if (True == g__03519548_037) {
+Obj g__03519549_037 = PRIM_CDR(g__03517635_037);
+Obj g__03519550_037 = PRIM_CAR(g__03519549_037);
+Obj g__03517907_037 = g__03519550_037;
+Obj g__03519551_037 = PRIM_CDR(g__03517635_037);
+Obj g__03519552_037 = PRIM_CDR(g__03519551_037);
+Obj g__03517908_037 = g__03519552_037;
+R[1] = g__03517907_037;
 saveCont(co, clofun135, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517869_037, g__03517597_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517908_037, g__03517636_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517859_037);
+coraCall0(co, g__03517898_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517859_037);
+coraCall0(co, g__03517898_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517859_037);
+coraCall0(co, g__03517898_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519508_037= co->res;
-Obj g__03517868_037 = R[1];
-Obj g__03519509_037 = makeCons(co->gc, g__03517868_037, g__03519508_037);
-Obj g__03519510_037 = makeCons(co->gc, getBinding(co, packageID, 18).name, g__03519509_037);
-coraReturn(co, g__03519510_037);
+Obj g__03519553_037= co->res;
+Obj g__03517907_037 = R[1];
+Obj g__03519554_037 = makeCons(co->gc, g__03517907_037, g__03519553_037);
+Obj g__03519555_037 = makeCons(co->gc, getBinding(co, packageID, 18).name, g__03519554_037);
+coraReturn(co, g__03519555_037);
 return;
 }
 }
@@ -891,69 +892,69 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517860_037 = makeNative(co->gc, 2, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03519478_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519478_037) {
-Obj g__03519479_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519480_037 = PRIM_ISCONS(g__03519479_037);
-if (True == g__03519480_037) {
-Obj g__03519481_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519482_037 = PRIM_CAR(g__03519481_037);
-Obj g__03519483_037 = PRIM_EQ(getBinding(co, packageID, 21).name, g__03519482_037);
-if (True == g__03519483_037) {
-Obj g__03519484_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519485_037 = PRIM_CDR(g__03519484_037);
-Obj g__03519486_037 = PRIM_ISCONS(g__03519485_037);
-if (True == g__03519486_037) {
-Obj g__03519487_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519488_037 = PRIM_CDR(g__03519487_037);
-Obj g__03519489_037 = PRIM_CAR(g__03519488_037);
-Obj g__03517866_037 = g__03519489_037;
-Obj g__03519490_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519491_037 = PRIM_CDR(g__03519490_037);
-Obj g__03519492_037 = PRIM_CDR(g__03519491_037);
-Obj g__03519493_037 = PRIM_EQ(Nil, g__03519492_037);
-if (True == g__03519493_037) {
-Obj g__03519494_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517867_037 = g__03519494_037;
-Obj g__03519495_037 = makeCons(co->gc, g__03517866_037, Nil);
-Obj g__03519496_037 = makeCons(co->gc, getBinding(co, packageID, 21).name, g__03519495_037);
-R[1] = g__03519496_037;
+Obj g__03517899_037 = makeNative(co->gc, 2, clofun133, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03519523_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519523_037) {
+Obj g__03519524_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519525_037 = PRIM_ISCONS(g__03519524_037);
+if (True == g__03519525_037) {
+Obj g__03519526_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519527_037 = PRIM_CAR(g__03519526_037);
+Obj g__03519528_037 = PRIM_EQ(getBinding(co, packageID, 21).name, g__03519527_037);
+if (True == g__03519528_037) {
+Obj g__03519529_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519530_037 = PRIM_CDR(g__03519529_037);
+Obj g__03519531_037 = PRIM_ISCONS(g__03519530_037);
+if (True == g__03519531_037) {
+Obj g__03519532_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519533_037 = PRIM_CDR(g__03519532_037);
+Obj g__03519534_037 = PRIM_CAR(g__03519533_037);
+Obj g__03517905_037 = g__03519534_037;
+Obj g__03519535_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519536_037 = PRIM_CDR(g__03519535_037);
+Obj g__03519537_037 = PRIM_CDR(g__03519536_037);
+Obj g__03519538_037 = PRIM_EQ(Nil, g__03519537_037);
+if (True == g__03519538_037) {
+Obj g__03519539_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517906_037 = g__03519539_037;
+Obj g__03519540_037 = makeCons(co->gc, g__03517905_037, Nil);
+Obj g__03519541_037 = makeCons(co->gc, getBinding(co, packageID, 21).name, g__03519540_037);
+R[1] = g__03519541_037;
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517867_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517906_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517860_037);
+coraCall0(co, g__03517899_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517860_037);
+coraCall0(co, g__03517899_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517860_037);
+coraCall0(co, g__03517899_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517860_037);
+coraCall0(co, g__03517899_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517860_037);
+coraCall0(co, g__03517899_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519497_037= co->res;
-Obj g__03519496_037 = R[1];
-Obj g__03519498_037 = makeCons(co->gc, g__03519496_037, g__03519497_037);
-coraReturn(co, g__03519498_037);
+Obj g__03519542_037= co->res;
+Obj g__03519541_037 = R[1];
+Obj g__03519543_037 = makeCons(co->gc, g__03519541_037, g__03519542_037);
+coraReturn(co, g__03519543_037);
 return;
 }
 }
@@ -963,48 +964,48 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517861_037 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03519466_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519466_037) {
-Obj g__03519467_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519468_037 = PRIM_ISCONS(g__03519467_037);
-if (True == g__03519468_037) {
-Obj g__03519469_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519470_037 = PRIM_CAR(g__03519469_037);
-Obj g__03519471_037 = PRIM_EQ(getBinding(co, packageID, 20).name, g__03519470_037);
-if (True == g__03519471_037) {
-Obj g__03519472_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519473_037 = PRIM_CDR(g__03519472_037);
-Obj g__03517864_037 = g__03519473_037;
-Obj g__03519474_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517865_037 = g__03519474_037;
-Obj g__03519475_037 = makeCons(co->gc, getBinding(co, packageID, 20).name, g__03517864_037);
-R[1] = g__03519475_037;
+Obj g__03517900_037 = makeNative(co->gc, 1, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03519511_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519511_037) {
+Obj g__03519512_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519513_037 = PRIM_ISCONS(g__03519512_037);
+if (True == g__03519513_037) {
+Obj g__03519514_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519515_037 = PRIM_CAR(g__03519514_037);
+Obj g__03519516_037 = PRIM_EQ(getBinding(co, packageID, 20).name, g__03519515_037);
+if (True == g__03519516_037) {
+Obj g__03519517_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519518_037 = PRIM_CDR(g__03519517_037);
+Obj g__03517903_037 = g__03519518_037;
+Obj g__03519519_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517904_037 = g__03519519_037;
+Obj g__03519520_037 = makeCons(co->gc, getBinding(co, packageID, 20).name, g__03517903_037);
+R[1] = g__03519520_037;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517865_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517904_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517861_037);
+coraCall0(co, g__03517900_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517861_037);
+coraCall0(co, g__03517900_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517861_037);
+coraCall0(co, g__03517900_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519476_037= co->res;
-Obj g__03519475_037 = R[1];
-Obj g__03519477_037 = makeCons(co->gc, g__03519475_037, g__03519476_037);
-coraReturn(co, g__03519477_037);
+Obj g__03519521_037= co->res;
+Obj g__03519520_037 = R[1];
+Obj g__03519522_037 = makeCons(co->gc, g__03519520_037, g__03519521_037);
+coraReturn(co, g__03519522_037);
 return;
 }
 }
@@ -1014,33 +1015,33 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517862_037 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj g__03519460_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519460_037) {
-Obj g__03519461_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519462_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519461_037);
-if (True == g__03519462_037) {
-Obj g__03519463_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517863_037 = g__03519463_037;
+Obj g__03517901_037 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj g__03519505_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519505_037) {
+Obj g__03519506_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519507_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519506_037);
+if (True == g__03519507_037) {
+Obj g__03519508_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517902_037 = g__03519508_037;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517863_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), g__03517902_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517862_037);
+coraCall0(co, g__03517901_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517862_037);
+coraCall0(co, g__03517901_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519464_037= co->res;
-Obj g__03519465_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03519464_037);
-coraReturn(co, g__03519465_037);
+Obj g__03519509_037= co->res;
+Obj g__03519510_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03519509_037);
+coraReturn(co, g__03519510_037);
 return;
 }
 }
@@ -1061,73 +1062,73 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517588_037 = R[1];
-Obj g__03517589_037 = R[2];
-Obj g__03517590_037 = R[3];
-Obj g__03517591_037 = R[4];
-Obj g__03519421_037 = PRIM_EQ(Nil, g__03517588_037);
-if (True == g__03519421_037) {
-R[1] = g__03517590_037;
-R[2] = g__03517591_037;
+Obj g__03517627_037 = R[1];
+Obj g__03517628_037 = R[2];
+Obj g__03517629_037 = R[3];
+Obj g__03517630_037 = R[4];
+Obj g__03519466_037 = PRIM_EQ(Nil, g__03517627_037);
+if (True == g__03519466_037) {
+R[1] = g__03517629_037;
+R[2] = g__03517630_037;
 saveCont(co, clofun130, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517589_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517628_037);
 return;
 } else {
-Obj g__03517851_037 = makeNative(co->gc, 1, clofun129, 0, 4, g__03517588_037, g__03517589_037, g__03517590_037, g__03517591_037);
-Obj g__03519448_037 = PRIM_ISCONS(g__03517588_037);
-if (True == g__03519448_037) {
-Obj g__03519449_037 = PRIM_CAR(g__03517588_037);
-Obj g__03519450_037 = PRIM_ISCONS(g__03519449_037);
-if (True == g__03519450_037) {
-Obj g__03519451_037 = PRIM_CAR(g__03517588_037);
-Obj g__03519452_037 = PRIM_CAR(g__03519451_037);
-Obj g__03519453_037 = PRIM_EQ(getBinding(co, packageID, 10).name, g__03519452_037);
-if (True == g__03519453_037) {
-Obj g__03519454_037 = PRIM_CAR(g__03517588_037);
-Obj g__03519455_037 = PRIM_CDR(g__03519454_037);
-Obj g__03517857_037 = g__03519455_037;
-Obj g__03519456_037 = PRIM_CDR(g__03517588_037);
-Obj g__03517858_037 = g__03519456_037;
-Obj g__03519457_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03517857_037);
-Obj g__03519458_037 = makeCons(co->gc, g__03519457_037, g__03517589_037);
+Obj g__03517890_037 = makeNative(co->gc, 1, clofun129, 0, 4, g__03517627_037, g__03517628_037, g__03517629_037, g__03517630_037);
+Obj g__03519493_037 = PRIM_ISCONS(g__03517627_037);
+if (True == g__03519493_037) {
+Obj g__03519494_037 = PRIM_CAR(g__03517627_037);
+Obj g__03519495_037 = PRIM_ISCONS(g__03519494_037);
+if (True == g__03519495_037) {
+Obj g__03519496_037 = PRIM_CAR(g__03517627_037);
+Obj g__03519497_037 = PRIM_CAR(g__03519496_037);
+Obj g__03519498_037 = PRIM_EQ(getBinding(co, packageID, 10).name, g__03519497_037);
+if (True == g__03519498_037) {
+Obj g__03519499_037 = PRIM_CAR(g__03517627_037);
+Obj g__03519500_037 = PRIM_CDR(g__03519499_037);
+Obj g__03517896_037 = g__03519500_037;
+Obj g__03519501_037 = PRIM_CDR(g__03517627_037);
+Obj g__03517897_037 = g__03519501_037;
+Obj g__03519502_037 = makeCons(co->gc, getBinding(co, packageID, 19).name, g__03517896_037);
+Obj g__03519503_037 = makeCons(co->gc, g__03519502_037, g__03517628_037);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517858_037, g__03519458_037, g__03517590_037, g__03517591_037);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517897_037, g__03519503_037, g__03517629_037, g__03517630_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517851_037);
+coraCall0(co, g__03517890_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517851_037);
+coraCall0(co, g__03517890_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517851_037);
+coraCall0(co, g__03517890_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03519423_037= co->res;
-Obj g__03517591_037 = R[1];
-Obj g__03519422_037 = R[2];
+Obj g__03519468_037= co->res;
+Obj g__03517630_037 = R[1];
+Obj g__03519467_037 = R[2];
 co->ctx.sp = R;
-coraCall2(co, g__03517591_037, g__03519422_037, g__03519423_037);
+coraCall2(co, g__03517630_037, g__03519467_037, g__03519468_037);
 return;
 }
 case 2:
 {
-Obj g__03519422_037= co->res;
-Obj g__03517590_037 = R[1];
-Obj g__03517591_037 = R[2];
-R[1] = g__03517591_037;
-R[2] = g__03519422_037;
+Obj g__03519467_037= co->res;
+Obj g__03517629_037 = R[1];
+Obj g__03517630_037 = R[2];
+R[1] = g__03517630_037;
+R[2] = g__03519467_037;
 saveCont(co, clofun130, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517590_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517629_037);
 return;
 }
 }
@@ -1137,39 +1138,39 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517852_037 = makeNative(co->gc, 1, clofun128, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj g__03519437_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519437_037) {
-Obj g__03519438_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519439_037 = PRIM_ISCONS(g__03519438_037);
-if (True == g__03519439_037) {
-Obj g__03519440_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519441_037 = PRIM_CAR(g__03519440_037);
-Obj g__03519442_037 = PRIM_EQ(getBinding(co, packageID, 12).name, g__03519441_037);
-if (True == g__03519442_037) {
-Obj g__03519443_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519444_037 = PRIM_CDR(g__03519443_037);
-Obj g__03517855_037 = g__03519444_037;
-Obj g__03519445_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517856_037 = g__03519445_037;
-Obj g__03519446_037 = makeCons(co->gc, getBinding(co, packageID, 11).name, g__03517855_037);
-Obj g__03519447_037 = makeCons(co->gc, g__03519446_037, closureRef(R[0], 1));
+Obj g__03517891_037 = makeNative(co->gc, 1, clofun128, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj g__03519482_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519482_037) {
+Obj g__03519483_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519484_037 = PRIM_ISCONS(g__03519483_037);
+if (True == g__03519484_037) {
+Obj g__03519485_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519486_037 = PRIM_CAR(g__03519485_037);
+Obj g__03519487_037 = PRIM_EQ(getBinding(co, packageID, 12).name, g__03519486_037);
+if (True == g__03519487_037) {
+Obj g__03519488_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519489_037 = PRIM_CDR(g__03519488_037);
+Obj g__03517894_037 = g__03519489_037;
+Obj g__03519490_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517895_037 = g__03519490_037;
+Obj g__03519491_037 = makeCons(co->gc, getBinding(co, packageID, 11).name, g__03517894_037);
+Obj g__03519492_037 = makeCons(co->gc, g__03519491_037, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517856_037, g__03519447_037, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517895_037, g__03519492_037, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517852_037);
+coraCall0(co, g__03517891_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517852_037);
+coraCall0(co, g__03517891_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517852_037);
+coraCall0(co, g__03517891_037);
 return;
 }
 }
@@ -1180,24 +1181,24 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03519424_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519424_037) {
-Obj g__03519425_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517853_037 = g__03519425_037;
-Obj g__03519426_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517854_037 = g__03519426_037;
-Obj g__03519427_037 = makeCons(co->gc, g__03517853_037, Nil);
-Obj g__03519428_037 = makeCons(co->gc, getBinding(co, packageID, 14).name, g__03519427_037);
-Obj g__03519429_037 = makeCons(co->gc, g__03519428_037, Nil);
-Obj g__03519430_037 = makeCons(co->gc, getBinding(co, packageID, 15).name, g__03519429_037);
-Obj g__03519431_037 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj g__03519432_037 = makeCons(co->gc, g__03519431_037, Nil);
-Obj g__03519433_037 = makeCons(co->gc, g__03519430_037, g__03519432_037);
-Obj g__03519434_037 = makeCons(co->gc, getBinding(co, packageID, 16).name, g__03519433_037);
-Obj g__03519435_037 = makeCons(co->gc, g__03519434_037, closureRef(R[0], 1));
-Obj g__03519436_037 = makeCons(co->gc, g__03517853_037, closureRef(R[0], 2));
+Obj g__03519469_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519469_037) {
+Obj g__03519470_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517892_037 = g__03519470_037;
+Obj g__03519471_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517893_037 = g__03519471_037;
+Obj g__03519472_037 = makeCons(co->gc, g__03517892_037, Nil);
+Obj g__03519473_037 = makeCons(co->gc, getBinding(co, packageID, 14).name, g__03519472_037);
+Obj g__03519474_037 = makeCons(co->gc, g__03519473_037, Nil);
+Obj g__03519475_037 = makeCons(co->gc, getBinding(co, packageID, 15).name, g__03519474_037);
+Obj g__03519476_037 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj g__03519477_037 = makeCons(co->gc, g__03519476_037, Nil);
+Obj g__03519478_037 = makeCons(co->gc, g__03519475_037, g__03519477_037);
+Obj g__03519479_037 = makeCons(co->gc, getBinding(co, packageID, 16).name, g__03519478_037);
+Obj g__03519480_037 = makeCons(co->gc, g__03519479_037, closureRef(R[0], 1));
+Obj g__03519481_037 = makeCons(co->gc, g__03517892_037, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517854_037, g__03519435_037, g__03519436_037, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), g__03517893_037, g__03519480_037, g__03519481_037, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1212,37 +1213,37 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517582_037 = R[1];
-Obj g__03517842_037 = makeNative(co->gc, 1, clofun126, 0, 1, g__03517582_037);
-Obj g__03519411_037 = PRIM_ISCONS(g__03517582_037);
-if (True == g__03519411_037) {
-Obj g__03519412_037 = PRIM_CAR(g__03517582_037);
-Obj g__03519413_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519412_037);
-if (True == g__03519413_037) {
-Obj g__03519414_037 = PRIM_CDR(g__03517582_037);
-Obj g__03519415_037 = PRIM_ISCONS(g__03519414_037);
-if (True == g__03519415_037) {
-Obj g__03519416_037 = PRIM_CDR(g__03517582_037);
-Obj g__03519417_037 = PRIM_CAR(g__03519416_037);
-Obj g__03519418_037 = PRIM_CDR(g__03517582_037);
-Obj g__03519419_037 = PRIM_CDR(g__03519418_037);
-Obj g__03517850_037 = g__03519419_037;
+Obj g__03517621_037 = R[1];
+Obj g__03517881_037 = makeNative(co->gc, 1, clofun126, 0, 1, g__03517621_037);
+Obj g__03519456_037 = PRIM_ISCONS(g__03517621_037);
+if (True == g__03519456_037) {
+Obj g__03519457_037 = PRIM_CAR(g__03517621_037);
+Obj g__03519458_037 = PRIM_EQ(getBinding(co, packageID, 18).name, g__03519457_037);
+if (True == g__03519458_037) {
+Obj g__03519459_037 = PRIM_CDR(g__03517621_037);
+Obj g__03519460_037 = PRIM_ISCONS(g__03519459_037);
+if (True == g__03519460_037) {
+Obj g__03519461_037 = PRIM_CDR(g__03517621_037);
+Obj g__03519462_037 = PRIM_CAR(g__03519461_037);
+Obj g__03519463_037 = PRIM_CDR(g__03517621_037);
+Obj g__03519464_037 = PRIM_CDR(g__03519463_037);
+Obj g__03517889_037 = g__03519464_037;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517850_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517889_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517842_037);
+coraCall0(co, g__03517881_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517842_037);
+coraCall0(co, g__03517881_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517842_037);
+coraCall0(co, g__03517881_037);
 return;
 }
 }
@@ -1253,25 +1254,25 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517843_037 = makeNative(co->gc, 1, clofun125, 0, 1, closureRef(R[0], 0));
-Obj g__03519407_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519407_037) {
-Obj g__03519408_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519409_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519408_037);
-if (True == g__03519409_037) {
-Obj g__03519410_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517849_037 = g__03519410_037;
+Obj g__03517882_037 = makeNative(co->gc, 1, clofun125, 0, 1, closureRef(R[0], 0));
+Obj g__03519452_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519452_037) {
+Obj g__03519453_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519454_037 = PRIM_EQ(getBinding(co, packageID, 19).name, g__03519453_037);
+if (True == g__03519454_037) {
+Obj g__03519455_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517888_037 = g__03519455_037;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517849_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517888_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517843_037);
+coraCall0(co, g__03517882_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517843_037);
+coraCall0(co, g__03517882_037);
 return;
 }
 }
@@ -1282,36 +1283,36 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517844_037 = makeNative(co->gc, 2, clofun124, 0, 1, closureRef(R[0], 0));
-Obj g__03519398_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519398_037) {
-Obj g__03519399_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519400_037 = PRIM_ISCONS(g__03519399_037);
-if (True == g__03519400_037) {
-Obj g__03519401_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519402_037 = PRIM_CAR(g__03519401_037);
-Obj g__03519403_037 = PRIM_EQ(getBinding(co, packageID, 20).name, g__03519402_037);
-if (True == g__03519403_037) {
-Obj g__03519404_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519405_037 = PRIM_CDR(g__03519404_037);
-Obj g__03519406_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517848_037 = g__03519406_037;
+Obj g__03517883_037 = makeNative(co->gc, 2, clofun124, 0, 1, closureRef(R[0], 0));
+Obj g__03519443_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519443_037) {
+Obj g__03519444_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519445_037 = PRIM_ISCONS(g__03519444_037);
+if (True == g__03519445_037) {
+Obj g__03519446_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519447_037 = PRIM_CAR(g__03519446_037);
+Obj g__03519448_037 = PRIM_EQ(getBinding(co, packageID, 20).name, g__03519447_037);
+if (True == g__03519448_037) {
+Obj g__03519449_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519450_037 = PRIM_CDR(g__03519449_037);
+Obj g__03519451_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517887_037 = g__03519451_037;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517848_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517887_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517844_037);
+coraCall0(co, g__03517883_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517844_037);
+coraCall0(co, g__03517883_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517844_037);
+coraCall0(co, g__03517883_037);
 return;
 }
 }
@@ -1322,67 +1323,67 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517845_037 = makeNative(co->gc, 1, clofun123, 0, 0);
-Obj g__03519380_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03519380_037) {
-Obj g__03519381_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519382_037 = PRIM_ISCONS(g__03519381_037);
-if (True == g__03519382_037) {
-Obj g__03519383_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519384_037 = PRIM_CAR(g__03519383_037);
-Obj g__03519385_037 = PRIM_EQ(getBinding(co, packageID, 21).name, g__03519384_037);
-if (True == g__03519385_037) {
-Obj g__03519386_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519387_037 = PRIM_CDR(g__03519386_037);
-Obj g__03519388_037 = PRIM_ISCONS(g__03519387_037);
-if (True == g__03519388_037) {
-Obj g__03519389_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519390_037 = PRIM_CDR(g__03519389_037);
-Obj g__03519391_037 = PRIM_CAR(g__03519390_037);
-Obj g__03517846_037 = g__03519391_037;
-Obj g__03519392_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03519393_037 = PRIM_CDR(g__03519392_037);
-Obj g__03519394_037 = PRIM_CDR(g__03519393_037);
-Obj g__03519395_037 = PRIM_EQ(Nil, g__03519394_037);
-if (True == g__03519395_037) {
-Obj g__03519396_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517847_037 = g__03519396_037;
-R[1] = g__03517847_037;
+Obj g__03517884_037 = makeNative(co->gc, 1, clofun123, 0, 0);
+Obj g__03519425_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519425_037) {
+Obj g__03519426_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519427_037 = PRIM_ISCONS(g__03519426_037);
+if (True == g__03519427_037) {
+Obj g__03519428_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519429_037 = PRIM_CAR(g__03519428_037);
+Obj g__03519430_037 = PRIM_EQ(getBinding(co, packageID, 21).name, g__03519429_037);
+if (True == g__03519430_037) {
+Obj g__03519431_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519432_037 = PRIM_CDR(g__03519431_037);
+Obj g__03519433_037 = PRIM_ISCONS(g__03519432_037);
+if (True == g__03519433_037) {
+Obj g__03519434_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519435_037 = PRIM_CDR(g__03519434_037);
+Obj g__03519436_037 = PRIM_CAR(g__03519435_037);
+Obj g__03517885_037 = g__03519436_037;
+Obj g__03519437_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519438_037 = PRIM_CDR(g__03519437_037);
+Obj g__03519439_037 = PRIM_CDR(g__03519438_037);
+Obj g__03519440_037 = PRIM_EQ(Nil, g__03519439_037);
+if (True == g__03519440_037) {
+Obj g__03519441_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517886_037 = g__03519441_037;
+R[1] = g__03517886_037;
 saveCont(co, clofun124, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03517846_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), g__03517885_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517845_037);
+coraCall0(co, g__03517884_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517845_037);
+coraCall0(co, g__03517884_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517845_037);
+coraCall0(co, g__03517884_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517845_037);
+coraCall0(co, g__03517884_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517845_037);
+coraCall0(co, g__03517884_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519397_037= co->res;
-Obj g__03517847_037 = R[1];
+Obj g__03519442_037= co->res;
+Obj g__03517886_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517847_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), g__03517886_037);
 return;
 }
 }
@@ -1408,13 +1409,13 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun122, 7, R);
+saveCont(co, clofun122, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "#include \"types.h\"\n", 19));
 return;
 }
 case 1:
 {
-Obj g__03519378_037= co->res;
+Obj g__03519423_037= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1424,20 +1425,21 @@ return;
 }
 case 2:
 {
-Obj g__03519377_037= co->res;
+Obj g__03519421_037= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
+Obj g__03519422_037 = PRIM_CAR(v_bc);
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun122, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, g__03519377_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, g__03519422_037);
 return;
 }
 case 3:
 {
-Obj g__03519376_037= co->res;
+Obj g__03519420_037= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1445,12 +1447,12 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun122, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "\n\n", 2));
 return;
 }
 case 4:
 {
-Obj g__03519375_037= co->res;
+Obj g__03519417_037= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1458,12 +1460,12 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun122, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "\n\n", 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 1, v_to), v_bc);
 return;
 }
 case 5:
 {
-Obj g__03519372_037= co->res;
+Obj g__03519416_037= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1471,12 +1473,12 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun122, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 1, v_to), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "static int packageID = -1;\n", 27));
 return;
 }
 case 6:
 {
-Obj g__03519371_037= co->res;
+Obj g__03519415_037= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1484,19 +1486,6 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun122, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "static int packageID = -1;\n", 27));
-return;
-}
-case 7:
-{
-Obj g__03519370_037= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
-saveCont(co, clofun122, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "#include \"runtime.h\"\n\n", 22));
 return;
 }
@@ -1520,14 +1509,14 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_group = R[1];
-Obj g__03519373_037 = PRIM_CAR(v_group);
+Obj g__03519418_037 = PRIM_CAR(v_group);
 saveCont(co, clofun120, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), g__03519373_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), g__03519418_037);
 return;
 }
 case 1:
 {
-Obj g__03519374_037= co->res;
+Obj g__03519419_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), makeString(co->gc, ";\n", 2));
 return;
@@ -1541,17 +1530,17 @@ case 0:
 {
 Obj v_to = R[1];
 Obj v_globals = R[2];
-Obj v_label = R[3];
+Obj v_group = R[3];
 R[1] = v_globals;
-R[2] = v_label;
+R[2] = v_group;
 R[3] = v_to;
-saveCont(co, clofun119, 11, R);
+saveCont(co, clofun119, 16, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n", 49));
 return;
 }
 case 1:
 {
-Obj g__03519368_037= co->res;
+Obj g__03519413_037= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "co->ctx.label = 0;\n}\n\n", 22));
@@ -1559,7 +1548,7 @@ return;
 }
 case 2:
 {
-Obj g__03519367_037= co->res;
+Obj g__03519412_037= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun119, 1, R);
@@ -1568,20 +1557,21 @@ return;
 }
 case 3:
 {
-Obj g__03519366_037= co->res;
-Obj v_label = R[1];
+Obj g__03519410_037= co->res;
+Obj v_group = R[1];
 Obj v_to = R[2];
+Obj g__03519411_037 = PRIM_CAR(v_group);
 R[1] = v_to;
 saveCont(co, clofun119, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), v_to, g__03519411_037);
 return;
 }
 case 4:
 {
-Obj g__03519365_037= co->res;
-Obj v_label = R[1];
+Obj g__03519409_037= co->res;
+Obj v_group = R[1];
 Obj v_to = R[2];
-R[1] = v_label;
+R[1] = v_group;
 R[2] = v_to;
 saveCont(co, clofun119, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "co->ctx.fn = ", 13));
@@ -1589,89 +1579,144 @@ return;
 }
 case 5:
 {
-Obj g__03519364_037= co->res;
-Obj v_label = R[1];
+Obj g__03519408_037= co->res;
+Obj v_group = R[1];
 Obj v_to = R[2];
-R[1] = v_label;
+R[1] = v_group;
 R[2] = v_to;
 saveCont(co, clofun119, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "addPackage(co, packageID, __symbolTable);\n", 42));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, ")[0] = Nil;\n", 12));
 return;
 }
 case 6:
 {
-Obj g__03519355_037= co->res;
+Obj g__03519407_037= co->res;
+Obj v_group = R[1];
+Obj v_to = R[2];
+R[1] = v_group;
+R[2] = v_to;
+saveCont(co, clofun119, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, g__03519407_037);
+return;
+}
+case 7:
+{
+Obj g__03519406_037= co->res;
+Obj v_group = R[1];
+Obj v_to = R[2];
+R[1] = v_group;
+R[2] = v_to;
+saveCont(co, clofun119, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), g__03519406_037);
+return;
+}
+case 8:
+{
+Obj g__03519405_037= co->res;
+Obj v_group = R[1];
+Obj v_to = R[2];
+R[1] = v_group;
+R[2] = v_to;
+saveCont(co, clofun119, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_group);
+return;
+}
+case 9:
+{
+Obj g__03519404_037= co->res;
+Obj v_group = R[1];
+Obj v_to = R[2];
+R[1] = v_group;
+R[2] = v_to;
+saveCont(co, clofun119, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "stackAlloc(co, ", 15));
+return;
+}
+case 10:
+{
+Obj g__03519403_037= co->res;
+Obj v_group = R[1];
+Obj v_to = R[2];
+R[1] = v_group;
+R[2] = v_to;
+saveCont(co, clofun119, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "addPackage(co, packageID, __symbolTable);\n", 42));
+return;
+}
+case 11:
+{
+Obj g__03519394_037= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
+Obj v_group = R[2];
 Obj v_to = R[3];
-R[1] = v_label;
+R[1] = v_group;
 R[2] = v_to;
-saveCont(co, clofun119, 5, R);
+saveCont(co, clofun119, 10, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun118, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
-case 7:
+case 12:
 {
-Obj g__03519354_037= co->res;
+Obj g__03519393_037= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
+Obj v_group = R[2];
 Obj v_to = R[3];
 R[1] = v_globals;
-R[2] = v_label;
+R[2] = v_group;
 R[3] = v_to;
-saveCont(co, clofun119, 6, R);
+saveCont(co, clofun119, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, ");\n", 3));
 return;
 }
-case 8:
+case 13:
 {
-Obj g__03519353_037= co->res;
+Obj g__03519392_037= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
+Obj v_group = R[2];
 Obj v_to = R[3];
 R[1] = v_globals;
-R[2] = v_label;
+R[2] = v_group;
 R[3] = v_to;
-saveCont(co, clofun119, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, g__03519353_037);
+saveCont(co, clofun119, 12, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, g__03519392_037);
 return;
 }
-case 9:
+case 14:
 {
-Obj g__03519352_037= co->res;
+Obj g__03519391_037= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
+Obj v_group = R[2];
 Obj v_to = R[3];
 R[1] = v_globals;
-R[2] = v_label;
+R[2] = v_group;
 R[3] = v_to;
-saveCont(co, clofun119, 8, R);
+saveCont(co, clofun119, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), v_globals);
 return;
 }
-case 10:
+case 15:
 {
-Obj g__03519351_037= co->res;
+Obj g__03519390_037= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
+Obj v_group = R[2];
 Obj v_to = R[3];
 R[1] = v_globals;
-R[2] = v_label;
+R[2] = v_group;
 R[3] = v_to;
-saveCont(co, clofun119, 9, R);
+saveCont(co, clofun119, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * ", 50));
 return;
 }
-case 11:
+case 16:
 {
-Obj g__03519350_037= co->res;
+Obj g__03519389_037= co->res;
 Obj v_globals = R[1];
-Obj v_label = R[2];
+Obj v_group = R[2];
 Obj v_to = R[3];
 R[1] = v_globals;
-R[2] = v_label;
+R[2] = v_group;
 R[3] = v_to;
-saveCont(co, clofun119, 10, R);
+saveCont(co, clofun119, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n", 55));
 return;
 }
@@ -1692,15 +1737,15 @@ return;
 }
 case 1:
 {
-Obj g__03519362_037= co->res;
+Obj g__03519401_037= co->res;
 Obj v_acc = R[1];
-Obj g__03519363_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, g__03519363_037);
+Obj g__03519402_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03519402_037);
 return;
 }
 case 2:
 {
-Obj g__03519361_037= co->res;
+Obj g__03519400_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun118, 1, R);
@@ -1709,25 +1754,25 @@ return;
 }
 case 3:
 {
-Obj g__03519360_037= co->res;
+Obj g__03519399_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun118, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), g__03519360_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 0), g__03519399_037);
 return;
 }
 case 4:
 {
-Obj g__03519359_037= co->res;
+Obj g__03519398_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun118, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), g__03519359_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), g__03519398_037);
 return;
 }
 case 5:
 {
-Obj g__03519358_037= co->res;
+Obj g__03519397_037= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -1737,7 +1782,7 @@ return;
 }
 case 6:
 {
-Obj g__03519357_037= co->res;
+Obj g__03519396_037= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1748,7 +1793,7 @@ return;
 }
 case 7:
 {
-Obj g__03519356_037= co->res;
+Obj g__03519395_037= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1767,10 +1812,10 @@ case 0:
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj g__03519328_037 = PRIM_CAR(v_group);
-Obj g__03517838_037 = g__03519328_037;
+Obj g__03519367_037 = PRIM_CAR(v_group);
+Obj g__03517877_037 = g__03519367_037;
 R[1] = v_globals;
-R[2] = g__03517838_037;
+R[2] = g__03517877_037;
 R[3] = v_to;
 saveCont(co, clofun117, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v_group);
@@ -1778,7 +1823,7 @@ return;
 }
 case 1:
 {
-Obj g__03519348_037= co->res;
+Obj g__03519387_037= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "}\n\n", 3));
@@ -1786,7 +1831,7 @@ return;
 }
 case 2:
 {
-Obj g__03519347_037= co->res;
+Obj g__03519386_037= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun117, 1, R);
@@ -1795,41 +1840,41 @@ return;
 }
 case 3:
 {
-Obj g__03519346_037= co->res;
+Obj g__03519385_037= co->res;
 Obj v_globals = R[1];
-Obj g__03517838_037 = R[2];
-Obj g__03517839_037 = R[3];
+Obj g__03517877_037 = R[2];
+Obj g__03517878_037 = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
 saveCont(co, clofun117, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun116, 2, 4, v_globals, g__03517838_037, g__03517839_037, v_to), MAKE_NUMBER(1), g__03519346_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun116, 2, 4, v_globals, g__03517877_037, g__03517878_037, v_to), MAKE_NUMBER(1), g__03519385_037);
 return;
 }
 case 4:
 {
-Obj g__03519338_037= co->res;
+Obj g__03519377_037= co->res;
 Obj v_globals = R[1];
-Obj g__03517838_037 = R[2];
-Obj g__03517839_037 = R[3];
+Obj g__03517877_037 = R[2];
+Obj g__03517878_037 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = g__03517838_037;
-R[3] = g__03517839_037;
+R[2] = g__03517877_037;
+R[3] = g__03517878_037;
 R[4] = v_to;
 saveCont(co, clofun117, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), g__03517839_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), g__03517878_037);
 return;
 }
 case 5:
 {
-Obj g__03519337_037= co->res;
+Obj g__03519376_037= co->res;
 Obj v_globals = R[1];
-Obj g__03517838_037 = R[2];
-Obj g__03517839_037 = R[3];
+Obj g__03517877_037 = R[2];
+Obj g__03517878_037 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = g__03517838_037;
-R[3] = g__03517839_037;
+R[2] = g__03517877_037;
+R[3] = g__03517878_037;
 R[4] = v_to;
 saveCont(co, clofun117, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "}\n", 2));
@@ -1837,56 +1882,56 @@ return;
 }
 case 6:
 {
-Obj g__03519336_037= co->res;
-Obj g__03517840_037 = R[1];
-Obj g__03517841_037 = R[2];
+Obj g__03519375_037= co->res;
+Obj g__03517879_037 = R[1];
+Obj g__03517880_037 = R[2];
 Obj v_globals = R[3];
-Obj g__03517838_037 = R[4];
-Obj g__03517839_037 = R[5];
+Obj g__03517877_037 = R[4];
+Obj g__03517878_037 = R[5];
 Obj v_to = R[6];
 R[1] = v_globals;
-R[2] = g__03517838_037;
-R[3] = g__03517839_037;
+R[2] = g__03517877_037;
+R[3] = g__03517878_037;
 R[4] = v_to;
 saveCont(co, clofun117, 5, R);
-Obj __args[5] = {v_globals, g__03517838_037, g__03517840_037, v_to, g__03517841_037};
+Obj __args[5] = {v_globals, g__03517877_037, g__03517879_037, v_to, g__03517880_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 7:
 {
-Obj g__03519335_037= co->res;
-Obj g__03517840_037 = R[1];
-Obj g__03517841_037 = R[2];
+Obj g__03519374_037= co->res;
+Obj g__03517879_037 = R[1];
+Obj g__03517880_037 = R[2];
 Obj v_globals = R[3];
-Obj g__03517838_037 = R[4];
-Obj g__03517839_037 = R[5];
+Obj g__03517877_037 = R[4];
+Obj g__03517878_037 = R[5];
 Obj v_to = R[6];
-R[1] = g__03517840_037;
-R[2] = g__03517841_037;
+R[1] = g__03517879_037;
+R[2] = g__03517880_037;
 R[3] = v_globals;
-R[4] = g__03517838_037;
-R[5] = g__03517839_037;
+R[4] = g__03517877_037;
+R[5] = g__03517878_037;
 R[6] = v_to;
 saveCont(co, clofun117, 6, R);
-Obj __args[5] = {v_globals, g__03517838_037, Nil, v_to, g__03517840_037};
+Obj __args[5] = {v_globals, g__03517877_037, Nil, v_to, g__03517879_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 8:
 {
-Obj g__03519334_037= co->res;
-Obj g__03517840_037 = R[1];
-Obj g__03517841_037 = R[2];
+Obj g__03519373_037= co->res;
+Obj g__03517879_037 = R[1];
+Obj g__03517880_037 = R[2];
 Obj v_globals = R[3];
-Obj g__03517838_037 = R[4];
-Obj g__03517839_037 = R[5];
+Obj g__03517877_037 = R[4];
+Obj g__03517878_037 = R[5];
 Obj v_to = R[6];
-R[1] = g__03517840_037;
-R[2] = g__03517841_037;
+R[1] = g__03517879_037;
+R[2] = g__03517880_037;
 R[3] = v_globals;
-R[4] = g__03517838_037;
-R[5] = g__03517839_037;
+R[4] = g__03517877_037;
+R[5] = g__03517878_037;
 R[6] = v_to;
 saveCont(co, clofun117, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, "case 0:\n{\n", 10));
@@ -1894,18 +1939,18 @@ return;
 }
 case 9:
 {
-Obj g__03519333_037= co->res;
-Obj g__03517840_037 = R[1];
-Obj g__03517841_037 = R[2];
+Obj g__03519372_037= co->res;
+Obj g__03517879_037 = R[1];
+Obj g__03517880_037 = R[2];
 Obj v_globals = R[3];
-Obj g__03517838_037 = R[4];
-Obj g__03517839_037 = R[5];
+Obj g__03517877_037 = R[4];
+Obj g__03517878_037 = R[5];
 Obj v_to = R[6];
-R[1] = g__03517840_037;
-R[2] = g__03517841_037;
+R[1] = g__03517879_037;
+R[2] = g__03517880_037;
 R[3] = v_globals;
-R[4] = g__03517838_037;
-R[5] = g__03517839_037;
+R[4] = g__03517877_037;
+R[5] = g__03517878_037;
 R[6] = v_to;
 saveCont(co, clofun117, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, " switch (label) {\n", 18));
@@ -1913,18 +1958,18 @@ return;
 }
 case 10:
 {
-Obj g__03519332_037= co->res;
-Obj g__03517840_037 = R[1];
-Obj g__03517841_037 = R[2];
+Obj g__03519371_037= co->res;
+Obj g__03517879_037 = R[1];
+Obj g__03517880_037 = R[2];
 Obj v_globals = R[3];
-Obj g__03517838_037 = R[4];
-Obj g__03517839_037 = R[5];
+Obj g__03517877_037 = R[4];
+Obj g__03517878_037 = R[5];
 Obj v_to = R[6];
-R[1] = g__03517840_037;
-R[2] = g__03517841_037;
+R[1] = g__03517879_037;
+R[2] = g__03517880_037;
 R[3] = v_globals;
-R[4] = g__03517838_037;
-R[5] = g__03517839_037;
+R[4] = g__03517877_037;
+R[5] = g__03517878_037;
 R[6] = v_to;
 saveCont(co, clofun117, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_to, makeString(co->gc, " {\n", 3));
@@ -1932,53 +1977,53 @@ return;
 }
 case 11:
 {
-Obj g__03519331_037= co->res;
-Obj g__03517840_037 = R[1];
+Obj g__03519370_037= co->res;
+Obj g__03517879_037 = R[1];
 Obj v_globals = R[2];
-Obj g__03517838_037 = R[3];
-Obj g__03517839_037 = R[4];
+Obj g__03517877_037 = R[3];
+Obj g__03517878_037 = R[4];
 Obj v_to = R[5];
-Obj g__03517841_037 = g__03519331_037;
-R[1] = g__03517840_037;
-R[2] = g__03517841_037;
+Obj g__03517880_037 = g__03519370_037;
+R[1] = g__03517879_037;
+R[2] = g__03517880_037;
 R[3] = v_globals;
-R[4] = g__03517838_037;
-R[5] = g__03517839_037;
+R[4] = g__03517877_037;
+R[5] = g__03517878_037;
 R[6] = v_to;
 saveCont(co, clofun117, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, g__03517838_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, g__03517877_037);
 return;
 }
 case 12:
 {
-Obj g__03519330_037= co->res;
+Obj g__03519369_037= co->res;
 Obj v_globals = R[1];
-Obj g__03517838_037 = R[2];
-Obj g__03517839_037 = R[3];
+Obj g__03517877_037 = R[2];
+Obj g__03517878_037 = R[3];
 Obj v_to = R[4];
-Obj g__03517840_037 = g__03519330_037;
-R[1] = g__03517840_037;
+Obj g__03517879_037 = g__03519369_037;
+R[1] = g__03517879_037;
 R[2] = v_globals;
-R[3] = g__03517838_037;
-R[4] = g__03517839_037;
+R[3] = g__03517877_037;
+R[4] = g__03517878_037;
 R[5] = v_to;
 saveCont(co, clofun117, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), g__03517839_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), g__03517878_037);
 return;
 }
 case 13:
 {
-Obj g__03519329_037= co->res;
+Obj g__03519368_037= co->res;
 Obj v_globals = R[1];
-Obj g__03517838_037 = R[2];
+Obj g__03517877_037 = R[2];
 Obj v_to = R[3];
-Obj g__03517839_037 = g__03519329_037;
+Obj g__03517878_037 = g__03519368_037;
 R[1] = v_globals;
-R[2] = g__03517838_037;
-R[3] = g__03517839_037;
+R[2] = g__03517877_037;
+R[3] = g__03517878_037;
 R[4] = v_to;
 saveCont(co, clofun117, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), g__03517839_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), g__03517878_037);
 return;
 }
 }
@@ -1998,15 +2043,15 @@ return;
 }
 case 1:
 {
-Obj g__03519344_037= co->res;
+Obj g__03519383_037= co->res;
 Obj v_acc = R[1];
-Obj g__03519345_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, g__03519345_037);
+Obj g__03519384_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03519384_037);
 return;
 }
 case 2:
 {
-Obj g__03519343_037= co->res;
+Obj g__03519382_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun116, 1, R);
@@ -2015,18 +2060,18 @@ return;
 }
 case 3:
 {
-Obj g__03519342_037= co->res;
+Obj g__03519381_037= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun116, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), g__03519342_037, closureRef(R[0], 3), v_cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), g__03519381_037, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj g__03519341_037= co->res;
+Obj g__03519380_037= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2037,7 +2082,7 @@ return;
 }
 case 5:
 {
-Obj g__03519340_037= co->res;
+Obj g__03519379_037= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2048,7 +2093,7 @@ return;
 }
 case 6:
 {
-Obj g__03519339_037= co->res;
+Obj g__03519378_037= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2064,23 +2109,23 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517578_037 = R[1];
-Obj g__03517579_037 = R[2];
-Obj g__03519322_037 = PRIM_EQ(Nil, g__03517579_037);
-if (True == g__03519322_037) {
+Obj g__03517617_037 = R[1];
+Obj g__03517618_037 = R[2];
+Obj g__03519361_037 = PRIM_EQ(Nil, g__03517618_037);
+if (True == g__03519361_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03519323_037 = PRIM_ISCONS(g__03517579_037);
-if (True == g__03519323_037) {
-Obj g__03519324_037 = PRIM_CAR(g__03517579_037);
-Obj g__03517836_037 = g__03519324_037;
-Obj g__03519325_037 = PRIM_CDR(g__03517579_037);
-Obj g__03517837_037 = g__03519325_037;
-R[1] = g__03517578_037;
-R[2] = g__03517837_037;
+Obj g__03519362_037 = PRIM_ISCONS(g__03517618_037);
+if (True == g__03519362_037) {
+Obj g__03519363_037 = PRIM_CAR(g__03517618_037);
+Obj g__03517875_037 = g__03519363_037;
+Obj g__03519364_037 = PRIM_CDR(g__03517618_037);
+Obj g__03517876_037 = g__03519364_037;
+R[1] = g__03517617_037;
+R[2] = g__03517876_037;
 saveCont(co, clofun115, 1, R);
-coraCall1(co, g__03517578_037, g__03517836_037);
+coraCall1(co, g__03517617_037, g__03517875_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -2091,11 +2136,11 @@ return;
 }
 case 1:
 {
-Obj g__03519326_037= co->res;
-Obj g__03517578_037 = R[1];
-Obj g__03517837_037 = R[2];
+Obj g__03519365_037= co->res;
+Obj g__03517617_037 = R[1];
+Obj g__03517876_037 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), g__03517578_037, g__03517837_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), g__03517617_037, g__03517876_037);
 return;
 }
 }
@@ -2114,38 +2159,38 @@ return;
 }
 case 1:
 {
-Obj g__03519320_037= co->res;
+Obj g__03519359_037= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), g__03519320_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), g__03519359_037);
 return;
 }
 case 2:
 {
-Obj g__03519319_037= co->res;
+Obj g__03519358_037= co->res;
 saveCont(co, clofun114, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), g__03519319_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), g__03519358_037);
 return;
 }
 case 3:
 {
-Obj g__03519318_037= co->res;
+Obj g__03519357_037= co->res;
 saveCont(co, clofun114, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), g__03519318_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), g__03519357_037);
 return;
 }
 case 4:
 {
-Obj g__03519317_037= co->res;
+Obj g__03519356_037= co->res;
 saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), g__03519317_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), g__03519356_037);
 return;
 }
 case 5:
 {
-Obj g__03519316_037= co->res;
+Obj g__03519355_037= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun114, 4, R);
-coraCall1(co, g__03519316_037, v_exp);
+coraCall1(co, g__03519355_037, v_exp);
 return;
 }
 }
@@ -2163,19 +2208,19 @@ return;
 }
 case 1:
 {
-Obj g__03519314_037= co->res;
-Obj g__03517834_037 = R[1];
-Obj g__03517835_037 = g__03519314_037;
+Obj g__03519353_037= co->res;
+Obj g__03517873_037 = R[1];
+Obj g__03517874_037 = g__03519353_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), g__03517834_037, g__03517835_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), g__03517873_037, g__03517874_037);
 return;
 }
 case 2:
 {
-Obj g__03519313_037= co->res;
+Obj g__03519352_037= co->res;
 Obj v_exp = R[1];
-Obj g__03517834_037 = g__03519313_037;
-R[1] = g__03517834_037;
+Obj g__03517873_037 = g__03519352_037;
+R[1] = g__03517873_037;
 saveCont(co, clofun113, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
 return;
@@ -2187,23 +2232,23 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517574_037 = R[1];
-Obj g__03517575_037 = R[2];
-Obj g__03519306_037 = PRIM_EQ(Nil, g__03517575_037);
-if (True == g__03519306_037) {
-coraReturn(co, g__03517574_037);
+Obj g__03517613_037 = R[1];
+Obj g__03517614_037 = R[2];
+Obj g__03519345_037 = PRIM_EQ(Nil, g__03517614_037);
+if (True == g__03519345_037) {
+coraReturn(co, g__03517613_037);
 return;
 } else {
-Obj g__03519307_037 = PRIM_ISCONS(g__03517575_037);
-if (True == g__03519307_037) {
-Obj g__03519308_037 = PRIM_CAR(g__03517575_037);
-Obj g__03517832_037 = g__03519308_037;
-Obj g__03519309_037 = PRIM_CDR(g__03517575_037);
-Obj g__03517833_037 = g__03519309_037;
-Obj g__03519310_037 = makeCons(co->gc, g__03517574_037, Nil);
-Obj g__03519311_037 = makeCons(co->gc, g__03517832_037, g__03519310_037);
+Obj g__03519346_037 = PRIM_ISCONS(g__03517614_037);
+if (True == g__03519346_037) {
+Obj g__03519347_037 = PRIM_CAR(g__03517614_037);
+Obj g__03517871_037 = g__03519347_037;
+Obj g__03519348_037 = PRIM_CDR(g__03517614_037);
+Obj g__03517872_037 = g__03519348_037;
+Obj g__03519349_037 = makeCons(co->gc, g__03517613_037, Nil);
+Obj g__03519350_037 = makeCons(co->gc, g__03517871_037, g__03519349_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), g__03519311_037, g__03517833_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), g__03519350_037, g__03517872_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -2227,62 +2272,62 @@ return;
 }
 case 1:
 {
-Obj g__03519304_037= co->res;
-Obj g__03517829_037 = R[1];
+Obj g__03519343_037= co->res;
+Obj g__03517868_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), g__03517829_037, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), g__03517868_037, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj g__03519303_037= co->res;
-Obj g__03517829_037 = R[1];
-Obj g__03517831_037 = g__03519303_037;
-R[1] = g__03517829_037;
+Obj g__03519342_037= co->res;
+Obj g__03517868_037 = R[1];
+Obj g__03517870_037 = g__03519342_037;
+R[1] = g__03517868_037;
 saveCont(co, clofun111, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), g__03517829_037, g__03517831_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), g__03517868_037, g__03517870_037);
 return;
 }
 case 3:
 {
-Obj g__03519302_037= co->res;
-Obj g__03517829_037 = R[1];
-Obj g__03517830_037 = g__03519302_037;
-R[1] = g__03517829_037;
+Obj g__03519341_037= co->res;
+Obj g__03517868_037 = R[1];
+Obj g__03517869_037 = g__03519341_037;
+R[1] = g__03517868_037;
 saveCont(co, clofun111, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), Nil, g__03517830_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), Nil, g__03517869_037);
 return;
 }
 case 4:
 {
-Obj g__03519301_037= co->res;
+Obj g__03519340_037= co->res;
 Obj v_exp = R[1];
-Obj g__03517829_037 = R[2];
-R[1] = g__03517829_037;
+Obj g__03517868_037 = R[2];
+R[1] = g__03517868_037;
 saveCont(co, clofun111, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), g__03517829_037, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), g__03517868_037, v_exp);
 return;
 }
 case 5:
 {
-Obj g__03519300_037= co->res;
+Obj g__03519339_037= co->res;
 Obj v_exp = R[1];
-Obj g__03517829_037 = R[2];
+Obj g__03517868_037 = R[2];
 R[1] = v_exp;
-R[2] = g__03517829_037;
+R[2] = g__03517868_037;
 saveCont(co, clofun111, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), g__03517829_037, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), g__03517868_037, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj g__03519299_037= co->res;
+Obj g__03519338_037= co->res;
 Obj v_exp = R[1];
-Obj g__03517829_037 = g__03519299_037;
+Obj g__03517868_037 = g__03519338_037;
 R[1] = v_exp;
-R[2] = g__03517829_037;
+R[2] = g__03517868_037;
 saveCont(co, clofun111, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), g__03517829_037, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), g__03517868_037, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2351,7 +2396,7 @@ return;
 }
 case 1:
 {
-Obj g__03519293_037= co->res;
+Obj g__03519332_037= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), v_w, makeString(co->gc, ")", 1));
@@ -2359,7 +2404,7 @@ return;
 }
 case 2:
 {
-Obj g__03519292_037= co->res;
+Obj g__03519331_037= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
 saveCont(co, clofun106, 1, R);
@@ -2368,7 +2413,7 @@ return;
 }
 case 3:
 {
-Obj g__03519291_037= co->res;
+Obj g__03519330_037= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
@@ -2393,7 +2438,7 @@ return;
 }
 case 1:
 {
-Obj g__03519289_037= co->res;
+Obj g__03519328_037= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2407,136 +2452,136 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517568_037 = R[1];
-Obj g__03517569_037 = R[2];
-Obj g__03517570_037 = R[3];
-Obj g__03517571_037 = R[4];
-Obj g__03517572_037 = R[5];
-Obj g__03517825_037 = makeNative(co->gc, 1, clofun103, 0, 0);
-Obj g__03519267_037 = PRIM_ISCONS(g__03517572_037);
-if (True == g__03519267_037) {
-Obj g__03519268_037 = PRIM_CAR(g__03517572_037);
-Obj g__03519269_037 = PRIM_EQ(getBinding(co, packageID, 63).name, g__03519268_037);
-if (True == g__03519269_037) {
-Obj g__03519270_037 = PRIM_CDR(g__03517572_037);
-Obj g__03519271_037 = PRIM_ISCONS(g__03519270_037);
-if (True == g__03519271_037) {
-Obj g__03519272_037 = PRIM_CDR(g__03517572_037);
-Obj g__03519273_037 = PRIM_CAR(g__03519272_037);
-Obj g__03517826_037 = g__03519273_037;
-Obj g__03519274_037 = PRIM_CDR(g__03517572_037);
-Obj g__03519275_037 = PRIM_CDR(g__03519274_037);
-Obj g__03519276_037 = PRIM_ISCONS(g__03519275_037);
-if (True == g__03519276_037) {
-Obj g__03519277_037 = PRIM_CDR(g__03517572_037);
-Obj g__03519278_037 = PRIM_CDR(g__03519277_037);
-Obj g__03519279_037 = PRIM_CAR(g__03519278_037);
-Obj g__03517827_037 = g__03519279_037;
-Obj g__03519280_037 = PRIM_CDR(g__03517572_037);
-Obj g__03519281_037 = PRIM_CDR(g__03519280_037);
-Obj g__03519282_037 = PRIM_CDR(g__03519281_037);
-Obj g__03517828_037 = g__03519282_037;
-R[1] = g__03517826_037;
-R[2] = g__03517828_037;
-R[3] = g__03517568_037;
-R[4] = g__03517569_037;
-R[5] = g__03517570_037;
-R[6] = g__03517571_037;
-R[7] = g__03517827_037;
+Obj g__03517607_037 = R[1];
+Obj g__03517608_037 = R[2];
+Obj g__03517609_037 = R[3];
+Obj g__03517610_037 = R[4];
+Obj g__03517611_037 = R[5];
+Obj g__03517864_037 = makeNative(co->gc, 1, clofun103, 0, 0);
+Obj g__03519306_037 = PRIM_ISCONS(g__03517611_037);
+if (True == g__03519306_037) {
+Obj g__03519307_037 = PRIM_CAR(g__03517611_037);
+Obj g__03519308_037 = PRIM_EQ(getBinding(co, packageID, 63).name, g__03519307_037);
+if (True == g__03519308_037) {
+Obj g__03519309_037 = PRIM_CDR(g__03517611_037);
+Obj g__03519310_037 = PRIM_ISCONS(g__03519309_037);
+if (True == g__03519310_037) {
+Obj g__03519311_037 = PRIM_CDR(g__03517611_037);
+Obj g__03519312_037 = PRIM_CAR(g__03519311_037);
+Obj g__03517865_037 = g__03519312_037;
+Obj g__03519313_037 = PRIM_CDR(g__03517611_037);
+Obj g__03519314_037 = PRIM_CDR(g__03519313_037);
+Obj g__03519315_037 = PRIM_ISCONS(g__03519314_037);
+if (True == g__03519315_037) {
+Obj g__03519316_037 = PRIM_CDR(g__03517611_037);
+Obj g__03519317_037 = PRIM_CDR(g__03519316_037);
+Obj g__03519318_037 = PRIM_CAR(g__03519317_037);
+Obj g__03517866_037 = g__03519318_037;
+Obj g__03519319_037 = PRIM_CDR(g__03517611_037);
+Obj g__03519320_037 = PRIM_CDR(g__03519319_037);
+Obj g__03519321_037 = PRIM_CDR(g__03519320_037);
+Obj g__03517867_037 = g__03519321_037;
+R[1] = g__03517865_037;
+R[2] = g__03517867_037;
+R[3] = g__03517607_037;
+R[4] = g__03517608_037;
+R[5] = g__03517609_037;
+R[6] = g__03517610_037;
+R[7] = g__03517866_037;
 saveCont(co, clofun104, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), g__03517571_037, makeString(co->gc, "Obj ", 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), g__03517610_037, makeString(co->gc, "Obj ", 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517825_037);
+coraCall0(co, g__03517864_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517825_037);
+coraCall0(co, g__03517864_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517825_037);
+coraCall0(co, g__03517864_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517825_037);
+coraCall0(co, g__03517864_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519287_037= co->res;
-Obj g__03517568_037 = R[1];
-Obj g__03517569_037 = R[2];
-Obj g__03517570_037 = R[3];
-Obj g__03517571_037 = R[4];
-Obj g__03517827_037 = R[5];
+Obj g__03519326_037= co->res;
+Obj g__03517607_037 = R[1];
+Obj g__03517608_037 = R[2];
+Obj g__03517609_037 = R[3];
+Obj g__03517610_037 = R[4];
+Obj g__03517866_037 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {g__03517568_037, g__03517569_037, g__03517570_037, g__03517571_037, g__03517827_037};
+Obj __args[5] = {g__03517607_037, g__03517608_037, g__03517609_037, g__03517610_037, g__03517866_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 }
 case 2:
 {
-Obj g__03519286_037= co->res;
-Obj g__03517828_037 = R[1];
-Obj g__03517568_037 = R[2];
-Obj g__03517569_037 = R[3];
-Obj g__03517570_037 = R[4];
-Obj g__03517571_037 = R[5];
-Obj g__03517827_037 = R[6];
-R[1] = g__03517568_037;
-R[2] = g__03517569_037;
-R[3] = g__03517570_037;
-R[4] = g__03517571_037;
-R[5] = g__03517827_037;
+Obj g__03519325_037= co->res;
+Obj g__03517867_037 = R[1];
+Obj g__03517607_037 = R[2];
+Obj g__03517608_037 = R[3];
+Obj g__03517609_037 = R[4];
+Obj g__03517610_037 = R[5];
+Obj g__03517866_037 = R[6];
+R[1] = g__03517607_037;
+R[2] = g__03517608_037;
+R[3] = g__03517609_037;
+R[4] = g__03517610_037;
+R[5] = g__03517866_037;
 saveCont(co, clofun104, 1, R);
-Obj __args[5] = {g__03517568_037, g__03517569_037, g__03517570_037, g__03517571_037, g__03517828_037};
+Obj __args[5] = {g__03517607_037, g__03517608_037, g__03517609_037, g__03517610_037, g__03517867_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 3:
 {
-Obj g__03519285_037= co->res;
-Obj g__03517828_037 = R[1];
-Obj g__03517568_037 = R[2];
-Obj g__03517569_037 = R[3];
-Obj g__03517570_037 = R[4];
-Obj g__03517571_037 = R[5];
-Obj g__03517827_037 = R[6];
-R[1] = g__03517828_037;
-R[2] = g__03517568_037;
-R[3] = g__03517569_037;
-R[4] = g__03517570_037;
-R[5] = g__03517571_037;
-R[6] = g__03517827_037;
+Obj g__03519324_037= co->res;
+Obj g__03517867_037 = R[1];
+Obj g__03517607_037 = R[2];
+Obj g__03517608_037 = R[3];
+Obj g__03517609_037 = R[4];
+Obj g__03517610_037 = R[5];
+Obj g__03517866_037 = R[6];
+R[1] = g__03517867_037;
+R[2] = g__03517607_037;
+R[3] = g__03517608_037;
+R[4] = g__03517609_037;
+R[5] = g__03517610_037;
+R[6] = g__03517866_037;
 saveCont(co, clofun104, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), g__03517571_037, makeString(co->gc, "= co->res;\n", 11));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), g__03517610_037, makeString(co->gc, "= co->res;\n", 11));
 return;
 }
 case 4:
 {
-Obj g__03519283_037= co->res;
-Obj g__03517826_037 = R[1];
-Obj g__03517828_037 = R[2];
-Obj g__03517568_037 = R[3];
-Obj g__03517569_037 = R[4];
-Obj g__03517570_037 = R[5];
-Obj g__03517571_037 = R[6];
-Obj g__03517827_037 = R[7];
-Obj g__03519284_037 = PRIM_CAR(g__03517826_037);
-R[1] = g__03517828_037;
-R[2] = g__03517568_037;
-R[3] = g__03517569_037;
-R[4] = g__03517570_037;
-R[5] = g__03517571_037;
-R[6] = g__03517827_037;
+Obj g__03519322_037= co->res;
+Obj g__03517865_037 = R[1];
+Obj g__03517867_037 = R[2];
+Obj g__03517607_037 = R[3];
+Obj g__03517608_037 = R[4];
+Obj g__03517609_037 = R[5];
+Obj g__03517610_037 = R[6];
+Obj g__03517866_037 = R[7];
+Obj g__03519323_037 = PRIM_CAR(g__03517865_037);
+R[1] = g__03517867_037;
+R[2] = g__03517607_037;
+R[3] = g__03517608_037;
+R[4] = g__03517609_037;
+R[5] = g__03517610_037;
+R[6] = g__03517866_037;
 saveCont(co, clofun104, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), g__03517571_037, g__03519284_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), g__03517610_037, g__03519323_037);
 return;
 }
 }
@@ -2562,20 +2607,20 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj g__03519253_037 = primGenSym(co);
-Obj g__03517822_037 = g__03519253_037;
-Obj g__03519264_037 = primSet(co, g__03517822_037, makeNative(co->gc, 2, clofun101, 1, 5, v_globals, v_self, v_env, v_w, g__03517822_037));
+Obj g__03519292_037 = primGenSym(co);
+Obj g__03517861_037 = g__03519292_037;
+Obj g__03519303_037 = primSet(co, g__03517861_037, makeNative(co->gc, 2, clofun101, 1, 5, v_globals, v_self, v_env, v_w, g__03517861_037));
 R[1] = v_l;
 saveCont(co, clofun102, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517822_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517861_037);
 return;
 }
 case 1:
 {
-Obj g__03519265_037= co->res;
+Obj g__03519304_037= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, g__03519265_037, v_l);
+coraCall1(co, g__03519304_037, v_l);
 return;
 }
 }
@@ -2586,20 +2631,20 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03519254_037 = PRIM_EQ(Nil, v_x);
-if (True == g__03519254_037) {
+Obj g__03519293_037 = PRIM_EQ(Nil, v_x);
+if (True == g__03519293_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03519255_037 = PRIM_ISCONS(v_x);
-if (True == g__03519255_037) {
-Obj g__03519256_037 = PRIM_CAR(v_x);
-Obj g__03517823_037 = g__03519256_037;
-Obj g__03519257_037 = PRIM_CDR(v_x);
-Obj g__03517824_037 = g__03519257_037;
-R[1] = g__03517824_037;
+Obj g__03519294_037 = PRIM_ISCONS(v_x);
+if (True == g__03519294_037) {
+Obj g__03519295_037 = PRIM_CAR(v_x);
+Obj g__03517862_037 = g__03519295_037;
+Obj g__03519296_037 = PRIM_CDR(v_x);
+Obj g__03517863_037 = g__03519296_037;
+R[1] = g__03517863_037;
 saveCont(co, clofun101, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03517823_037};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), g__03517862_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 47)), 5, __args);
 return;
 } else {
@@ -2611,42 +2656,42 @@ return;
 }
 case 1:
 {
-Obj g__03519262_037= co->res;
-Obj g__03517824_037 = R[1];
+Obj g__03519301_037= co->res;
+Obj g__03517863_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, g__03519262_037, g__03517824_037);
+coraCall1(co, g__03519301_037, g__03517863_037);
 return;
 }
 case 2:
 {
-Obj g__03519261_037= co->res;
-Obj g__03517824_037 = R[1];
-R[1] = g__03517824_037;
+Obj g__03519300_037= co->res;
+Obj g__03517863_037 = R[1];
+R[1] = g__03517863_037;
 saveCont(co, clofun101, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03519263_037= co->res;
-Obj g__03517824_037 = R[1];
+Obj g__03519302_037= co->res;
+Obj g__03517863_037 = R[1];
 co->ctx.sp = R;
-coraCall1(co, g__03519263_037, g__03517824_037);
+coraCall1(co, g__03519302_037, g__03517863_037);
 return;
 }
 case 4:
 {
-Obj g__03519259_037= co->res;
-Obj g__03517824_037 = R[1];
-Obj g__03519260_037 = primNot(g__03519259_037);
-if (True == g__03519260_037) {
-R[1] = g__03517824_037;
+Obj g__03519298_037= co->res;
+Obj g__03517863_037 = R[1];
+Obj g__03519299_037 = primNot(g__03519298_037);
+if (True == g__03519299_037) {
+R[1] = g__03517863_037;
 saveCont(co, clofun101, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ", ", 2));
 return;
 } else {
 Nil;
-R[1] = g__03517824_037;
+R[1] = g__03517863_037;
 saveCont(co, clofun101, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
@@ -2654,11 +2699,11 @@ return;
 }
 case 5:
 {
-Obj g__03519258_037= co->res;
-Obj g__03517824_037 = R[1];
-R[1] = g__03517824_037;
+Obj g__03519297_037= co->res;
+Obj g__03517863_037 = R[1];
+R[1] = g__03517863_037;
 saveCont(co, clofun101, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517824_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517863_037);
 return;
 }
 }
@@ -2673,22 +2718,22 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj g__03518963_037 = primGenSym(co);
-Obj g__03517785_037 = g__03518963_037;
-Obj g__03519250_037 = primSet(co, g__03517785_037, makeNative(co->gc, 3, clofun99, 2, 4, v_self, g__03517785_037, v_globals, v_w));
+Obj g__03519002_037 = primGenSym(co);
+Obj g__03517824_037 = g__03519002_037;
+Obj g__03519289_037 = primSet(co, g__03517824_037, makeNative(co->gc, 3, clofun99, 2, 4, v_self, g__03517824_037, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
 saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517785_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), g__03517824_037);
 return;
 }
 case 1:
 {
-Obj g__03519251_037= co->res;
+Obj g__03519290_037= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, g__03519251_037, v_x1, v_env1);
+coraCall2(co, g__03519290_037, v_x1, v_env1);
 return;
 }
 }
@@ -2700,74 +2745,74 @@ case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj g__03518964_037 = primIsSymbol(v_x2);
-if (True == g__03518964_037) {
+Obj g__03519003_037 = primIsSymbol(v_x2);
+if (True == g__03519003_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj g__03517786_037 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj g__03519237_037 = PRIM_ISCONS(v_x2);
-if (True == g__03519237_037) {
-Obj g__03519238_037 = PRIM_CAR(v_x2);
-Obj g__03519239_037 = PRIM_EQ(getBinding(co, packageID, 95).name, g__03519238_037);
-if (True == g__03519239_037) {
-Obj g__03519240_037 = PRIM_CDR(v_x2);
-Obj g__03519241_037 = PRIM_ISCONS(g__03519240_037);
-if (True == g__03519241_037) {
-Obj g__03519242_037 = PRIM_CDR(v_x2);
-Obj g__03519243_037 = PRIM_CAR(g__03519242_037);
-Obj g__03517821_037 = g__03519243_037;
-Obj g__03519244_037 = PRIM_CDR(v_x2);
-Obj g__03519245_037 = PRIM_CDR(g__03519244_037);
-Obj g__03519246_037 = PRIM_EQ(Nil, g__03519245_037);
-if (True == g__03519246_037) {
-R[1] = g__03517821_037;
+Obj g__03517825_037 = makeNative(co->gc, 2, clofun98, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj g__03519276_037 = PRIM_ISCONS(v_x2);
+if (True == g__03519276_037) {
+Obj g__03519277_037 = PRIM_CAR(v_x2);
+Obj g__03519278_037 = PRIM_EQ(getBinding(co, packageID, 95).name, g__03519277_037);
+if (True == g__03519278_037) {
+Obj g__03519279_037 = PRIM_CDR(v_x2);
+Obj g__03519280_037 = PRIM_ISCONS(g__03519279_037);
+if (True == g__03519280_037) {
+Obj g__03519281_037 = PRIM_CDR(v_x2);
+Obj g__03519282_037 = PRIM_CAR(g__03519281_037);
+Obj g__03517860_037 = g__03519282_037;
+Obj g__03519283_037 = PRIM_CDR(v_x2);
+Obj g__03519284_037 = PRIM_CDR(g__03519283_037);
+Obj g__03519285_037 = PRIM_EQ(Nil, g__03519284_037);
+if (True == g__03519285_037) {
+R[1] = g__03517860_037;
 saveCont(co, clofun99, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "globalRef(co, getBinding(co, packageID, ", 40));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517786_037);
+coraCall0(co, g__03517825_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517786_037);
+coraCall0(co, g__03517825_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517786_037);
+coraCall0(co, g__03517825_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517786_037);
+coraCall0(co, g__03517825_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03519249_037= co->res;
+Obj g__03519288_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "))", 2));
 return;
 }
 case 2:
 {
-Obj g__03519248_037= co->res;
+Obj g__03519287_037= co->res;
 saveCont(co, clofun99, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), g__03519248_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), g__03519287_037);
 return;
 }
 case 3:
 {
-Obj g__03519247_037= co->res;
-Obj g__03517821_037 = R[1];
+Obj g__03519286_037= co->res;
+Obj g__03517860_037 = R[1];
 saveCont(co, clofun99, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), g__03517821_037, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), g__03517860_037, closureRef(R[0], 2));
 return;
 }
 }
@@ -2777,60 +2822,60 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517787_037 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj g__03519225_037 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == g__03519225_037) {
-Obj g__03519226_037 = PRIM_CAR(closureRef(R[0], 4));
-Obj g__03519227_037 = PRIM_EQ(getBinding(co, packageID, 78).name, g__03519226_037);
-if (True == g__03519227_037) {
-Obj g__03519228_037 = PRIM_CDR(closureRef(R[0], 4));
-Obj g__03519229_037 = PRIM_ISCONS(g__03519228_037);
-if (True == g__03519229_037) {
-Obj g__03519230_037 = PRIM_CDR(closureRef(R[0], 4));
-Obj g__03519231_037 = PRIM_CAR(g__03519230_037);
-Obj g__03517820_037 = g__03519231_037;
-Obj g__03519232_037 = PRIM_CDR(closureRef(R[0], 4));
-Obj g__03519233_037 = PRIM_CDR(g__03519232_037);
-Obj g__03519234_037 = PRIM_EQ(Nil, g__03519233_037);
-if (True == g__03519234_037) {
-R[1] = g__03517820_037;
+Obj g__03517826_037 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj g__03519264_037 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == g__03519264_037) {
+Obj g__03519265_037 = PRIM_CAR(closureRef(R[0], 4));
+Obj g__03519266_037 = PRIM_EQ(getBinding(co, packageID, 78).name, g__03519265_037);
+if (True == g__03519266_037) {
+Obj g__03519267_037 = PRIM_CDR(closureRef(R[0], 4));
+Obj g__03519268_037 = PRIM_ISCONS(g__03519267_037);
+if (True == g__03519268_037) {
+Obj g__03519269_037 = PRIM_CDR(closureRef(R[0], 4));
+Obj g__03519270_037 = PRIM_CAR(g__03519269_037);
+Obj g__03517859_037 = g__03519270_037;
+Obj g__03519271_037 = PRIM_CDR(closureRef(R[0], 4));
+Obj g__03519272_037 = PRIM_CDR(g__03519271_037);
+Obj g__03519273_037 = PRIM_EQ(Nil, g__03519272_037);
+if (True == g__03519273_037) {
+R[1] = g__03517859_037;
 saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "closureRef(R[0], ", 17));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517787_037);
+coraCall0(co, g__03517826_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517787_037);
+coraCall0(co, g__03517826_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517787_037);
+coraCall0(co, g__03517826_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517787_037);
+coraCall0(co, g__03517826_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519236_037= co->res;
+Obj g__03519275_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj g__03519235_037= co->res;
-Obj g__03517820_037 = R[1];
+Obj g__03519274_037= co->res;
+Obj g__03517859_037 = R[1];
 saveCont(co, clofun98, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517820_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517859_037);
 return;
 }
 }
@@ -2840,172 +2885,172 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517788_037 = makeNative(co->gc, 4, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03519198_037 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == g__03519198_037) {
-Obj g__03519199_037 = PRIM_CAR(closureRef(R[0], 3));
-Obj g__03519200_037 = PRIM_EQ(getBinding(co, packageID, 97).name, g__03519199_037);
-if (True == g__03519200_037) {
-Obj g__03519201_037 = PRIM_CDR(closureRef(R[0], 3));
-Obj g__03519202_037 = PRIM_ISCONS(g__03519201_037);
-if (True == g__03519202_037) {
-Obj g__03519203_037 = PRIM_CDR(closureRef(R[0], 3));
-Obj g__03519204_037 = PRIM_CAR(g__03519203_037);
-Obj g__03517819_037 = g__03519204_037;
-Obj g__03519205_037 = PRIM_CDR(closureRef(R[0], 3));
-Obj g__03519206_037 = PRIM_CDR(g__03519205_037);
-Obj g__03519207_037 = PRIM_EQ(Nil, g__03519206_037);
-if (True == g__03519207_037) {
-Obj g__03519208_037 = primIsSymbol(g__03517819_037);
-if (True == g__03519208_037) {
-R[1] = g__03517819_037;
+Obj g__03517827_037 = makeNative(co->gc, 4, clofun96, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03519237_037 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == g__03519237_037) {
+Obj g__03519238_037 = PRIM_CAR(closureRef(R[0], 3));
+Obj g__03519239_037 = PRIM_EQ(getBinding(co, packageID, 97).name, g__03519238_037);
+if (True == g__03519239_037) {
+Obj g__03519240_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03519241_037 = PRIM_ISCONS(g__03519240_037);
+if (True == g__03519241_037) {
+Obj g__03519242_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03519243_037 = PRIM_CAR(g__03519242_037);
+Obj g__03517858_037 = g__03519243_037;
+Obj g__03519244_037 = PRIM_CDR(closureRef(R[0], 3));
+Obj g__03519245_037 = PRIM_CDR(g__03519244_037);
+Obj g__03519246_037 = PRIM_EQ(Nil, g__03519245_037);
+if (True == g__03519246_037) {
+Obj g__03519247_037 = primIsSymbol(g__03517858_037);
+if (True == g__03519247_037) {
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "getBinding(co, packageID, ", 26));
 return;
 } else {
-R[1] = g__03517819_037;
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517819_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517858_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517788_037);
+coraCall0(co, g__03517827_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517788_037);
+coraCall0(co, g__03517827_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517788_037);
+coraCall0(co, g__03517827_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517788_037);
+coraCall0(co, g__03517827_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519211_037= co->res;
+Obj g__03519250_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ").name", 6));
 return;
 }
 case 2:
 {
-Obj g__03519210_037= co->res;
+Obj g__03519249_037= co->res;
 saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519210_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519249_037);
 return;
 }
 case 3:
 {
-Obj g__03519209_037= co->res;
-Obj g__03517819_037 = R[1];
+Obj g__03519248_037= co->res;
+Obj g__03517858_037 = R[1];
 saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), g__03517819_037, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 51)), g__03517858_037, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj g__03519214_037= co->res;
+Obj g__03519253_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 5:
 {
-Obj g__03519213_037= co->res;
-Obj g__03517819_037 = R[1];
+Obj g__03519252_037= co->res;
+Obj g__03517858_037 = R[1];
 saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517819_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517858_037);
 return;
 }
 case 6:
 {
-Obj g__03519221_037= co->res;
+Obj g__03519260_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 7:
 {
-Obj g__03519220_037= co->res;
+Obj g__03519259_037= co->res;
 saveCont(co, clofun97, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519220_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519259_037);
 return;
 }
 case 8:
 {
-Obj g__03519219_037= co->res;
-Obj g__03517819_037 = R[1];
+Obj g__03519258_037= co->res;
+Obj g__03517858_037 = R[1];
 saveCont(co, clofun97, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), g__03517819_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), g__03517858_037);
 return;
 }
 case 9:
 {
-Obj g__03519218_037= co->res;
-Obj g__03517819_037 = R[1];
-R[1] = g__03517819_037;
+Obj g__03519257_037= co->res;
+Obj g__03517858_037 = R[1];
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "\", ", 3));
 return;
 }
 case 10:
 {
-Obj g__03519217_037= co->res;
-Obj g__03517819_037 = R[1];
-R[1] = g__03517819_037;
+Obj g__03519256_037= co->res;
+Obj g__03517858_037 = R[1];
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), g__03519217_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), g__03519256_037);
 return;
 }
 case 11:
 {
-Obj g__03519216_037= co->res;
-Obj g__03517819_037 = R[1];
-R[1] = g__03517819_037;
+Obj g__03519255_037= co->res;
+Obj g__03517858_037 = R[1];
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), g__03517819_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 42)), g__03517858_037);
 return;
 }
 case 12:
 {
-Obj g__03519212_037= co->res;
-Obj g__03517819_037 = R[1];
-if (True == g__03519212_037) {
-R[1] = g__03517819_037;
+Obj g__03519251_037= co->res;
+Obj g__03517858_037 = R[1];
+if (True == g__03519251_037) {
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "MAKE_NUMBER(", 12));
 return;
 } else {
-Obj g__03519215_037 = primIsString(g__03517819_037);
-if (True == g__03519215_037) {
-R[1] = g__03517819_037;
+Obj g__03519254_037 = primIsString(g__03517858_037);
+if (True == g__03519254_037) {
+R[1] = g__03517858_037;
 saveCont(co, clofun97, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "makeString(co->gc, \"", 20));
 return;
 } else {
-Obj g__03519222_037 = PRIM_EQ(g__03517819_037, Nil);
-if (True == g__03519222_037) {
+Obj g__03519261_037 = PRIM_EQ(g__03517858_037, Nil);
+if (True == g__03519261_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "Nil", 3));
 return;
 } else {
-Obj g__03519223_037 = PRIM_EQ(g__03517819_037, True);
-if (True == g__03519223_037) {
+Obj g__03519262_037 = PRIM_EQ(g__03517858_037, True);
+if (True == g__03519262_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "True", 4));
 return;
 } else {
-Obj g__03519224_037 = PRIM_EQ(g__03517819_037, False);
-if (True == g__03519224_037) {
+Obj g__03519263_037 = PRIM_EQ(g__03517858_037, False);
+if (True == g__03519263_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "False", 5));
 return;
@@ -3026,171 +3071,171 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517789_037 = makeNative(co->gc, 3, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj g__03519163_037 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == g__03519163_037) {
-Obj g__03519164_037 = PRIM_CAR(closureRef(R[0], 2));
-Obj g__03519165_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03519164_037);
-if (True == g__03519165_037) {
-Obj g__03519166_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519167_037 = PRIM_ISCONS(g__03519166_037);
-if (True == g__03519167_037) {
-Obj g__03519168_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519169_037 = PRIM_CAR(g__03519168_037);
-Obj g__03517816_037 = g__03519169_037;
-Obj g__03519170_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519171_037 = PRIM_CDR(g__03519170_037);
-Obj g__03519172_037 = PRIM_ISCONS(g__03519171_037);
-if (True == g__03519172_037) {
-Obj g__03519173_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519174_037 = PRIM_CDR(g__03519173_037);
-Obj g__03519175_037 = PRIM_CAR(g__03519174_037);
-Obj g__03517817_037 = g__03519175_037;
-Obj g__03519176_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519177_037 = PRIM_CDR(g__03519176_037);
-Obj g__03519178_037 = PRIM_CDR(g__03519177_037);
-Obj g__03519179_037 = PRIM_ISCONS(g__03519178_037);
-if (True == g__03519179_037) {
-Obj g__03519180_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519181_037 = PRIM_CDR(g__03519180_037);
-Obj g__03519182_037 = PRIM_CDR(g__03519181_037);
-Obj g__03519183_037 = PRIM_CAR(g__03519182_037);
-Obj g__03517818_037 = g__03519183_037;
-Obj g__03519184_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519185_037 = PRIM_CDR(g__03519184_037);
-Obj g__03519186_037 = PRIM_CDR(g__03519185_037);
-Obj g__03519187_037 = PRIM_CDR(g__03519186_037);
-Obj g__03519188_037 = PRIM_EQ(Nil, g__03519187_037);
-if (True == g__03519188_037) {
-R[1] = g__03517817_037;
-R[2] = g__03517816_037;
-R[3] = g__03517818_037;
+Obj g__03517828_037 = makeNative(co->gc, 3, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj g__03519202_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519202_037) {
+Obj g__03519203_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519204_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03519203_037);
+if (True == g__03519204_037) {
+Obj g__03519205_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519206_037 = PRIM_ISCONS(g__03519205_037);
+if (True == g__03519206_037) {
+Obj g__03519207_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519208_037 = PRIM_CAR(g__03519207_037);
+Obj g__03517855_037 = g__03519208_037;
+Obj g__03519209_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519210_037 = PRIM_CDR(g__03519209_037);
+Obj g__03519211_037 = PRIM_ISCONS(g__03519210_037);
+if (True == g__03519211_037) {
+Obj g__03519212_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519213_037 = PRIM_CDR(g__03519212_037);
+Obj g__03519214_037 = PRIM_CAR(g__03519213_037);
+Obj g__03517856_037 = g__03519214_037;
+Obj g__03519215_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519216_037 = PRIM_CDR(g__03519215_037);
+Obj g__03519217_037 = PRIM_CDR(g__03519216_037);
+Obj g__03519218_037 = PRIM_ISCONS(g__03519217_037);
+if (True == g__03519218_037) {
+Obj g__03519219_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519220_037 = PRIM_CDR(g__03519219_037);
+Obj g__03519221_037 = PRIM_CDR(g__03519220_037);
+Obj g__03519222_037 = PRIM_CAR(g__03519221_037);
+Obj g__03517857_037 = g__03519222_037;
+Obj g__03519223_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519224_037 = PRIM_CDR(g__03519223_037);
+Obj g__03519225_037 = PRIM_CDR(g__03519224_037);
+Obj g__03519226_037 = PRIM_CDR(g__03519225_037);
+Obj g__03519227_037 = PRIM_EQ(Nil, g__03519226_037);
+if (True == g__03519227_037) {
+R[1] = g__03517856_037;
+R[2] = g__03517855_037;
+R[3] = g__03517857_037;
 saveCont(co, clofun96, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517816_037, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517855_037, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517789_037);
+coraCall0(co, g__03517828_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517789_037);
+coraCall0(co, g__03517828_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517789_037);
+coraCall0(co, g__03517828_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517789_037);
+coraCall0(co, g__03517828_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517789_037);
+coraCall0(co, g__03517828_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517789_037);
+coraCall0(co, g__03517828_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519196_037= co->res;
-Obj g__03517816_037 = R[1];
-Obj g__03517818_037 = R[2];
-Obj g__03519197_037 = makeCons(co->gc, g__03517816_037, closureRef(R[0], 5));
+Obj g__03519235_037= co->res;
+Obj g__03517855_037 = R[1];
+Obj g__03517857_037 = R[2];
+Obj g__03519236_037 = makeCons(co->gc, g__03517855_037, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, g__03519196_037, g__03517818_037, g__03519197_037);
+coraCall2(co, g__03519235_037, g__03517857_037, g__03519236_037);
 return;
 }
 case 2:
 {
-Obj g__03519195_037= co->res;
-Obj g__03517816_037 = R[1];
-Obj g__03517818_037 = R[2];
-R[1] = g__03517816_037;
-R[2] = g__03517818_037;
+Obj g__03519234_037= co->res;
+Obj g__03517855_037 = R[1];
+Obj g__03517857_037 = R[2];
+R[1] = g__03517855_037;
+R[2] = g__03517857_037;
 saveCont(co, clofun96, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03519194_037= co->res;
-Obj g__03517816_037 = R[1];
-Obj g__03517818_037 = R[2];
-R[1] = g__03517816_037;
-R[2] = g__03517818_037;
+Obj g__03519233_037= co->res;
+Obj g__03517855_037 = R[1];
+Obj g__03517857_037 = R[2];
+R[1] = g__03517855_037;
+R[2] = g__03517857_037;
 saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ";\n", 2));
 return;
 }
 case 4:
 {
-Obj g__03519193_037= co->res;
-Obj g__03517817_037 = R[1];
-Obj g__03517816_037 = R[2];
-Obj g__03517818_037 = R[3];
-R[1] = g__03517816_037;
-R[2] = g__03517818_037;
+Obj g__03519232_037= co->res;
+Obj g__03517856_037 = R[1];
+Obj g__03517855_037 = R[2];
+Obj g__03517857_037 = R[3];
+R[1] = g__03517855_037;
+R[2] = g__03517857_037;
 saveCont(co, clofun96, 3, R);
-coraCall2(co, g__03519193_037, g__03517817_037, closureRef(R[0], 5));
+coraCall2(co, g__03519232_037, g__03517856_037, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj g__03519192_037= co->res;
-Obj g__03517817_037 = R[1];
-Obj g__03517816_037 = R[2];
-Obj g__03517818_037 = R[3];
-R[1] = g__03517817_037;
-R[2] = g__03517816_037;
-R[3] = g__03517818_037;
+Obj g__03519231_037= co->res;
+Obj g__03517856_037 = R[1];
+Obj g__03517855_037 = R[2];
+Obj g__03517857_037 = R[3];
+R[1] = g__03517856_037;
+R[2] = g__03517855_037;
+R[3] = g__03517857_037;
 saveCont(co, clofun96, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj g__03519191_037= co->res;
-Obj g__03517817_037 = R[1];
-Obj g__03517816_037 = R[2];
-Obj g__03517818_037 = R[3];
-R[1] = g__03517817_037;
-R[2] = g__03517816_037;
-R[3] = g__03517818_037;
+Obj g__03519230_037= co->res;
+Obj g__03517856_037 = R[1];
+Obj g__03517855_037 = R[2];
+Obj g__03517857_037 = R[3];
+R[1] = g__03517856_037;
+R[2] = g__03517855_037;
+R[3] = g__03517857_037;
 saveCont(co, clofun96, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, " = ", 3));
 return;
 }
 case 7:
 {
-Obj g__03519190_037= co->res;
-Obj g__03517817_037 = R[1];
-Obj g__03517816_037 = R[2];
-Obj g__03517818_037 = R[3];
-R[1] = g__03517817_037;
-R[2] = g__03517816_037;
-R[3] = g__03517818_037;
+Obj g__03519229_037= co->res;
+Obj g__03517856_037 = R[1];
+Obj g__03517855_037 = R[2];
+Obj g__03517857_037 = R[3];
+R[1] = g__03517856_037;
+R[2] = g__03517855_037;
+R[3] = g__03517857_037;
 saveCont(co, clofun96, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), g__03517816_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 45)), closureRef(R[0], 3), g__03517855_037);
 return;
 }
 case 8:
 {
-Obj g__03519189_037= co->res;
-Obj g__03517817_037 = R[1];
-Obj g__03517816_037 = R[2];
-Obj g__03517818_037 = R[3];
-R[1] = g__03517817_037;
-R[2] = g__03517816_037;
-R[3] = g__03517818_037;
+Obj g__03519228_037= co->res;
+Obj g__03517856_037 = R[1];
+Obj g__03517855_037 = R[2];
+Obj g__03517857_037 = R[3];
+R[1] = g__03517856_037;
+R[2] = g__03517855_037;
+R[3] = g__03517857_037;
 saveCont(co, clofun96, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, "Obj ", 4));
 return;
@@ -3202,153 +3247,153 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517790_037 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj g__03519133_037 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == g__03519133_037) {
-Obj g__03519134_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03519135_037 = PRIM_ISCONS(g__03519134_037);
-if (True == g__03519135_037) {
-Obj g__03519136_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03519137_037 = PRIM_CAR(g__03519136_037);
-Obj g__03519138_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03519137_037);
-if (True == g__03519138_037) {
-Obj g__03519139_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03519140_037 = PRIM_CDR(g__03519139_037);
-Obj g__03519141_037 = PRIM_ISCONS(g__03519140_037);
-if (True == g__03519141_037) {
-Obj g__03519142_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03519143_037 = PRIM_CDR(g__03519142_037);
-Obj g__03519144_037 = PRIM_CAR(g__03519143_037);
-Obj g__03517814_037 = g__03519144_037;
-Obj g__03519145_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03519146_037 = PRIM_CDR(g__03519145_037);
-Obj g__03519147_037 = PRIM_CDR(g__03519146_037);
-Obj g__03519148_037 = PRIM_EQ(Nil, g__03519147_037);
-if (True == g__03519148_037) {
-Obj g__03519149_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03517815_037 = g__03519149_037;
-R[1] = g__03517814_037;
-R[2] = g__03517815_037;
+Obj g__03517829_037 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519172_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03519172_037) {
+Obj g__03519173_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519174_037 = PRIM_ISCONS(g__03519173_037);
+if (True == g__03519174_037) {
+Obj g__03519175_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519176_037 = PRIM_CAR(g__03519175_037);
+Obj g__03519177_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03519176_037);
+if (True == g__03519177_037) {
+Obj g__03519178_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519179_037 = PRIM_CDR(g__03519178_037);
+Obj g__03519180_037 = PRIM_ISCONS(g__03519179_037);
+if (True == g__03519180_037) {
+Obj g__03519181_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519182_037 = PRIM_CDR(g__03519181_037);
+Obj g__03519183_037 = PRIM_CAR(g__03519182_037);
+Obj g__03517853_037 = g__03519183_037;
+Obj g__03519184_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519185_037 = PRIM_CDR(g__03519184_037);
+Obj g__03519186_037 = PRIM_CDR(g__03519185_037);
+Obj g__03519187_037 = PRIM_EQ(Nil, g__03519186_037);
+if (True == g__03519187_037) {
+Obj g__03519188_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03517854_037 = g__03519188_037;
+R[1] = g__03517853_037;
+R[2] = g__03517854_037;
 saveCont(co, clofun95, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), g__03517814_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), g__03517853_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517790_037);
+coraCall0(co, g__03517829_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517790_037);
+coraCall0(co, g__03517829_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517790_037);
+coraCall0(co, g__03517829_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517790_037);
+coraCall0(co, g__03517829_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517790_037);
+coraCall0(co, g__03517829_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519154_037= co->res;
+Obj g__03519193_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj g__03519153_037= co->res;
-Obj g__03517815_037 = R[1];
+Obj g__03519192_037= co->res;
+Obj g__03517854_037 = R[1];
 saveCont(co, clofun95, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517854_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj g__03519157_037= co->res;
+Obj g__03519196_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 4:
 {
-Obj g__03519156_037= co->res;
-Obj g__03517815_037 = R[1];
+Obj g__03519195_037= co->res;
+Obj g__03517854_037 = R[1];
 saveCont(co, clofun95, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517854_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 5:
 {
-Obj g__03519160_037= co->res;
+Obj g__03519199_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 6:
 {
-Obj g__03519159_037= co->res;
-Obj g__03517815_037 = R[1];
+Obj g__03519198_037= co->res;
+Obj g__03517854_037 = R[1];
 saveCont(co, clofun95, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517854_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 7:
 {
-Obj g__03519162_037= co->res;
+Obj g__03519201_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 8:
 {
-Obj g__03519161_037= co->res;
-Obj g__03517815_037 = R[1];
+Obj g__03519200_037= co->res;
+Obj g__03517854_037 = R[1];
 saveCont(co, clofun95, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517815_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517854_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj g__03519151_037= co->res;
-Obj g__03517814_037 = R[1];
-Obj g__03517815_037 = R[2];
-Obj g__03519152_037 = PRIM_EQ(g__03517814_037, getBinding(co, packageID, 122).name);
-if (True == g__03519152_037) {
-R[1] = g__03517815_037;
+Obj g__03519190_037= co->res;
+Obj g__03517853_037 = R[1];
+Obj g__03517854_037 = R[2];
+Obj g__03519191_037 = PRIM_EQ(g__03517853_037, getBinding(co, packageID, 122).name);
+if (True == g__03519191_037) {
+R[1] = g__03517854_037;
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co, ", 5));
 return;
 } else {
-Obj g__03519155_037 = PRIM_EQ(g__03517814_037, getBinding(co, packageID, 110).name);
-if (True == g__03519155_037) {
-R[1] = g__03517815_037;
+Obj g__03519194_037 = PRIM_EQ(g__03517853_037, getBinding(co, packageID, 110).name);
+if (True == g__03519194_037) {
+R[1] = g__03517854_037;
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co", 3));
 return;
 } else {
-Obj g__03519158_037 = PRIM_EQ(g__03517814_037, getBinding(co, packageID, 119).name);
-if (True == g__03519158_037) {
-R[1] = g__03517815_037;
+Obj g__03519197_037 = PRIM_EQ(g__03517853_037, getBinding(co, packageID, 119).name);
+if (True == g__03519197_037) {
+R[1] = g__03517854_037;
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co->gc, ", 9));
 return;
 } else {
-R[1] = g__03517815_037;
+R[1] = g__03517854_037;
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(", 1));
 return;
@@ -3358,13 +3403,13 @@ return;
 }
 case 10:
 {
-Obj g__03519150_037= co->res;
-Obj g__03517814_037 = R[1];
-Obj g__03517815_037 = R[2];
-R[1] = g__03517814_037;
-R[2] = g__03517815_037;
+Obj g__03519189_037= co->res;
+Obj g__03517853_037 = R[1];
+Obj g__03517854_037 = R[2];
+R[1] = g__03517853_037;
+R[2] = g__03517854_037;
 saveCont(co, clofun95, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), g__03519150_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), g__03519189_037);
 return;
 }
 }
@@ -3374,165 +3419,165 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517791_037 = makeNative(co->gc, 5, clofun93, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj g__03519098_037 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == g__03519098_037) {
-Obj g__03519099_037 = PRIM_CAR(closureRef(R[0], 2));
-Obj g__03519100_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03519099_037);
-if (True == g__03519100_037) {
-Obj g__03519101_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519102_037 = PRIM_ISCONS(g__03519101_037);
-if (True == g__03519102_037) {
-Obj g__03519103_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519104_037 = PRIM_CAR(g__03519103_037);
-Obj g__03517811_037 = g__03519104_037;
-Obj g__03519105_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519106_037 = PRIM_CDR(g__03519105_037);
-Obj g__03519107_037 = PRIM_ISCONS(g__03519106_037);
-if (True == g__03519107_037) {
-Obj g__03519108_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519109_037 = PRIM_CDR(g__03519108_037);
-Obj g__03519110_037 = PRIM_CAR(g__03519109_037);
-Obj g__03517812_037 = g__03519110_037;
-Obj g__03519111_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519112_037 = PRIM_CDR(g__03519111_037);
-Obj g__03519113_037 = PRIM_CDR(g__03519112_037);
-Obj g__03519114_037 = PRIM_ISCONS(g__03519113_037);
-if (True == g__03519114_037) {
-Obj g__03519115_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519116_037 = PRIM_CDR(g__03519115_037);
-Obj g__03519117_037 = PRIM_CDR(g__03519116_037);
-Obj g__03519118_037 = PRIM_CAR(g__03519117_037);
-Obj g__03517813_037 = g__03519118_037;
-Obj g__03519119_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519120_037 = PRIM_CDR(g__03519119_037);
-Obj g__03519121_037 = PRIM_CDR(g__03519120_037);
-Obj g__03519122_037 = PRIM_CDR(g__03519121_037);
-Obj g__03519123_037 = PRIM_EQ(Nil, g__03519122_037);
-if (True == g__03519123_037) {
-R[1] = g__03517811_037;
-R[2] = g__03517812_037;
-R[3] = g__03517813_037;
+Obj g__03517830_037 = makeNative(co->gc, 5, clofun93, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519137_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519137_037) {
+Obj g__03519138_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519139_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03519138_037);
+if (True == g__03519139_037) {
+Obj g__03519140_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519141_037 = PRIM_ISCONS(g__03519140_037);
+if (True == g__03519141_037) {
+Obj g__03519142_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519143_037 = PRIM_CAR(g__03519142_037);
+Obj g__03517850_037 = g__03519143_037;
+Obj g__03519144_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519145_037 = PRIM_CDR(g__03519144_037);
+Obj g__03519146_037 = PRIM_ISCONS(g__03519145_037);
+if (True == g__03519146_037) {
+Obj g__03519147_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519148_037 = PRIM_CDR(g__03519147_037);
+Obj g__03519149_037 = PRIM_CAR(g__03519148_037);
+Obj g__03517851_037 = g__03519149_037;
+Obj g__03519150_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519151_037 = PRIM_CDR(g__03519150_037);
+Obj g__03519152_037 = PRIM_CDR(g__03519151_037);
+Obj g__03519153_037 = PRIM_ISCONS(g__03519152_037);
+if (True == g__03519153_037) {
+Obj g__03519154_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519155_037 = PRIM_CDR(g__03519154_037);
+Obj g__03519156_037 = PRIM_CDR(g__03519155_037);
+Obj g__03519157_037 = PRIM_CAR(g__03519156_037);
+Obj g__03517852_037 = g__03519157_037;
+Obj g__03519158_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519159_037 = PRIM_CDR(g__03519158_037);
+Obj g__03519160_037 = PRIM_CDR(g__03519159_037);
+Obj g__03519161_037 = PRIM_CDR(g__03519160_037);
+Obj g__03519162_037 = PRIM_EQ(Nil, g__03519161_037);
+if (True == g__03519162_037) {
+R[1] = g__03517850_037;
+R[2] = g__03517851_037;
+R[3] = g__03517852_037;
 saveCont(co, clofun94, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "if (True == ", 12));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517791_037);
+coraCall0(co, g__03517830_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517791_037);
+coraCall0(co, g__03517830_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517791_037);
+coraCall0(co, g__03517830_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517791_037);
+coraCall0(co, g__03517830_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517791_037);
+coraCall0(co, g__03517830_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517791_037);
+coraCall0(co, g__03517830_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519132_037= co->res;
+Obj g__03519171_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "}\n", 2));
 return;
 }
 case 2:
 {
-Obj g__03519131_037= co->res;
-Obj g__03517813_037 = R[1];
+Obj g__03519170_037= co->res;
+Obj g__03517852_037 = R[1];
 saveCont(co, clofun94, 1, R);
-coraCall2(co, g__03519131_037, g__03517813_037, closureRef(R[0], 4));
+coraCall2(co, g__03519170_037, g__03517852_037, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03519130_037= co->res;
-Obj g__03517813_037 = R[1];
-R[1] = g__03517813_037;
+Obj g__03519169_037= co->res;
+Obj g__03517852_037 = R[1];
+R[1] = g__03517852_037;
 saveCont(co, clofun94, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj g__03519129_037= co->res;
-Obj g__03517813_037 = R[1];
-R[1] = g__03517813_037;
+Obj g__03519168_037= co->res;
+Obj g__03517852_037 = R[1];
+R[1] = g__03517852_037;
 saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "} else {\n", 9));
 return;
 }
 case 5:
 {
-Obj g__03519128_037= co->res;
-Obj g__03517812_037 = R[1];
-Obj g__03517813_037 = R[2];
-R[1] = g__03517813_037;
+Obj g__03519167_037= co->res;
+Obj g__03517851_037 = R[1];
+Obj g__03517852_037 = R[2];
+R[1] = g__03517852_037;
 saveCont(co, clofun94, 4, R);
-coraCall2(co, g__03519128_037, g__03517812_037, closureRef(R[0], 4));
+coraCall2(co, g__03519167_037, g__03517851_037, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj g__03519127_037= co->res;
-Obj g__03517812_037 = R[1];
-Obj g__03517813_037 = R[2];
-R[1] = g__03517812_037;
-R[2] = g__03517813_037;
+Obj g__03519166_037= co->res;
+Obj g__03517851_037 = R[1];
+Obj g__03517852_037 = R[2];
+R[1] = g__03517851_037;
+R[2] = g__03517852_037;
 saveCont(co, clofun94, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj g__03519126_037= co->res;
-Obj g__03517812_037 = R[1];
-Obj g__03517813_037 = R[2];
-R[1] = g__03517812_037;
-R[2] = g__03517813_037;
+Obj g__03519165_037= co->res;
+Obj g__03517851_037 = R[1];
+Obj g__03517852_037 = R[2];
+R[1] = g__03517851_037;
+R[2] = g__03517852_037;
 saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ") {\n", 4));
 return;
 }
 case 8:
 {
-Obj g__03519125_037= co->res;
-Obj g__03517811_037 = R[1];
-Obj g__03517812_037 = R[2];
-Obj g__03517813_037 = R[3];
-R[1] = g__03517812_037;
-R[2] = g__03517813_037;
+Obj g__03519164_037= co->res;
+Obj g__03517850_037 = R[1];
+Obj g__03517851_037 = R[2];
+Obj g__03517852_037 = R[3];
+R[1] = g__03517851_037;
+R[2] = g__03517852_037;
 saveCont(co, clofun94, 7, R);
-coraCall2(co, g__03519125_037, g__03517811_037, closureRef(R[0], 4));
+coraCall2(co, g__03519164_037, g__03517850_037, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj g__03519124_037= co->res;
-Obj g__03517811_037 = R[1];
-Obj g__03517812_037 = R[2];
-Obj g__03517813_037 = R[3];
-R[1] = g__03517811_037;
-R[2] = g__03517812_037;
-R[3] = g__03517813_037;
+Obj g__03519163_037= co->res;
+Obj g__03517850_037 = R[1];
+Obj g__03517851_037 = R[2];
+Obj g__03517852_037 = R[3];
+R[1] = g__03517850_037;
+R[2] = g__03517851_037;
+R[3] = g__03517852_037;
 saveCont(co, clofun94, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
@@ -3544,97 +3589,97 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517792_037 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj g__03519060_037 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == g__03519060_037) {
-Obj g__03519061_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03519062_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03519061_037);
-if (True == g__03519062_037) {
-Obj g__03519063_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519064_037 = PRIM_ISCONS(g__03519063_037);
-if (True == g__03519064_037) {
-Obj g__03519065_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519066_037 = PRIM_CAR(g__03519065_037);
-Obj g__03517807_037 = g__03519066_037;
-Obj g__03519067_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519068_037 = PRIM_CDR(g__03519067_037);
-Obj g__03519069_037 = PRIM_ISCONS(g__03519068_037);
-if (True == g__03519069_037) {
-Obj g__03519070_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519071_037 = PRIM_CDR(g__03519070_037);
-Obj g__03519072_037 = PRIM_CAR(g__03519071_037);
-Obj g__03517808_037 = g__03519072_037;
-Obj g__03519073_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519074_037 = PRIM_CDR(g__03519073_037);
-Obj g__03519075_037 = PRIM_CDR(g__03519074_037);
-Obj g__03519076_037 = PRIM_ISCONS(g__03519075_037);
-if (True == g__03519076_037) {
-Obj g__03519077_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519078_037 = PRIM_CDR(g__03519077_037);
-Obj g__03519079_037 = PRIM_CDR(g__03519078_037);
-Obj g__03519080_037 = PRIM_CAR(g__03519079_037);
-Obj g__03517809_037 = g__03519080_037;
-Obj g__03519081_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03519082_037 = PRIM_CDR(g__03519081_037);
-Obj g__03519083_037 = PRIM_CDR(g__03519082_037);
-Obj g__03519084_037 = PRIM_CDR(g__03519083_037);
-Obj g__03517810_037 = g__03519084_037;
-R[1] = g__03517809_037;
-R[2] = g__03517807_037;
-R[3] = g__03517808_037;
-R[4] = g__03517810_037;
+Obj g__03517831_037 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj g__03519099_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03519099_037) {
+Obj g__03519100_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03519101_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03519100_037);
+if (True == g__03519101_037) {
+Obj g__03519102_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519103_037 = PRIM_ISCONS(g__03519102_037);
+if (True == g__03519103_037) {
+Obj g__03519104_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519105_037 = PRIM_CAR(g__03519104_037);
+Obj g__03517846_037 = g__03519105_037;
+Obj g__03519106_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519107_037 = PRIM_CDR(g__03519106_037);
+Obj g__03519108_037 = PRIM_ISCONS(g__03519107_037);
+if (True == g__03519108_037) {
+Obj g__03519109_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519110_037 = PRIM_CDR(g__03519109_037);
+Obj g__03519111_037 = PRIM_CAR(g__03519110_037);
+Obj g__03517847_037 = g__03519111_037;
+Obj g__03519112_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519113_037 = PRIM_CDR(g__03519112_037);
+Obj g__03519114_037 = PRIM_CDR(g__03519113_037);
+Obj g__03519115_037 = PRIM_ISCONS(g__03519114_037);
+if (True == g__03519115_037) {
+Obj g__03519116_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519117_037 = PRIM_CDR(g__03519116_037);
+Obj g__03519118_037 = PRIM_CDR(g__03519117_037);
+Obj g__03519119_037 = PRIM_CAR(g__03519118_037);
+Obj g__03517848_037 = g__03519119_037;
+Obj g__03519120_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03519121_037 = PRIM_CDR(g__03519120_037);
+Obj g__03519122_037 = PRIM_CDR(g__03519121_037);
+Obj g__03519123_037 = PRIM_CDR(g__03519122_037);
+Obj g__03517849_037 = g__03519123_037;
+R[1] = g__03517848_037;
+R[2] = g__03517846_037;
+R[3] = g__03517847_037;
+R[4] = g__03517849_037;
 saveCont(co, clofun93, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "makeNative(co->gc, ", 19));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517792_037);
+coraCall0(co, g__03517831_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517792_037);
+coraCall0(co, g__03517831_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517792_037);
+coraCall0(co, g__03517831_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517792_037);
+coraCall0(co, g__03517831_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517792_037);
+coraCall0(co, g__03517831_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519097_037= co->res;
+Obj g__03519136_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ")", 1));
 return;
 }
 case 2:
 {
-Obj g__03519096_037= co->res;
-Obj g__03517810_037 = R[1];
+Obj g__03519135_037= co->res;
+Obj g__03517849_037 = R[1];
 saveCont(co, clofun93, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517810_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517849_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 3:
 {
-Obj g__03519094_037= co->res;
-Obj g__03517810_037 = R[1];
-Obj g__03519095_037 = primNot(g__03519094_037);
-if (True == g__03519095_037) {
-R[1] = g__03517810_037;
+Obj g__03519133_037= co->res;
+Obj g__03517849_037 = R[1];
+Obj g__03519134_037 = primNot(g__03519133_037);
+if (True == g__03519134_037) {
+R[1] = g__03517849_037;
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
@@ -3647,98 +3692,98 @@ return;
 }
 case 4:
 {
-Obj g__03519093_037= co->res;
-Obj g__03517810_037 = R[1];
-R[1] = g__03517810_037;
+Obj g__03519132_037= co->res;
+Obj g__03517849_037 = R[1];
+R[1] = g__03517849_037;
 saveCont(co, clofun93, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517810_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517849_037);
 return;
 }
 case 5:
 {
-Obj g__03519092_037= co->res;
-Obj g__03517810_037 = R[1];
-R[1] = g__03517810_037;
+Obj g__03519131_037= co->res;
+Obj g__03517849_037 = R[1];
+R[1] = g__03517849_037;
 saveCont(co, clofun93, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519092_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03519131_037);
 return;
 }
 case 6:
 {
-Obj g__03519091_037= co->res;
-Obj g__03517810_037 = R[1];
-R[1] = g__03517810_037;
+Obj g__03519130_037= co->res;
+Obj g__03517849_037 = R[1];
+R[1] = g__03517849_037;
 saveCont(co, clofun93, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517810_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517849_037);
 return;
 }
 case 7:
 {
-Obj g__03519090_037= co->res;
-Obj g__03517810_037 = R[1];
-R[1] = g__03517810_037;
+Obj g__03519129_037= co->res;
+Obj g__03517849_037 = R[1];
+R[1] = g__03517849_037;
 saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 8:
 {
-Obj g__03519089_037= co->res;
-Obj g__03517808_037 = R[1];
-Obj g__03517810_037 = R[2];
-R[1] = g__03517810_037;
+Obj g__03519128_037= co->res;
+Obj g__03517847_037 = R[1];
+Obj g__03517849_037 = R[2];
+R[1] = g__03517849_037;
 saveCont(co, clofun93, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517808_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517847_037);
 return;
 }
 case 9:
 {
-Obj g__03519088_037= co->res;
-Obj g__03517808_037 = R[1];
-Obj g__03517810_037 = R[2];
-R[1] = g__03517808_037;
-R[2] = g__03517810_037;
+Obj g__03519127_037= co->res;
+Obj g__03517847_037 = R[1];
+Obj g__03517849_037 = R[2];
+R[1] = g__03517847_037;
+R[2] = g__03517849_037;
 saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 10:
 {
-Obj g__03519087_037= co->res;
-Obj g__03517807_037 = R[1];
-Obj g__03517808_037 = R[2];
-Obj g__03517810_037 = R[3];
-R[1] = g__03517808_037;
-R[2] = g__03517810_037;
+Obj g__03519126_037= co->res;
+Obj g__03517846_037 = R[1];
+Obj g__03517847_037 = R[2];
+Obj g__03517849_037 = R[3];
+R[1] = g__03517847_037;
+R[2] = g__03517849_037;
 saveCont(co, clofun93, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), g__03517807_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), g__03517846_037);
 return;
 }
 case 11:
 {
-Obj g__03519086_037= co->res;
-Obj g__03517807_037 = R[1];
-Obj g__03517808_037 = R[2];
-Obj g__03517810_037 = R[3];
-R[1] = g__03517807_037;
-R[2] = g__03517808_037;
-R[3] = g__03517810_037;
+Obj g__03519125_037= co->res;
+Obj g__03517846_037 = R[1];
+Obj g__03517847_037 = R[2];
+Obj g__03517849_037 = R[3];
+R[1] = g__03517846_037;
+R[2] = g__03517847_037;
+R[3] = g__03517849_037;
 saveCont(co, clofun93, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 12:
 {
-Obj g__03519085_037= co->res;
-Obj g__03517809_037 = R[1];
-Obj g__03517807_037 = R[2];
-Obj g__03517808_037 = R[3];
-Obj g__03517810_037 = R[4];
-R[1] = g__03517807_037;
-R[2] = g__03517808_037;
-R[3] = g__03517810_037;
+Obj g__03519124_037= co->res;
+Obj g__03517848_037 = R[1];
+Obj g__03517846_037 = R[2];
+Obj g__03517847_037 = R[3];
+Obj g__03517849_037 = R[4];
+R[1] = g__03517846_037;
+R[2] = g__03517847_037;
+R[3] = g__03517849_037;
 saveCont(co, clofun93, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517809_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517848_037);
 return;
 }
 }
@@ -3748,96 +3793,96 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517793_037 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj g__03519039_037 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == g__03519039_037) {
-Obj g__03519040_037 = PRIM_CAR(closureRef(R[0], 2));
-Obj g__03519041_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03519040_037);
-if (True == g__03519041_037) {
-Obj g__03519042_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519043_037 = PRIM_ISCONS(g__03519042_037);
-if (True == g__03519043_037) {
-Obj g__03519044_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519045_037 = PRIM_CAR(g__03519044_037);
-Obj g__03517805_037 = g__03519045_037;
-Obj g__03519046_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519047_037 = PRIM_CDR(g__03519046_037);
-Obj g__03519048_037 = PRIM_ISCONS(g__03519047_037);
-if (True == g__03519048_037) {
-Obj g__03519049_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519050_037 = PRIM_CDR(g__03519049_037);
-Obj g__03519051_037 = PRIM_CAR(g__03519050_037);
-Obj g__03517806_037 = g__03519051_037;
-Obj g__03519052_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519053_037 = PRIM_CDR(g__03519052_037);
-Obj g__03519054_037 = PRIM_CDR(g__03519053_037);
-Obj g__03519055_037 = PRIM_EQ(Nil, g__03519054_037);
-if (True == g__03519055_037) {
-R[1] = g__03517805_037;
-R[2] = g__03517806_037;
+Obj g__03517832_037 = makeNative(co->gc, 2, clofun91, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj g__03519078_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519078_037) {
+Obj g__03519079_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519080_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03519079_037);
+if (True == g__03519080_037) {
+Obj g__03519081_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519082_037 = PRIM_ISCONS(g__03519081_037);
+if (True == g__03519082_037) {
+Obj g__03519083_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519084_037 = PRIM_CAR(g__03519083_037);
+Obj g__03517844_037 = g__03519084_037;
+Obj g__03519085_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519086_037 = PRIM_CDR(g__03519085_037);
+Obj g__03519087_037 = PRIM_ISCONS(g__03519086_037);
+if (True == g__03519087_037) {
+Obj g__03519088_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519089_037 = PRIM_CDR(g__03519088_037);
+Obj g__03519090_037 = PRIM_CAR(g__03519089_037);
+Obj g__03517845_037 = g__03519090_037;
+Obj g__03519091_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519092_037 = PRIM_CDR(g__03519091_037);
+Obj g__03519093_037 = PRIM_CDR(g__03519092_037);
+Obj g__03519094_037 = PRIM_EQ(Nil, g__03519093_037);
+if (True == g__03519094_037) {
+R[1] = g__03517844_037;
+R[2] = g__03517845_037;
 saveCont(co, clofun92, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517793_037);
+coraCall0(co, g__03517832_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517793_037);
+coraCall0(co, g__03517832_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517793_037);
+coraCall0(co, g__03517832_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517793_037);
+coraCall0(co, g__03517832_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517793_037);
+coraCall0(co, g__03517832_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519059_037= co->res;
-Obj g__03517806_037 = R[1];
+Obj g__03519098_037= co->res;
+Obj g__03517845_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, g__03519059_037, g__03517806_037, closureRef(R[0], 5));
+coraCall2(co, g__03519098_037, g__03517845_037, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj g__03519058_037= co->res;
-Obj g__03517806_037 = R[1];
-R[1] = g__03517806_037;
+Obj g__03519097_037= co->res;
+Obj g__03517845_037 = R[1];
+R[1] = g__03517845_037;
 saveCont(co, clofun92, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03519057_037= co->res;
-Obj g__03517806_037 = R[1];
-R[1] = g__03517806_037;
+Obj g__03519096_037= co->res;
+Obj g__03517845_037 = R[1];
+R[1] = g__03517845_037;
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 3), makeString(co->gc, ";\n", 2));
 return;
 }
 case 4:
 {
-Obj g__03519056_037= co->res;
-Obj g__03517805_037 = R[1];
-Obj g__03517806_037 = R[2];
-R[1] = g__03517806_037;
+Obj g__03519095_037= co->res;
+Obj g__03517844_037 = R[1];
+Obj g__03517845_037 = R[2];
+R[1] = g__03517845_037;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, g__03519056_037, g__03517805_037, closureRef(R[0], 5));
+coraCall2(co, g__03519095_037, g__03517844_037, closureRef(R[0], 5));
 return;
 }
 }
@@ -3847,74 +3892,74 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517794_037 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj g__03519025_037 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == g__03519025_037) {
-Obj g__03519026_037 = PRIM_CAR(closureRef(R[0], 2));
-Obj g__03519027_037 = PRIM_EQ(getBinding(co, packageID, 73).name, g__03519026_037);
-if (True == g__03519027_037) {
-Obj g__03519028_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519029_037 = PRIM_ISCONS(g__03519028_037);
-if (True == g__03519029_037) {
-Obj g__03519030_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519031_037 = PRIM_CAR(g__03519030_037);
-Obj g__03517804_037 = g__03519031_037;
-Obj g__03519032_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519033_037 = PRIM_CDR(g__03519032_037);
-Obj g__03519034_037 = PRIM_EQ(Nil, g__03519033_037);
-if (True == g__03519034_037) {
-R[1] = g__03517804_037;
+Obj g__03517833_037 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519064_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519064_037) {
+Obj g__03519065_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519066_037 = PRIM_EQ(getBinding(co, packageID, 73).name, g__03519065_037);
+if (True == g__03519066_037) {
+Obj g__03519067_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519068_037 = PRIM_ISCONS(g__03519067_037);
+if (True == g__03519068_037) {
+Obj g__03519069_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519070_037 = PRIM_CAR(g__03519069_037);
+Obj g__03517843_037 = g__03519070_037;
+Obj g__03519071_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519072_037 = PRIM_CDR(g__03519071_037);
+Obj g__03519073_037 = PRIM_EQ(Nil, g__03519072_037);
+if (True == g__03519073_037) {
+R[1] = g__03517843_037;
 saveCont(co, clofun91, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "coraReturn(co, ", 15));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517794_037);
+coraCall0(co, g__03517833_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517794_037);
+coraCall0(co, g__03517833_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517794_037);
+coraCall0(co, g__03517833_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517794_037);
+coraCall0(co, g__03517833_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519038_037= co->res;
+Obj g__03519077_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "return;\n", 8));
 return;
 }
 case 2:
 {
-Obj g__03519037_037= co->res;
+Obj g__03519076_037= co->res;
 saveCont(co, clofun91, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ");\n", 3));
 return;
 }
 case 3:
 {
-Obj g__03519036_037= co->res;
-Obj g__03517804_037 = R[1];
+Obj g__03519075_037= co->res;
+Obj g__03517843_037 = R[1];
 saveCont(co, clofun91, 2, R);
-coraCall2(co, g__03519036_037, g__03517804_037, closureRef(R[0], 4));
+coraCall2(co, g__03519075_037, g__03517843_037, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj g__03519035_037= co->res;
-Obj g__03517804_037 = R[1];
-R[1] = g__03517804_037;
+Obj g__03519074_037= co->res;
+Obj g__03517843_037 = R[1];
+R[1] = g__03517843_037;
 saveCont(co, clofun91, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
@@ -3926,67 +3971,67 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517795_037 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj g__03519012_037 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == g__03519012_037) {
-Obj g__03519013_037 = PRIM_CAR(closureRef(R[0], 2));
-Obj g__03519014_037 = PRIM_EQ(getBinding(co, packageID, 75).name, g__03519013_037);
-if (True == g__03519014_037) {
-Obj g__03519015_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519016_037 = PRIM_ISCONS(g__03519015_037);
-if (True == g__03519016_037) {
-Obj g__03519017_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519018_037 = PRIM_CAR(g__03519017_037);
-Obj g__03517803_037 = g__03519018_037;
-Obj g__03519019_037 = PRIM_CDR(closureRef(R[0], 2));
-Obj g__03519020_037 = PRIM_CDR(g__03519019_037);
-Obj g__03519021_037 = PRIM_EQ(Nil, g__03519020_037);
-if (True == g__03519021_037) {
-R[1] = g__03517803_037;
+Obj g__03517834_037 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519051_037 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == g__03519051_037) {
+Obj g__03519052_037 = PRIM_CAR(closureRef(R[0], 2));
+Obj g__03519053_037 = PRIM_EQ(getBinding(co, packageID, 75).name, g__03519052_037);
+if (True == g__03519053_037) {
+Obj g__03519054_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519055_037 = PRIM_ISCONS(g__03519054_037);
+if (True == g__03519055_037) {
+Obj g__03519056_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519057_037 = PRIM_CAR(g__03519056_037);
+Obj g__03517842_037 = g__03519057_037;
+Obj g__03519058_037 = PRIM_CDR(closureRef(R[0], 2));
+Obj g__03519059_037 = PRIM_CDR(g__03519058_037);
+Obj g__03519060_037 = PRIM_EQ(Nil, g__03519059_037);
+if (True == g__03519060_037) {
+R[1] = g__03517842_037;
 saveCont(co, clofun90, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "co->ctx.sp = R;\n", 16));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517795_037);
+coraCall0(co, g__03517834_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517795_037);
+coraCall0(co, g__03517834_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517795_037);
+coraCall0(co, g__03517834_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517795_037);
+coraCall0(co, g__03517834_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519024_037= co->res;
+Obj g__03519063_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "return;\n", 8));
 return;
 }
 case 2:
 {
-Obj g__03519023_037= co->res;
-Obj g__03517803_037 = R[1];
+Obj g__03519062_037= co->res;
+Obj g__03517842_037 = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, g__03519023_037, g__03517803_037, closureRef(R[0], 4));
+coraCall2(co, g__03519062_037, g__03517842_037, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03519022_037= co->res;
-Obj g__03517803_037 = R[1];
-R[1] = g__03517803_037;
+Obj g__03519061_037= co->res;
+Obj g__03517842_037 = R[1];
+R[1] = g__03517842_037;
 saveCont(co, clofun90, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
@@ -3998,129 +4043,129 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517796_037 = makeNative(co->gc, 4, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj g__03518988_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518988_037) {
-Obj g__03518989_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518990_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518989_037);
-if (True == g__03518990_037) {
-Obj g__03518991_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518992_037 = PRIM_ISCONS(g__03518991_037);
-if (True == g__03518992_037) {
-Obj g__03518993_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518994_037 = PRIM_CAR(g__03518993_037);
-Obj g__03517800_037 = g__03518994_037;
-Obj g__03518995_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518996_037 = PRIM_CDR(g__03518995_037);
-Obj g__03518997_037 = PRIM_ISCONS(g__03518996_037);
-if (True == g__03518997_037) {
-Obj g__03518998_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518999_037 = PRIM_CDR(g__03518998_037);
-Obj g__03519000_037 = PRIM_CAR(g__03518999_037);
-Obj g__03517801_037 = g__03519000_037;
-Obj g__03519001_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03519002_037 = PRIM_CDR(g__03519001_037);
-Obj g__03519003_037 = PRIM_CDR(g__03519002_037);
-Obj g__03517802_037 = g__03519003_037;
-R[1] = g__03517801_037;
-R[2] = g__03517800_037;
+Obj g__03517835_037 = makeNative(co->gc, 4, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj g__03519027_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519027_037) {
+Obj g__03519028_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03519029_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03519028_037);
+if (True == g__03519029_037) {
+Obj g__03519030_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03519031_037 = PRIM_ISCONS(g__03519030_037);
+if (True == g__03519031_037) {
+Obj g__03519032_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03519033_037 = PRIM_CAR(g__03519032_037);
+Obj g__03517839_037 = g__03519033_037;
+Obj g__03519034_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03519035_037 = PRIM_CDR(g__03519034_037);
+Obj g__03519036_037 = PRIM_ISCONS(g__03519035_037);
+if (True == g__03519036_037) {
+Obj g__03519037_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03519038_037 = PRIM_CDR(g__03519037_037);
+Obj g__03519039_037 = PRIM_CAR(g__03519038_037);
+Obj g__03517840_037 = g__03519039_037;
+Obj g__03519040_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03519041_037 = PRIM_CDR(g__03519040_037);
+Obj g__03519042_037 = PRIM_CDR(g__03519041_037);
+Obj g__03517841_037 = g__03519042_037;
+R[1] = g__03517840_037;
+R[2] = g__03517839_037;
 saveCont(co, clofun89, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), g__03517802_037};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), g__03517841_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 50)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517796_037);
+coraCall0(co, g__03517835_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517796_037);
+coraCall0(co, g__03517835_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517796_037);
+coraCall0(co, g__03517835_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517796_037);
+coraCall0(co, g__03517835_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03519011_037= co->res;
+Obj g__03519050_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "return;\n", 8));
 return;
 }
 case 2:
 {
-Obj g__03519010_037= co->res;
-Obj g__03517800_037 = R[1];
+Obj g__03519049_037= co->res;
+Obj g__03517839_037 = R[1];
 saveCont(co, clofun89, 1, R);
-coraCall2(co, g__03519010_037, g__03517800_037, closureRef(R[0], 4));
+coraCall2(co, g__03519049_037, g__03517839_037, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj g__03519009_037= co->res;
-Obj g__03517800_037 = R[1];
-R[1] = g__03517800_037;
+Obj g__03519048_037= co->res;
+Obj g__03517839_037 = R[1];
+R[1] = g__03517839_037;
 saveCont(co, clofun89, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj g__03519008_037= co->res;
-Obj g__03517800_037 = R[1];
-R[1] = g__03517800_037;
+Obj g__03519047_037= co->res;
+Obj g__03517839_037 = R[1];
+R[1] = g__03517839_037;
 saveCont(co, clofun89, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", R);\n", 6));
 return;
 }
 case 5:
 {
-Obj g__03519007_037= co->res;
-Obj g__03517801_037 = R[1];
-Obj g__03517800_037 = R[2];
-R[1] = g__03517800_037;
+Obj g__03519046_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517839_037 = R[2];
+R[1] = g__03517839_037;
 saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517801_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517840_037);
 return;
 }
 case 6:
 {
-Obj g__03519006_037= co->res;
-Obj g__03517801_037 = R[1];
-Obj g__03517800_037 = R[2];
-R[1] = g__03517801_037;
-R[2] = g__03517800_037;
+Obj g__03519045_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517839_037 = R[2];
+R[1] = g__03517840_037;
+R[2] = g__03517839_037;
 saveCont(co, clofun89, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 7:
 {
-Obj g__03519005_037= co->res;
-Obj g__03517801_037 = R[1];
-Obj g__03517800_037 = R[2];
-R[1] = g__03517801_037;
-R[2] = g__03517800_037;
+Obj g__03519044_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517839_037 = R[2];
+R[1] = g__03517840_037;
+R[2] = g__03517839_037;
 saveCont(co, clofun89, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 43)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj g__03519004_037= co->res;
-Obj g__03517801_037 = R[1];
-Obj g__03517800_037 = R[2];
-R[1] = g__03517801_037;
-R[2] = g__03517800_037;
+Obj g__03519043_037= co->res;
+Obj g__03517840_037 = R[1];
+Obj g__03517839_037 = R[2];
+R[1] = g__03517840_037;
+R[2] = g__03517839_037;
 saveCont(co, clofun89, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "saveCont(co, ", 13));
 return;
@@ -4132,16 +4177,16 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518965_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518965_037) {
-Obj g__03518966_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517797_037 = g__03518966_037;
-Obj g__03518967_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517798_037 = g__03518967_037;
-R[1] = g__03517797_037;
-R[2] = g__03517798_037;
+Obj g__03519004_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03519004_037) {
+Obj g__03519005_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517836_037 = g__03519005_037;
+Obj g__03519006_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517837_037 = g__03519006_037;
+R[1] = g__03517836_037;
+R[2] = g__03517837_037;
 saveCont(co, clofun88, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517798_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517837_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -4151,134 +4196,134 @@ return;
 }
 case 1:
 {
-Obj g__03518979_037= co->res;
+Obj g__03519018_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", __args);\n", 11));
 return;
 }
 case 2:
 {
-Obj g__03518978_037= co->res;
-Obj g__03517799_037 = R[1];
+Obj g__03519017_037= co->res;
+Obj g__03517838_037 = R[1];
 saveCont(co, clofun88, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517799_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517838_037);
 return;
 }
 case 3:
 {
-Obj g__03518977_037= co->res;
-Obj g__03517799_037 = R[1];
-R[1] = g__03517799_037;
+Obj g__03519016_037= co->res;
+Obj g__03517838_037 = R[1];
+R[1] = g__03517838_037;
 saveCont(co, clofun88, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
 }
 case 4:
 {
-Obj g__03518976_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-R[1] = g__03517799_037;
+Obj g__03519015_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+R[1] = g__03517838_037;
 saveCont(co, clofun88, 3, R);
-coraCall2(co, g__03518976_037, g__03517797_037, closureRef(R[0], 4));
+coraCall2(co, g__03519015_037, g__03517836_037, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj g__03518975_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
+Obj g__03519014_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
 saveCont(co, clofun88, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj g__03518974_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
+Obj g__03519013_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
 saveCont(co, clofun88, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "coraCall(co, ", 13));
 return;
 }
 case 7:
 {
-Obj g__03518973_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
+Obj g__03519012_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
 saveCont(co, clofun88, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "};\n", 3));
 return;
 }
 case 8:
 {
-Obj g__03518972_037= co->res;
-Obj g__03517798_037 = R[1];
-Obj g__03517797_037 = R[2];
-Obj g__03517799_037 = R[3];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
+Obj g__03519011_037= co->res;
+Obj g__03517837_037 = R[1];
+Obj g__03517836_037 = R[2];
+Obj g__03517838_037 = R[3];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
 saveCont(co, clofun88, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517798_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517837_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 9:
 {
-Obj g__03518971_037= co->res;
-Obj g__03517798_037 = R[1];
-Obj g__03517797_037 = R[2];
-Obj g__03517799_037 = R[3];
-R[1] = g__03517798_037;
-R[2] = g__03517797_037;
-R[3] = g__03517799_037;
+Obj g__03519010_037= co->res;
+Obj g__03517837_037 = R[1];
+Obj g__03517836_037 = R[2];
+Obj g__03517838_037 = R[3];
+R[1] = g__03517837_037;
+R[2] = g__03517836_037;
+R[3] = g__03517838_037;
 saveCont(co, clofun88, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "] = {", 5));
 return;
 }
 case 10:
 {
-Obj g__03518970_037= co->res;
-Obj g__03517798_037 = R[1];
-Obj g__03517797_037 = R[2];
-Obj g__03517799_037 = R[3];
-R[1] = g__03517798_037;
-R[2] = g__03517797_037;
-R[3] = g__03517799_037;
+Obj g__03519009_037= co->res;
+Obj g__03517837_037 = R[1];
+Obj g__03517836_037 = R[2];
+Obj g__03517838_037 = R[3];
+R[1] = g__03517837_037;
+R[2] = g__03517836_037;
+R[3] = g__03517838_037;
 saveCont(co, clofun88, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517799_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517838_037);
 return;
 }
 case 11:
 {
-Obj g__03518987_037= co->res;
+Obj g__03519026_037= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ");\n", 3));
 return;
 }
 case 12:
 {
-Obj g__03518986_037= co->res;
-Obj g__03517798_037 = R[1];
+Obj g__03519025_037= co->res;
+Obj g__03517837_037 = R[1];
 saveCont(co, clofun88, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517798_037};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), g__03517837_037};
 coraCall(co, globalRef(co, getBinding(co, packageID, 44)), 5, __args);
 return;
 }
 case 13:
 {
-Obj g__03518984_037= co->res;
-Obj g__03517799_037 = R[1];
-Obj g__03517798_037 = R[2];
-Obj g__03518985_037 = PRIM_GT(g__03517799_037, MAKE_NUMBER(0));
-if (True == g__03518985_037) {
-R[1] = g__03517798_037;
+Obj g__03519023_037= co->res;
+Obj g__03517838_037 = R[1];
+Obj g__03517837_037 = R[2];
+Obj g__03519024_037 = PRIM_GT(g__03517838_037, MAKE_NUMBER(0));
+if (True == g__03519024_037) {
+R[1] = g__03517837_037;
 saveCont(co, clofun88, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, ", ", 2));
 return;
@@ -4291,73 +4336,73 @@ return;
 }
 case 14:
 {
-Obj g__03518983_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-Obj g__03517798_037 = R[3];
-R[1] = g__03517799_037;
-R[2] = g__03517798_037;
+Obj g__03519022_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517837_037 = R[3];
+R[1] = g__03517838_037;
+R[2] = g__03517837_037;
 saveCont(co, clofun88, 13, R);
-coraCall2(co, g__03518983_037, g__03517797_037, closureRef(R[0], 4));
+coraCall2(co, g__03519022_037, g__03517836_037, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj g__03518982_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-Obj g__03517798_037 = R[3];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
-R[3] = g__03517798_037;
+Obj g__03519021_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517837_037 = R[3];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
+R[3] = g__03517837_037;
 saveCont(co, clofun88, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 53)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj g__03518981_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-Obj g__03517798_037 = R[3];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
-R[3] = g__03517798_037;
+Obj g__03519020_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517837_037 = R[3];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
+R[3] = g__03517837_037;
 saveCont(co, clofun88, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "(co, ", 5));
 return;
 }
 case 17:
 {
-Obj g__03518980_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517799_037 = R[2];
-Obj g__03517798_037 = R[3];
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
-R[3] = g__03517798_037;
+Obj g__03519019_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517838_037 = R[2];
+Obj g__03517837_037 = R[3];
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
+R[3] = g__03517837_037;
 saveCont(co, clofun88, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517799_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), g__03517838_037);
 return;
 }
 case 18:
 {
-Obj g__03518968_037= co->res;
-Obj g__03517797_037 = R[1];
-Obj g__03517798_037 = R[2];
-Obj g__03517799_037 = g__03518968_037;
-Obj g__03518969_037 = PRIM_GT(g__03517799_037, MAKE_NUMBER(4));
-if (True == g__03518969_037) {
-R[1] = g__03517798_037;
-R[2] = g__03517797_037;
-R[3] = g__03517799_037;
+Obj g__03519007_037= co->res;
+Obj g__03517836_037 = R[1];
+Obj g__03517837_037 = R[2];
+Obj g__03517838_037 = g__03519007_037;
+Obj g__03519008_037 = PRIM_GT(g__03517838_037, MAKE_NUMBER(4));
+if (True == g__03519008_037) {
+R[1] = g__03517837_037;
+R[2] = g__03517836_037;
+R[3] = g__03517838_037;
 saveCont(co, clofun88, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "Obj __args[", 11));
 return;
 } else {
-R[1] = g__03517797_037;
-R[2] = g__03517799_037;
-R[3] = g__03517798_037;
+R[1] = g__03517836_037;
+R[2] = g__03517838_037;
+R[3] = g__03517837_037;
 saveCont(co, clofun88, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 49)), closureRef(R[0], 5), makeString(co->gc, "coraCall", 8));
 return;
@@ -4396,15 +4441,15 @@ return;
 }
 case 1:
 {
-Obj g__03518960_037= co->res;
+Obj g__03518999_037= co->res;
 Obj v_acc = R[1];
-Obj g__03518961_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, g__03518961_037);
+Obj g__03519000_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03519000_037);
 return;
 }
 case 2:
 {
-Obj g__03518959_037= co->res;
+Obj g__03518998_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun86, 1, R);
@@ -4413,7 +4458,7 @@ return;
 }
 case 3:
 {
-Obj g__03518958_037= co->res;
+Obj g__03518997_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun86, 2, R);
@@ -4422,7 +4467,7 @@ return;
 }
 case 4:
 {
-Obj g__03518957_037= co->res;
+Obj g__03518996_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun86, 3, R);
@@ -4431,7 +4476,7 @@ return;
 }
 case 5:
 {
-Obj g__03518956_037= co->res;
+Obj g__03518995_037= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4473,15 +4518,15 @@ return;
 }
 case 1:
 {
-Obj g__03518953_037= co->res;
+Obj g__03518992_037= co->res;
 Obj v_acc = R[1];
-Obj g__03518954_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, g__03518954_037);
+Obj g__03518993_037 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, g__03518993_037);
 return;
 }
 case 2:
 {
-Obj g__03518952_037= co->res;
+Obj g__03518991_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun84, 1, R);
@@ -4490,7 +4535,7 @@ return;
 }
 case 3:
 {
-Obj g__03518951_037= co->res;
+Obj g__03518990_037= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4501,7 +4546,7 @@ return;
 }
 case 4:
 {
-Obj g__03518950_037= co->res;
+Obj g__03518989_037= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4512,7 +4557,7 @@ return;
 }
 case 5:
 {
-Obj g__03518949_037= co->res;
+Obj g__03518988_037= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4553,24 +4598,24 @@ return;
 }
 case 1:
 {
-Obj g__03518942_037= co->res;
+Obj g__03518981_037= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == g__03518942_037) {
+if (True == g__03518981_037) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj g__03518943_037 = PRIM_CAR(v_globals);
-Obj g__03518944_037 = PRIM_EQ(v_sym, g__03518943_037);
-if (True == g__03518944_037) {
+Obj g__03518982_037 = PRIM_CAR(v_globals);
+Obj g__03518983_037 = PRIM_EQ(v_sym, g__03518982_037);
+if (True == g__03518983_037) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj g__03518945_037 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj g__03518946_037 = PRIM_CDR(v_globals);
+Obj g__03518984_037 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj g__03518985_037 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), g__03518945_037, v_sym, g__03518946_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 52)), g__03518984_037, v_sym, g__03518985_037);
 return;
 }
 }
@@ -4592,31 +4637,31 @@ return;
 }
 case 1:
 {
-Obj g__03518938_037= co->res;
+Obj g__03518977_037= co->res;
 Obj v_sym = R[1];
-Obj g__03517784_037 = R[2];
+Obj g__03517823_037 = R[2];
 Obj v_globals = R[3];
-if (True == g__03518938_037) {
+if (True == g__03518977_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03518939_037 = makeCons(co->gc, v_sym, g__03517784_037);
-Obj g__03518940_037 = primSet(co, v_globals, g__03518939_037);
-coraReturn(co, g__03518940_037);
+Obj g__03518978_037 = makeCons(co->gc, v_sym, g__03517823_037);
+Obj g__03518979_037 = primSet(co, v_globals, g__03518978_037);
+coraReturn(co, g__03518979_037);
 return;
 }
 }
 case 2:
 {
-Obj g__03518937_037= co->res;
+Obj g__03518976_037= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj g__03517784_037 = g__03518937_037;
+Obj g__03517823_037 = g__03518976_037;
 R[1] = v_sym;
-R[2] = g__03517784_037;
+R[2] = g__03517823_037;
 R[3] = v_globals;
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_sym, g__03517784_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v_sym, g__03517823_037);
 return;
 }
 }
@@ -4628,24 +4673,24 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj g__03518930_037 = primGenSym(co);
-Obj g__03517783_037 = g__03518930_037;
+Obj g__03518969_037 = primGenSym(co);
+Obj g__03517822_037 = g__03518969_037;
 R[1] = v_x;
-R[2] = g__03517783_037;
+R[2] = g__03517822_037;
 saveCont(co, clofun80, 1, R);
-coraCall1(co, v_k, g__03517783_037);
+coraCall1(co, v_k, g__03517822_037);
 return;
 }
 case 1:
 {
-Obj g__03518931_037= co->res;
+Obj g__03518970_037= co->res;
 Obj v_x = R[1];
-Obj g__03517783_037 = R[2];
-Obj g__03518932_037 = makeCons(co->gc, g__03518931_037, Nil);
-Obj g__03518933_037 = makeCons(co->gc, v_x, g__03518932_037);
-Obj g__03518934_037 = makeCons(co->gc, g__03517783_037, g__03518933_037);
-Obj g__03518935_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518934_037);
-coraReturn(co, g__03518935_037);
+Obj g__03517822_037 = R[2];
+Obj g__03518971_037 = makeCons(co->gc, g__03518970_037, Nil);
+Obj g__03518972_037 = makeCons(co->gc, v_x, g__03518971_037);
+Obj g__03518973_037 = makeCons(co->gc, g__03517822_037, g__03518972_037);
+Obj g__03518974_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518973_037);
+coraReturn(co, g__03518974_037);
 return;
 }
 }
@@ -4665,39 +4710,39 @@ return;
 }
 case 1:
 {
-Obj g__03518928_037= co->res;
+Obj g__03518967_037= co->res;
 Obj v_v = R[1];
-Obj g__03517782_037 = R[2];
+Obj g__03517821_037 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), g__03517782_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(1), g__03517821_037);
 return;
 }
 case 2:
 {
-Obj g__03518923_037= co->res;
+Obj g__03518962_037= co->res;
 Obj v_val = R[1];
-Obj g__03517780_037 = R[2];
+Obj g__03517819_037 = R[2];
 Obj v_v = R[3];
-Obj g__03517781_037 = g__03518923_037;
-Obj g__03518924_037 = makeCons(co->gc, v_val, Nil);
-Obj g__03518925_037 = makeCons(co->gc, g__03517780_037, g__03518924_037);
-Obj g__03518926_037 = makeCons(co->gc, g__03518925_037, g__03517781_037);
-Obj g__03517782_037 = g__03518926_037;
-Obj g__03518927_037 = PRIM_ADD(g__03517780_037, MAKE_NUMBER(1));
+Obj g__03517820_037 = g__03518962_037;
+Obj g__03518963_037 = makeCons(co->gc, v_val, Nil);
+Obj g__03518964_037 = makeCons(co->gc, g__03517819_037, g__03518963_037);
+Obj g__03518965_037 = makeCons(co->gc, g__03518964_037, g__03517820_037);
+Obj g__03517821_037 = g__03518965_037;
+Obj g__03518966_037 = PRIM_ADD(g__03517819_037, MAKE_NUMBER(1));
 R[1] = v_v;
-R[2] = g__03517782_037;
+R[2] = g__03517821_037;
 saveCont(co, clofun79, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), g__03518927_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 54)), v_v, MAKE_NUMBER(0), g__03518966_037);
 return;
 }
 case 3:
 {
-Obj g__03518922_037= co->res;
+Obj g__03518961_037= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj g__03517780_037 = g__03518922_037;
+Obj g__03517819_037 = g__03518961_037;
 R[1] = v_val;
-R[2] = g__03517780_037;
+R[2] = g__03517819_037;
 R[3] = v_v;
 saveCont(co, clofun79, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_v, MAKE_NUMBER(1));
@@ -4710,195 +4755,195 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517549_037 = R[1];
-Obj g__03517550_037 = R[2];
-Obj g__03517772_037 = makeNative(co->gc, 1, clofun77, 0, 2, g__03517549_037, g__03517550_037);
-Obj g__03518873_037 = PRIM_ISCONS(g__03517550_037);
-if (True == g__03518873_037) {
-Obj g__03518874_037 = PRIM_CAR(g__03517550_037);
-Obj g__03518875_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518874_037);
-if (True == g__03518875_037) {
-Obj g__03518876_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518877_037 = PRIM_ISCONS(g__03518876_037);
-if (True == g__03518877_037) {
-Obj g__03518878_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518879_037 = PRIM_CAR(g__03518878_037);
-Obj g__03518880_037 = PRIM_ISCONS(g__03518879_037);
-if (True == g__03518880_037) {
-Obj g__03518881_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518882_037 = PRIM_CAR(g__03518881_037);
-Obj g__03518883_037 = PRIM_CAR(g__03518882_037);
-Obj g__03518884_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518883_037);
-if (True == g__03518884_037) {
-Obj g__03518885_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518886_037 = PRIM_CAR(g__03518885_037);
-Obj g__03518887_037 = PRIM_CDR(g__03518886_037);
-Obj g__03518888_037 = PRIM_ISCONS(g__03518887_037);
-if (True == g__03518888_037) {
-Obj g__03518889_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518890_037 = PRIM_CAR(g__03518889_037);
-Obj g__03518891_037 = PRIM_CDR(g__03518890_037);
-Obj g__03518892_037 = PRIM_CAR(g__03518891_037);
-Obj g__03517773_037 = g__03518892_037;
-Obj g__03518893_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518894_037 = PRIM_CAR(g__03518893_037);
-Obj g__03518895_037 = PRIM_CDR(g__03518894_037);
-Obj g__03518896_037 = PRIM_CDR(g__03518895_037);
-Obj g__03518897_037 = PRIM_ISCONS(g__03518896_037);
-if (True == g__03518897_037) {
-Obj g__03518898_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518899_037 = PRIM_CAR(g__03518898_037);
-Obj g__03518900_037 = PRIM_CDR(g__03518899_037);
-Obj g__03518901_037 = PRIM_CDR(g__03518900_037);
-Obj g__03518902_037 = PRIM_CAR(g__03518901_037);
-Obj g__03517774_037 = g__03518902_037;
-Obj g__03518903_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518904_037 = PRIM_CAR(g__03518903_037);
-Obj g__03518905_037 = PRIM_CDR(g__03518904_037);
-Obj g__03518906_037 = PRIM_CDR(g__03518905_037);
-Obj g__03518907_037 = PRIM_CDR(g__03518906_037);
-Obj g__03518908_037 = PRIM_EQ(Nil, g__03518907_037);
-if (True == g__03518908_037) {
-Obj g__03518909_037 = PRIM_CDR(g__03517550_037);
-Obj g__03518910_037 = PRIM_CDR(g__03518909_037);
-Obj g__03517775_037 = g__03518910_037;
-R[1] = g__03517549_037;
-R[2] = g__03517773_037;
-R[3] = g__03517775_037;
+Obj g__03517588_037 = R[1];
+Obj g__03517589_037 = R[2];
+Obj g__03517811_037 = makeNative(co->gc, 1, clofun77, 0, 2, g__03517588_037, g__03517589_037);
+Obj g__03518912_037 = PRIM_ISCONS(g__03517589_037);
+if (True == g__03518912_037) {
+Obj g__03518913_037 = PRIM_CAR(g__03517589_037);
+Obj g__03518914_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518913_037);
+if (True == g__03518914_037) {
+Obj g__03518915_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518916_037 = PRIM_ISCONS(g__03518915_037);
+if (True == g__03518916_037) {
+Obj g__03518917_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518918_037 = PRIM_CAR(g__03518917_037);
+Obj g__03518919_037 = PRIM_ISCONS(g__03518918_037);
+if (True == g__03518919_037) {
+Obj g__03518920_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518921_037 = PRIM_CAR(g__03518920_037);
+Obj g__03518922_037 = PRIM_CAR(g__03518921_037);
+Obj g__03518923_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518922_037);
+if (True == g__03518923_037) {
+Obj g__03518924_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518925_037 = PRIM_CAR(g__03518924_037);
+Obj g__03518926_037 = PRIM_CDR(g__03518925_037);
+Obj g__03518927_037 = PRIM_ISCONS(g__03518926_037);
+if (True == g__03518927_037) {
+Obj g__03518928_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518929_037 = PRIM_CAR(g__03518928_037);
+Obj g__03518930_037 = PRIM_CDR(g__03518929_037);
+Obj g__03518931_037 = PRIM_CAR(g__03518930_037);
+Obj g__03517812_037 = g__03518931_037;
+Obj g__03518932_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518933_037 = PRIM_CAR(g__03518932_037);
+Obj g__03518934_037 = PRIM_CDR(g__03518933_037);
+Obj g__03518935_037 = PRIM_CDR(g__03518934_037);
+Obj g__03518936_037 = PRIM_ISCONS(g__03518935_037);
+if (True == g__03518936_037) {
+Obj g__03518937_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518938_037 = PRIM_CAR(g__03518937_037);
+Obj g__03518939_037 = PRIM_CDR(g__03518938_037);
+Obj g__03518940_037 = PRIM_CDR(g__03518939_037);
+Obj g__03518941_037 = PRIM_CAR(g__03518940_037);
+Obj g__03517813_037 = g__03518941_037;
+Obj g__03518942_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518943_037 = PRIM_CAR(g__03518942_037);
+Obj g__03518944_037 = PRIM_CDR(g__03518943_037);
+Obj g__03518945_037 = PRIM_CDR(g__03518944_037);
+Obj g__03518946_037 = PRIM_CDR(g__03518945_037);
+Obj g__03518947_037 = PRIM_EQ(Nil, g__03518946_037);
+if (True == g__03518947_037) {
+Obj g__03518948_037 = PRIM_CDR(g__03517589_037);
+Obj g__03518949_037 = PRIM_CDR(g__03518948_037);
+Obj g__03517814_037 = g__03518949_037;
+R[1] = g__03517588_037;
+R[2] = g__03517812_037;
+R[3] = g__03517814_037;
 saveCont(co, clofun78, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), g__03517549_037, g__03517774_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 57)), g__03517588_037, g__03517813_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517772_037);
+coraCall0(co, g__03517811_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518916_037= co->res;
-Obj g__03517779_037 = R[1];
-Obj g__03517775_037 = R[2];
-Obj g__03517777_037 = R[3];
-Obj g__03518917_037 = makeCons(co->gc, g__03517779_037, g__03517775_037);
-Obj g__03518918_037 = makeCons(co->gc, g__03518916_037, g__03518917_037);
-Obj g__03518919_037 = makeCons(co->gc, g__03517777_037, g__03518918_037);
-Obj g__03518920_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518919_037);
-coraReturn(co, g__03518920_037);
+Obj g__03518955_037= co->res;
+Obj g__03517818_037 = R[1];
+Obj g__03517814_037 = R[2];
+Obj g__03517816_037 = R[3];
+Obj g__03518956_037 = makeCons(co->gc, g__03517818_037, g__03517814_037);
+Obj g__03518957_037 = makeCons(co->gc, g__03518955_037, g__03518956_037);
+Obj g__03518958_037 = makeCons(co->gc, g__03517816_037, g__03518957_037);
+Obj g__03518959_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518958_037);
+coraReturn(co, g__03518959_037);
 return;
 }
 case 2:
 {
-Obj g__03518915_037= co->res;
-Obj g__03517773_037 = R[1];
-Obj g__03517779_037 = R[2];
-Obj g__03517775_037 = R[3];
-Obj g__03517777_037 = R[4];
-R[1] = g__03517779_037;
-R[2] = g__03517775_037;
-R[3] = g__03517777_037;
+Obj g__03518954_037= co->res;
+Obj g__03517812_037 = R[1];
+Obj g__03517818_037 = R[2];
+Obj g__03517814_037 = R[3];
+Obj g__03517816_037 = R[4];
+R[1] = g__03517818_037;
+R[2] = g__03517814_037;
+R[3] = g__03517816_037;
 saveCont(co, clofun78, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517773_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03517812_037);
 return;
 }
 case 3:
 {
-Obj g__03518914_037= co->res;
-Obj g__03517549_037 = R[1];
-Obj g__03517778_037 = R[2];
-Obj g__03517773_037 = R[3];
-Obj g__03517775_037 = R[4];
-Obj g__03517777_037 = R[5];
-Obj g__03517779_037 = g__03518914_037;
-R[1] = g__03517773_037;
-R[2] = g__03517779_037;
-R[3] = g__03517775_037;
-R[4] = g__03517777_037;
+Obj g__03518953_037= co->res;
+Obj g__03517588_037 = R[1];
+Obj g__03517817_037 = R[2];
+Obj g__03517812_037 = R[3];
+Obj g__03517814_037 = R[4];
+Obj g__03517816_037 = R[5];
+Obj g__03517818_037 = g__03518953_037;
+R[1] = g__03517812_037;
+R[2] = g__03517818_037;
+R[3] = g__03517814_037;
+R[4] = g__03517816_037;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), g__03517549_037, g__03517778_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), g__03517588_037, g__03517817_037);
 return;
 }
 case 4:
 {
-Obj g__03518913_037= co->res;
-Obj g__03517549_037 = R[1];
-Obj g__03517773_037 = R[2];
-Obj g__03517775_037 = R[3];
-Obj g__03517777_037 = R[4];
-Obj g__03517778_037 = g__03518913_037;
-R[1] = g__03517549_037;
-R[2] = g__03517778_037;
-R[3] = g__03517773_037;
-R[4] = g__03517775_037;
-R[5] = g__03517777_037;
+Obj g__03518952_037= co->res;
+Obj g__03517588_037 = R[1];
+Obj g__03517812_037 = R[2];
+Obj g__03517814_037 = R[3];
+Obj g__03517816_037 = R[4];
+Obj g__03517817_037 = g__03518952_037;
+R[1] = g__03517588_037;
+R[2] = g__03517817_037;
+R[3] = g__03517812_037;
+R[4] = g__03517814_037;
+R[5] = g__03517816_037;
 saveCont(co, clofun78, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), g__03517778_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 58)), g__03517817_037);
 return;
 }
 case 5:
 {
-Obj g__03518912_037= co->res;
-Obj g__03517776_037 = R[1];
-Obj g__03517549_037 = R[2];
-Obj g__03517773_037 = R[3];
-Obj g__03517775_037 = R[4];
-Obj g__03517777_037 = g__03518912_037;
-R[1] = g__03517549_037;
-R[2] = g__03517773_037;
-R[3] = g__03517775_037;
-R[4] = g__03517777_037;
+Obj g__03518951_037= co->res;
+Obj g__03517815_037 = R[1];
+Obj g__03517588_037 = R[2];
+Obj g__03517812_037 = R[3];
+Obj g__03517814_037 = R[4];
+Obj g__03517816_037 = g__03518951_037;
+R[1] = g__03517588_037;
+R[2] = g__03517812_037;
+R[3] = g__03517814_037;
+R[4] = g__03517816_037;
 saveCont(co, clofun78, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), g__03517773_037, g__03517776_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 59)), g__03517812_037, g__03517815_037);
 return;
 }
 case 6:
 {
-Obj g__03518911_037= co->res;
-Obj g__03517549_037 = R[1];
-Obj g__03517773_037 = R[2];
-Obj g__03517775_037 = R[3];
-Obj g__03517776_037 = g__03518911_037;
-R[1] = g__03517776_037;
-R[2] = g__03517549_037;
-R[3] = g__03517773_037;
-R[4] = g__03517775_037;
+Obj g__03518950_037= co->res;
+Obj g__03517588_037 = R[1];
+Obj g__03517812_037 = R[2];
+Obj g__03517814_037 = R[3];
+Obj g__03517815_037 = g__03518950_037;
+R[1] = g__03517815_037;
+R[2] = g__03517588_037;
+R[3] = g__03517812_037;
+R[4] = g__03517814_037;
 saveCont(co, clofun78, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), g__03517549_037, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), g__03517588_037, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4908,8 +4953,8 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518871_037 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == g__03518871_037) {
+Obj g__03518910_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03518910_037) {
 saveCont(co, clofun77, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), closureRef(R[0], 0));
 return;
@@ -4920,9 +4965,9 @@ return;
 }
 case 1:
 {
-Obj g__03518872_037= co->res;
+Obj g__03518911_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518872_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518911_037, closureRef(R[0], 1));
 return;
 }
 }
@@ -4940,30 +4985,30 @@ return;
 }
 case 1:
 {
-Obj g__03518869_037= co->res;
-Obj g__03518868_037 = R[1];
+Obj g__03518908_037= co->res;
+Obj g__03518907_037 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun75, 2, 0), g__03518868_037, g__03518869_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun75, 2, 0), g__03518907_037, g__03518908_037);
 return;
 }
 case 2:
 {
-Obj g__03518863_037= co->res;
+Obj g__03518902_037= co->res;
 Obj v_lam = R[1];
-Obj g__03517770_037 = g__03518863_037;
-Obj g__03518868_037 = PRIM_ADD(g__03517770_037, MAKE_NUMBER(1));
-R[1] = g__03518868_037;
+Obj g__03517809_037 = g__03518902_037;
+Obj g__03518907_037 = PRIM_ADD(g__03517809_037, MAKE_NUMBER(1));
+R[1] = g__03518907_037;
 saveCont(co, clofun76, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 60)), v_lam);
 return;
 }
 case 3:
 {
-Obj g__03518862_037= co->res;
+Obj g__03518901_037= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
 saveCont(co, clofun76, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03518862_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03518901_037);
 return;
 }
 }
@@ -4982,13 +5027,13 @@ return;
 }
 case 1:
 {
-Obj g__03518865_037= co->res;
+Obj g__03518904_037= co->res;
 Obj v_acc = R[1];
-Obj g__03518866_037 = PRIM_ADD(g__03518865_037, MAKE_NUMBER(1));
-Obj g__03517771_037 = g__03518866_037;
-Obj g__03518867_037 = PRIM_GT(g__03517771_037, v_acc);
-if (True == g__03518867_037) {
-coraReturn(co, g__03517771_037);
+Obj g__03518905_037 = PRIM_ADD(g__03518904_037, MAKE_NUMBER(1));
+Obj g__03517810_037 = g__03518905_037;
+Obj g__03518906_037 = PRIM_GT(g__03517810_037, v_acc);
+if (True == g__03518906_037) {
+coraReturn(co, g__03517810_037);
 return;
 } else {
 coraReturn(co, v_acc);
@@ -4997,11 +5042,11 @@ return;
 }
 case 2:
 {
-Obj g__03518864_037= co->res;
+Obj g__03518903_037= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03518864_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), g__03518903_037);
 return;
 }
 }
@@ -5033,12 +5078,12 @@ return;
 }
 case 1:
 {
-Obj g__03518857_037= co->res;
+Obj g__03518896_037= co->res;
 Obj v_body1 = R[1];
-Obj g__03518858_037 = makeCons(co->gc, v_body1, g__03518857_037);
-Obj g__03518859_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518858_037);
-Obj g__03518860_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518859_037);
-coraReturn(co, g__03518860_037);
+Obj g__03518897_037 = makeCons(co->gc, v_body1, g__03518896_037);
+Obj g__03518898_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518897_037);
+Obj g__03518899_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518898_037);
+coraReturn(co, g__03518899_037);
 return;
 }
 }
@@ -5048,24 +5093,24 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517543_037 = R[1];
-Obj g__03517544_037 = R[2];
-Obj g__03517545_037 = R[3];
-Obj g__03517546_037 = R[4];
-Obj g__03518851_037 = PRIM_EQ(Nil, g__03517543_037);
-if (True == g__03518851_037) {
+Obj g__03517582_037 = R[1];
+Obj g__03517583_037 = R[2];
+Obj g__03517584_037 = R[3];
+Obj g__03517585_037 = R[4];
+Obj g__03518890_037 = PRIM_EQ(Nil, g__03517582_037);
+if (True == g__03518890_037) {
 co->ctx.sp = R;
-coraCall2(co, g__03517546_037, g__03517545_037, g__03517544_037);
+coraCall2(co, g__03517585_037, g__03517584_037, g__03517583_037);
 return;
 } else {
-Obj g__03518852_037 = PRIM_ISCONS(g__03517543_037);
-if (True == g__03518852_037) {
-Obj g__03518853_037 = PRIM_CAR(g__03517543_037);
-Obj g__03517768_037 = g__03518853_037;
-Obj g__03518854_037 = PRIM_CDR(g__03517543_037);
-Obj g__03517769_037 = g__03518854_037;
+Obj g__03518891_037 = PRIM_ISCONS(g__03517582_037);
+if (True == g__03518891_037) {
+Obj g__03518892_037 = PRIM_CAR(g__03517582_037);
+Obj g__03517807_037 = g__03518892_037;
+Obj g__03518893_037 = PRIM_CDR(g__03517582_037);
+Obj g__03517808_037 = g__03518893_037;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), g__03517768_037, g__03517544_037, makeNative(co->gc, 3, clofun71, 2, 3, g__03517769_037, g__03517545_037, g__03517546_037));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), g__03517807_037, g__03517583_037, makeNative(co->gc, 3, clofun71, 2, 3, g__03517808_037, g__03517584_037, g__03517585_037));
 return;
 } else {
 co->ctx.sp = R;
@@ -5096,9 +5141,9 @@ case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj g__03518855_037 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj g__03518894_037 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), g__03518855_037, v_conts2);
+coraCall2(co, closureRef(R[0], 0), g__03518894_037, v_conts2);
 return;
 }
 }
@@ -5108,33 +5153,33 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517537_037 = R[1];
-Obj g__03517538_037 = R[2];
-Obj g__03517539_037 = R[3];
-Obj g__03517761_037 = makeNative(co->gc, 2, clofun68, 1, 3, g__03517537_037, g__03517538_037, g__03517539_037);
-Obj g__03518848_037 = primIsSymbol(g__03517537_037);
-if (True == g__03518848_037) {
+Obj g__03517576_037 = R[1];
+Obj g__03517577_037 = R[2];
+Obj g__03517578_037 = R[3];
+Obj g__03517800_037 = makeNative(co->gc, 2, clofun68, 1, 3, g__03517576_037, g__03517577_037, g__03517578_037);
+Obj g__03518887_037 = primIsSymbol(g__03517576_037);
+if (True == g__03518887_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517761_037, True);
+coraCall1(co, g__03517800_037, True);
 return;
 } else {
-R[1] = g__03517761_037;
+R[1] = g__03517800_037;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517537_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517576_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518849_037= co->res;
-Obj g__03517761_037 = R[1];
-if (True == g__03518849_037) {
+Obj g__03518888_037= co->res;
+Obj g__03517800_037 = R[1];
+if (True == g__03518888_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517761_037, True);
+coraCall1(co, g__03517800_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517761_037, False);
+coraCall1(co, g__03517800_037, False);
 return;
 }
 }
@@ -5145,63 +5190,63 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517760_037 = R[1];
-if (True == g__03517760_037) {
+Obj g__03517799_037 = R[1];
+if (True == g__03517799_037) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj g__03517762_037 = makeNative(co->gc, 1, clofun66, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518824_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518824_037) {
-Obj g__03518825_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518826_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518825_037);
-if (True == g__03518826_037) {
-Obj g__03518827_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518828_037 = PRIM_ISCONS(g__03518827_037);
-if (True == g__03518828_037) {
-Obj g__03518829_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518830_037 = PRIM_CAR(g__03518829_037);
-Obj g__03517765_037 = g__03518830_037;
-Obj g__03518831_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518832_037 = PRIM_CDR(g__03518831_037);
-Obj g__03518833_037 = PRIM_ISCONS(g__03518832_037);
-if (True == g__03518833_037) {
-Obj g__03518834_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518835_037 = PRIM_CDR(g__03518834_037);
-Obj g__03518836_037 = PRIM_CAR(g__03518835_037);
-Obj g__03517766_037 = g__03518836_037;
-Obj g__03518837_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518838_037 = PRIM_CDR(g__03518837_037);
-Obj g__03518839_037 = PRIM_CDR(g__03518838_037);
-Obj g__03518840_037 = PRIM_EQ(Nil, g__03518839_037);
-if (True == g__03518840_037) {
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), g__03517766_037, closureRef(R[0], 1), makeNative(co->gc, 4, clofun67, 2, 2, closureRef(R[0], 2), g__03517765_037));
+Obj g__03517801_037 = makeNative(co->gc, 1, clofun66, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518863_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518863_037) {
+Obj g__03518864_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518865_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518864_037);
+if (True == g__03518865_037) {
+Obj g__03518866_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518867_037 = PRIM_ISCONS(g__03518866_037);
+if (True == g__03518867_037) {
+Obj g__03518868_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518869_037 = PRIM_CAR(g__03518868_037);
+Obj g__03517804_037 = g__03518869_037;
+Obj g__03518870_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518871_037 = PRIM_CDR(g__03518870_037);
+Obj g__03518872_037 = PRIM_ISCONS(g__03518871_037);
+if (True == g__03518872_037) {
+Obj g__03518873_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518874_037 = PRIM_CDR(g__03518873_037);
+Obj g__03518875_037 = PRIM_CAR(g__03518874_037);
+Obj g__03517805_037 = g__03518875_037;
+Obj g__03518876_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518877_037 = PRIM_CDR(g__03518876_037);
+Obj g__03518878_037 = PRIM_CDR(g__03518877_037);
+Obj g__03518879_037 = PRIM_EQ(Nil, g__03518878_037);
+if (True == g__03518879_037) {
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 62)), g__03517805_037, closureRef(R[0], 1), makeNative(co->gc, 4, clofun67, 2, 2, closureRef(R[0], 2), g__03517804_037));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517762_037);
+coraCall0(co, g__03517801_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517762_037);
+coraCall0(co, g__03517801_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517762_037);
+coraCall0(co, g__03517801_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517762_037);
+coraCall0(co, g__03517801_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517762_037);
+coraCall0(co, g__03517801_037);
 return;
 }
 }
@@ -5223,26 +5268,26 @@ return;
 }
 case 1:
 {
-Obj g__03518842_037= co->res;
-Obj g__03517767_037 = R[1];
+Obj g__03518881_037= co->res;
+Obj g__03517806_037 = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj g__03518843_037 = PRIM_ADD(g__03518842_037, MAKE_NUMBER(1));
-Obj g__03518844_037 = makeCons(co->gc, g__03518843_037, g__03517767_037);
-Obj g__03518845_037 = makeCons(co->gc, closureRef(R[0], 1), g__03518844_037);
-Obj g__03518846_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518845_037);
-Obj g__03518847_037 = makeCons(co->gc, v_cont1, v_conts1);
+Obj g__03518882_037 = PRIM_ADD(g__03518881_037, MAKE_NUMBER(1));
+Obj g__03518883_037 = makeCons(co->gc, g__03518882_037, g__03517806_037);
+Obj g__03518884_037 = makeCons(co->gc, closureRef(R[0], 1), g__03518883_037);
+Obj g__03518885_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518884_037);
+Obj g__03518886_037 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), g__03518846_037, g__03518847_037);
+coraCall2(co, closureRef(R[0], 0), g__03518885_037, g__03518886_037);
 return;
 }
 case 2:
 {
-Obj g__03518841_037= co->res;
+Obj g__03518880_037= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj g__03517767_037 = g__03518841_037;
-R[1] = g__03517767_037;
+Obj g__03517806_037 = g__03518880_037;
+R[1] = g__03517806_037;
 R[2] = v_cont1;
 R[3] = v_conts1;
 saveCont(co, clofun67, 1, R);
@@ -5256,15 +5301,15 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518820_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518820_037) {
-Obj g__03518821_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517763_037 = g__03518821_037;
-Obj g__03518822_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517764_037 = g__03518822_037;
-Obj g__03518823_037 = makeCons(co->gc, g__03517763_037, g__03517764_037);
+Obj g__03518859_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518859_037) {
+Obj g__03518860_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517802_037 = g__03518860_037;
+Obj g__03518861_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517803_037 = g__03518861_037;
+Obj g__03518862_037 = makeCons(co->gc, g__03517802_037, g__03517803_037);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), g__03518823_037, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 61)), g__03518862_037, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5279,90 +5324,90 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517529_037 = R[1];
-Obj g__03517530_037 = R[2];
-R[1] = g__03517530_037;
-R[2] = g__03517529_037;
+Obj g__03517568_037 = R[1];
+Obj g__03517569_037 = R[2];
+R[1] = g__03517569_037;
+R[2] = g__03517568_037;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517530_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517569_037);
 return;
 }
 case 1:
 {
-Obj g__03518815_037= co->res;
-Obj g__03517757_037 = R[1];
-Obj g__03518816_037 = makeCons(co->gc, g__03518815_037, Nil);
-Obj g__03518817_037 = makeCons(co->gc, g__03517757_037, g__03518816_037);
-Obj g__03518818_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518817_037);
-coraReturn(co, g__03518818_037);
+Obj g__03518854_037= co->res;
+Obj g__03517796_037 = R[1];
+Obj g__03518855_037 = makeCons(co->gc, g__03518854_037, Nil);
+Obj g__03518856_037 = makeCons(co->gc, g__03517796_037, g__03518855_037);
+Obj g__03518857_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518856_037);
+coraReturn(co, g__03518857_037);
 return;
 }
 case 2:
 {
-Obj g__03518743_037= co->res;
-Obj g__03517530_037 = R[1];
-Obj g__03517529_037 = R[2];
-if (True == g__03518743_037) {
-coraReturn(co, g__03517530_037);
-return;
-} else {
-Obj g__03518744_037 = primIsSymbol(g__03517530_037);
-if (True == g__03518744_037) {
-coraReturn(co, g__03517530_037);
-return;
-} else {
-Obj g__03517746_037 = makeNative(co->gc, 4, clofun64, 0, 2, g__03517530_037, g__03517529_037);
-Obj g__03518798_037 = PRIM_ISCONS(g__03517530_037);
-if (True == g__03518798_037) {
-Obj g__03518799_037 = PRIM_CAR(g__03517530_037);
-Obj g__03518800_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518799_037);
-if (True == g__03518800_037) {
-Obj g__03518801_037 = PRIM_CDR(g__03517530_037);
-Obj g__03518802_037 = PRIM_ISCONS(g__03518801_037);
-if (True == g__03518802_037) {
-Obj g__03518803_037 = PRIM_CDR(g__03517530_037);
-Obj g__03518804_037 = PRIM_CAR(g__03518803_037);
-Obj g__03517757_037 = g__03518804_037;
-Obj g__03518805_037 = PRIM_CDR(g__03517530_037);
-Obj g__03518806_037 = PRIM_CDR(g__03518805_037);
-Obj g__03518807_037 = PRIM_ISCONS(g__03518806_037);
-if (True == g__03518807_037) {
-Obj g__03518808_037 = PRIM_CDR(g__03517530_037);
-Obj g__03518809_037 = PRIM_CDR(g__03518808_037);
-Obj g__03518810_037 = PRIM_CAR(g__03518809_037);
-Obj g__03517758_037 = g__03518810_037;
-Obj g__03518811_037 = PRIM_CDR(g__03517530_037);
-Obj g__03518812_037 = PRIM_CDR(g__03518811_037);
-Obj g__03518813_037 = PRIM_CDR(g__03518812_037);
-Obj g__03518814_037 = PRIM_EQ(Nil, g__03518813_037);
-if (True == g__03518814_037) {
-R[1] = g__03517757_037;
+Obj g__03518782_037= co->res;
+Obj g__03517569_037 = R[1];
+Obj g__03517568_037 = R[2];
+if (True == g__03518782_037) {
+coraReturn(co, g__03517569_037);
+return;
+} else {
+Obj g__03518783_037 = primIsSymbol(g__03517569_037);
+if (True == g__03518783_037) {
+coraReturn(co, g__03517569_037);
+return;
+} else {
+Obj g__03517785_037 = makeNative(co->gc, 4, clofun64, 0, 2, g__03517569_037, g__03517568_037);
+Obj g__03518837_037 = PRIM_ISCONS(g__03517569_037);
+if (True == g__03518837_037) {
+Obj g__03518838_037 = PRIM_CAR(g__03517569_037);
+Obj g__03518839_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518838_037);
+if (True == g__03518839_037) {
+Obj g__03518840_037 = PRIM_CDR(g__03517569_037);
+Obj g__03518841_037 = PRIM_ISCONS(g__03518840_037);
+if (True == g__03518841_037) {
+Obj g__03518842_037 = PRIM_CDR(g__03517569_037);
+Obj g__03518843_037 = PRIM_CAR(g__03518842_037);
+Obj g__03517796_037 = g__03518843_037;
+Obj g__03518844_037 = PRIM_CDR(g__03517569_037);
+Obj g__03518845_037 = PRIM_CDR(g__03518844_037);
+Obj g__03518846_037 = PRIM_ISCONS(g__03518845_037);
+if (True == g__03518846_037) {
+Obj g__03518847_037 = PRIM_CDR(g__03517569_037);
+Obj g__03518848_037 = PRIM_CDR(g__03518847_037);
+Obj g__03518849_037 = PRIM_CAR(g__03518848_037);
+Obj g__03517797_037 = g__03518849_037;
+Obj g__03518850_037 = PRIM_CDR(g__03517569_037);
+Obj g__03518851_037 = PRIM_CDR(g__03518850_037);
+Obj g__03518852_037 = PRIM_CDR(g__03518851_037);
+Obj g__03518853_037 = PRIM_EQ(Nil, g__03518852_037);
+if (True == g__03518853_037) {
+R[1] = g__03517796_037;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), g__03517529_037, g__03517758_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), g__03517568_037, g__03517797_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517746_037);
+coraCall0(co, g__03517785_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517746_037);
+coraCall0(co, g__03517785_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517746_037);
+coraCall0(co, g__03517785_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517746_037);
+coraCall0(co, g__03517785_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517746_037);
+coraCall0(co, g__03517785_037);
 return;
 }
 }
@@ -5375,121 +5420,121 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517747_037 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518773_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518773_037) {
-Obj g__03518774_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518775_037 = PRIM_EQ(getBinding(co, packageID, 76).name, g__03518774_037);
-if (True == g__03518775_037) {
-Obj g__03518776_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518777_037 = PRIM_ISCONS(g__03518776_037);
-if (True == g__03518777_037) {
-Obj g__03518778_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518779_037 = PRIM_CAR(g__03518778_037);
-Obj g__03517753_037 = g__03518779_037;
-Obj g__03518780_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518781_037 = PRIM_CDR(g__03518780_037);
-Obj g__03518782_037 = PRIM_ISCONS(g__03518781_037);
-if (True == g__03518782_037) {
-Obj g__03518783_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518784_037 = PRIM_CDR(g__03518783_037);
-Obj g__03518785_037 = PRIM_CAR(g__03518784_037);
-Obj g__03517754_037 = g__03518785_037;
-Obj g__03518786_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518787_037 = PRIM_CDR(g__03518786_037);
-Obj g__03518788_037 = PRIM_CDR(g__03518787_037);
-Obj g__03518789_037 = PRIM_EQ(Nil, g__03518788_037);
-if (True == g__03518789_037) {
-R[1] = g__03517754_037;
-R[2] = g__03517753_037;
+Obj g__03517786_037 = makeNative(co->gc, 3, clofun63, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518812_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518812_037) {
+Obj g__03518813_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518814_037 = PRIM_EQ(getBinding(co, packageID, 76).name, g__03518813_037);
+if (True == g__03518814_037) {
+Obj g__03518815_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518816_037 = PRIM_ISCONS(g__03518815_037);
+if (True == g__03518816_037) {
+Obj g__03518817_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518818_037 = PRIM_CAR(g__03518817_037);
+Obj g__03517792_037 = g__03518818_037;
+Obj g__03518819_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518820_037 = PRIM_CDR(g__03518819_037);
+Obj g__03518821_037 = PRIM_ISCONS(g__03518820_037);
+if (True == g__03518821_037) {
+Obj g__03518822_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518823_037 = PRIM_CDR(g__03518822_037);
+Obj g__03518824_037 = PRIM_CAR(g__03518823_037);
+Obj g__03517793_037 = g__03518824_037;
+Obj g__03518825_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518826_037 = PRIM_CDR(g__03518825_037);
+Obj g__03518827_037 = PRIM_CDR(g__03518826_037);
+Obj g__03518828_037 = PRIM_EQ(Nil, g__03518827_037);
+if (True == g__03518828_037) {
+R[1] = g__03517793_037;
+R[2] = g__03517792_037;
 saveCont(co, clofun64, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517754_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517793_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517747_037);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517747_037);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517747_037);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517747_037);
+coraCall0(co, g__03517786_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517747_037);
+coraCall0(co, g__03517786_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518794_037= co->res;
-Obj g__03517756_037 = R[1];
-Obj g__03517753_037 = R[2];
-Obj g__03518795_037 = makeCons(co->gc, g__03518794_037, g__03517756_037);
-Obj g__03518796_037 = makeCons(co->gc, g__03517753_037, g__03518795_037);
-Obj g__03518797_037 = makeCons(co->gc, getBinding(co, packageID, 63).name, g__03518796_037);
-coraReturn(co, g__03518797_037);
+Obj g__03518833_037= co->res;
+Obj g__03517795_037 = R[1];
+Obj g__03517792_037 = R[2];
+Obj g__03518834_037 = makeCons(co->gc, g__03518833_037, g__03517795_037);
+Obj g__03518835_037 = makeCons(co->gc, g__03517792_037, g__03518834_037);
+Obj g__03518836_037 = makeCons(co->gc, getBinding(co, packageID, 63).name, g__03518835_037);
+coraReturn(co, g__03518836_037);
 return;
 }
 case 2:
 {
-Obj g__03518793_037= co->res;
-Obj g__03517755_037 = R[1];
-Obj g__03517754_037 = R[2];
-Obj g__03517753_037 = R[3];
-Obj g__03517756_037 = g__03518793_037;
-R[1] = g__03517756_037;
-R[2] = g__03517753_037;
+Obj g__03518832_037= co->res;
+Obj g__03517794_037 = R[1];
+Obj g__03517793_037 = R[2];
+Obj g__03517792_037 = R[3];
+Obj g__03517795_037 = g__03518832_037;
+R[1] = g__03517795_037;
+R[2] = g__03517792_037;
 saveCont(co, clofun64, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), g__03517755_037, g__03517754_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), g__03517794_037, g__03517793_037);
 return;
 }
 case 3:
 {
-Obj g__03518792_037= co->res;
-Obj g__03517755_037 = R[1];
-Obj g__03517754_037 = R[2];
-Obj g__03517753_037 = R[3];
-R[1] = g__03517755_037;
-R[2] = g__03517754_037;
-R[3] = g__03517753_037;
+Obj g__03518831_037= co->res;
+Obj g__03517794_037 = R[1];
+Obj g__03517793_037 = R[2];
+Obj g__03517792_037 = R[3];
+R[1] = g__03517794_037;
+R[2] = g__03517793_037;
+R[3] = g__03517792_037;
 saveCont(co, clofun64, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518792_037, g__03517755_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518831_037, g__03517794_037);
 return;
 }
 case 4:
 {
-Obj g__03518791_037= co->res;
-Obj g__03517754_037 = R[1];
-Obj g__03517753_037 = R[2];
-Obj g__03517755_037 = g__03518791_037;
-R[1] = g__03517755_037;
-R[2] = g__03517754_037;
-R[3] = g__03517753_037;
+Obj g__03518830_037= co->res;
+Obj g__03517793_037 = R[1];
+Obj g__03517792_037 = R[2];
+Obj g__03517794_037 = g__03518830_037;
+R[1] = g__03517794_037;
+R[2] = g__03517793_037;
+R[3] = g__03517792_037;
 saveCont(co, clofun64, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj g__03518790_037= co->res;
-Obj g__03517754_037 = R[1];
-Obj g__03517753_037 = R[2];
-R[1] = g__03517754_037;
-R[2] = g__03517753_037;
+Obj g__03518829_037= co->res;
+Obj g__03517793_037 = R[1];
+Obj g__03517792_037 = R[2];
+R[1] = g__03517793_037;
+R[2] = g__03517792_037;
 saveCont(co, clofun64, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518790_037, g__03517753_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518829_037, g__03517792_037);
 return;
 }
 }
@@ -5499,89 +5544,89 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517748_037 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518750_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518750_037) {
-Obj g__03518751_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518752_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518751_037);
-if (True == g__03518752_037) {
-Obj g__03518753_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518754_037 = PRIM_ISCONS(g__03518753_037);
-if (True == g__03518754_037) {
-Obj g__03518755_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518756_037 = PRIM_CAR(g__03518755_037);
-Obj g__03517751_037 = g__03518756_037;
-Obj g__03518757_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518758_037 = PRIM_CDR(g__03518757_037);
-Obj g__03518759_037 = PRIM_ISCONS(g__03518758_037);
-if (True == g__03518759_037) {
-Obj g__03518760_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518761_037 = PRIM_CDR(g__03518760_037);
-Obj g__03518762_037 = PRIM_CAR(g__03518761_037);
-Obj g__03517752_037 = g__03518762_037;
-Obj g__03518763_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518764_037 = PRIM_CDR(g__03518763_037);
-Obj g__03518765_037 = PRIM_CDR(g__03518764_037);
-Obj g__03518766_037 = PRIM_EQ(Nil, g__03518765_037);
-if (True == g__03518766_037) {
-R[1] = g__03517751_037;
-R[2] = g__03517752_037;
+Obj g__03517787_037 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518789_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518789_037) {
+Obj g__03518790_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518791_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518790_037);
+if (True == g__03518791_037) {
+Obj g__03518792_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518793_037 = PRIM_ISCONS(g__03518792_037);
+if (True == g__03518793_037) {
+Obj g__03518794_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518795_037 = PRIM_CAR(g__03518794_037);
+Obj g__03517790_037 = g__03518795_037;
+Obj g__03518796_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518797_037 = PRIM_CDR(g__03518796_037);
+Obj g__03518798_037 = PRIM_ISCONS(g__03518797_037);
+if (True == g__03518798_037) {
+Obj g__03518799_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518800_037 = PRIM_CDR(g__03518799_037);
+Obj g__03518801_037 = PRIM_CAR(g__03518800_037);
+Obj g__03517791_037 = g__03518801_037;
+Obj g__03518802_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518803_037 = PRIM_CDR(g__03518802_037);
+Obj g__03518804_037 = PRIM_CDR(g__03518803_037);
+Obj g__03518805_037 = PRIM_EQ(Nil, g__03518804_037);
+if (True == g__03518805_037) {
+R[1] = g__03517790_037;
+R[2] = g__03517791_037;
 saveCont(co, clofun63, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517748_037);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517748_037);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517748_037);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517748_037);
+coraCall0(co, g__03517787_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517748_037);
+coraCall0(co, g__03517787_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518769_037= co->res;
-Obj g__03518768_037 = R[1];
-Obj g__03518770_037 = makeCons(co->gc, g__03518769_037, Nil);
-Obj g__03518771_037 = makeCons(co->gc, g__03518768_037, g__03518770_037);
-Obj g__03518772_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518771_037);
-coraReturn(co, g__03518772_037);
+Obj g__03518808_037= co->res;
+Obj g__03518807_037 = R[1];
+Obj g__03518809_037 = makeCons(co->gc, g__03518808_037, Nil);
+Obj g__03518810_037 = makeCons(co->gc, g__03518807_037, g__03518809_037);
+Obj g__03518811_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518810_037);
+coraReturn(co, g__03518811_037);
 return;
 }
 case 2:
 {
-Obj g__03518768_037= co->res;
-Obj g__03517752_037 = R[1];
-R[1] = g__03518768_037;
+Obj g__03518807_037= co->res;
+Obj g__03517791_037 = R[1];
+R[1] = g__03518807_037;
 saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1), g__03517752_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1), g__03517791_037);
 return;
 }
 case 3:
 {
-Obj g__03518767_037= co->res;
-Obj g__03517751_037 = R[1];
-Obj g__03517752_037 = R[2];
-R[1] = g__03517752_037;
+Obj g__03518806_037= co->res;
+Obj g__03517790_037 = R[1];
+Obj g__03517791_037 = R[2];
+R[1] = g__03517791_037;
 saveCont(co, clofun63, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518767_037, g__03517751_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518806_037, g__03517790_037);
 return;
 }
 }
@@ -5591,14 +5636,14 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518745_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518745_037) {
-Obj g__03518746_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517749_037 = g__03518746_037;
-Obj g__03518747_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517750_037 = g__03518747_037;
-R[1] = g__03517749_037;
-R[2] = g__03517750_037;
+Obj g__03518784_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518784_037) {
+Obj g__03518785_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517788_037 = g__03518785_037;
+Obj g__03518786_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517789_037 = g__03518786_037;
+R[1] = g__03517788_037;
+R[2] = g__03517789_037;
 saveCont(co, clofun62, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), closureRef(R[0], 1));
 return;
@@ -5610,12 +5655,12 @@ return;
 }
 case 1:
 {
-Obj g__03518748_037= co->res;
-Obj g__03517749_037 = R[1];
-Obj g__03517750_037 = R[2];
-Obj g__03518749_037 = makeCons(co->gc, g__03517749_037, g__03517750_037);
+Obj g__03518787_037= co->res;
+Obj g__03517788_037 = R[1];
+Obj g__03517789_037 = R[2];
+Obj g__03518788_037 = makeCons(co->gc, g__03517788_037, g__03517789_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518748_037, g__03518749_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518787_037, g__03518788_037);
 return;
 }
 }
@@ -5625,24 +5670,24 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517524_037 = R[1];
-Obj g__03517525_037 = R[2];
-Obj g__03517526_037 = R[3];
-Obj g__03518720_037 = PRIM_EQ(Nil, g__03517524_037);
-if (True == g__03518720_037) {
-R[1] = g__03517526_037;
+Obj g__03517563_037 = R[1];
+Obj g__03517564_037 = R[2];
+Obj g__03517565_037 = R[3];
+Obj g__03518759_037 = PRIM_EQ(Nil, g__03517563_037);
+if (True == g__03518759_037) {
+R[1] = g__03517565_037;
 saveCont(co, clofun61, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517525_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 68)), g__03517564_037);
 return;
 } else {
-Obj g__03518738_037 = PRIM_ISCONS(g__03517524_037);
-if (True == g__03518738_037) {
-Obj g__03518739_037 = PRIM_CAR(g__03517524_037);
-Obj g__03517744_037 = g__03518739_037;
-Obj g__03518740_037 = PRIM_CDR(g__03517524_037);
-Obj g__03517745_037 = g__03518740_037;
+Obj g__03518777_037 = PRIM_ISCONS(g__03517563_037);
+if (True == g__03518777_037) {
+Obj g__03518778_037 = PRIM_CAR(g__03517563_037);
+Obj g__03517783_037 = g__03518778_037;
+Obj g__03518779_037 = PRIM_CDR(g__03517563_037);
+Obj g__03517784_037 = g__03518779_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517744_037, makeNative(co->gc, 2, clofun60, 1, 3, g__03517745_037, g__03517525_037, g__03517526_037));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517783_037, makeNative(co->gc, 2, clofun60, 1, 3, g__03517784_037, g__03517564_037, g__03517565_037));
 return;
 } else {
 co->ctx.sp = R;
@@ -5653,46 +5698,46 @@ return;
 }
 case 1:
 {
-Obj g__03518736_037= co->res;
-Obj g__03517742_037 = R[1];
-Obj g__03518737_037 = PRIM_EQ(g__03518736_037, getBinding(co, packageID, 92).name);
-if (True == g__03518737_037) {
+Obj g__03518775_037= co->res;
+Obj g__03517781_037 = R[1];
+Obj g__03518776_037 = PRIM_EQ(g__03518775_037, getBinding(co, packageID, 92).name);
+if (True == g__03518776_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517742_037, True);
+coraCall1(co, g__03517781_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517742_037, False);
+coraCall1(co, g__03517781_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03518735_037= co->res;
-Obj g__03517739_037 = R[1];
-Obj g__03517742_037 = R[2];
-if (True == g__03518735_037) {
-R[1] = g__03517742_037;
+Obj g__03518774_037= co->res;
+Obj g__03517778_037 = R[1];
+Obj g__03517781_037 = R[2];
+if (True == g__03518774_037) {
+R[1] = g__03517781_037;
 saveCont(co, clofun61, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), g__03517739_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), g__03517778_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517742_037, False);
+coraCall1(co, g__03517781_037, False);
 return;
 }
 }
 case 3:
 {
-Obj g__03518721_037= co->res;
-Obj g__03517526_037 = R[1];
-Obj g__03517739_037 = g__03518721_037;
-Obj g__03517742_037 = makeNative(co->gc, 2, clofun59, 1, 2, g__03517739_037, g__03517526_037);
-Obj g__03518734_037 = PRIM_CAR(g__03517739_037);
-R[1] = g__03517739_037;
-R[2] = g__03517742_037;
+Obj g__03518760_037= co->res;
+Obj g__03517565_037 = R[1];
+Obj g__03517778_037 = g__03518760_037;
+Obj g__03517781_037 = makeNative(co->gc, 2, clofun59, 1, 2, g__03517778_037, g__03517565_037);
+Obj g__03518773_037 = PRIM_CAR(g__03517778_037);
+R[1] = g__03517778_037;
+R[2] = g__03517781_037;
 saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), g__03518734_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 66)), g__03518773_037);
 return;
 }
 }
@@ -5703,9 +5748,9 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj g__03518741_037 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj g__03518780_037 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), g__03518741_037, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), g__03518780_037, closureRef(R[0], 2));
 return;
 }
 }
@@ -5715,40 +5760,40 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517741_037 = R[1];
-if (True == g__03517741_037) {
+Obj g__03517780_037 = R[1];
+if (True == g__03517780_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj g__03518722_037 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
-if (True == g__03518722_037) {
-Obj g__03518723_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj g__03518724_037 = makeCons(co->gc, getBinding(co, packageID, 75).name, g__03518723_037);
-coraReturn(co, g__03518724_037);
+Obj g__03518761_037 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 71)));
+if (True == g__03518761_037) {
+Obj g__03518762_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03518763_037 = makeCons(co->gc, getBinding(co, packageID, 75).name, g__03518762_037);
+coraReturn(co, g__03518763_037);
 return;
 } else {
-Obj g__03518725_037 = primGenSym(co);
-Obj g__03517743_037 = g__03518725_037;
-Obj g__03518726_037 = makeCons(co->gc, g__03517743_037, Nil);
-R[1] = g__03518726_037;
+Obj g__03518764_037 = primGenSym(co);
+Obj g__03517782_037 = g__03518764_037;
+Obj g__03518765_037 = makeCons(co->gc, g__03517782_037, Nil);
+R[1] = g__03518765_037;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, closureRef(R[0], 1), g__03517743_037);
+coraCall1(co, closureRef(R[0], 1), g__03517782_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03518727_037= co->res;
-Obj g__03518726_037 = R[1];
-Obj g__03518728_037 = makeCons(co->gc, g__03518727_037, Nil);
-Obj g__03518729_037 = makeCons(co->gc, g__03518726_037, g__03518728_037);
-Obj g__03518730_037 = makeCons(co->gc, getBinding(co, packageID, 76).name, g__03518729_037);
-Obj g__03518731_037 = makeCons(co->gc, g__03518730_037, Nil);
-Obj g__03518732_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518731_037);
-Obj g__03518733_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518732_037);
-coraReturn(co, g__03518733_037);
+Obj g__03518766_037= co->res;
+Obj g__03518765_037 = R[1];
+Obj g__03518767_037 = makeCons(co->gc, g__03518766_037, Nil);
+Obj g__03518768_037 = makeCons(co->gc, g__03518765_037, g__03518767_037);
+Obj g__03518769_037 = makeCons(co->gc, getBinding(co, packageID, 76).name, g__03518768_037);
+Obj g__03518770_037 = makeCons(co->gc, g__03518769_037, Nil);
+Obj g__03518771_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518770_037);
+Obj g__03518772_037 = makeCons(co->gc, getBinding(co, packageID, 74).name, g__03518771_037);
+coraReturn(co, g__03518772_037);
 return;
 }
 }
@@ -5758,32 +5803,32 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517515_037 = R[1];
-Obj g__03517516_037 = R[2];
-Obj g__03517721_037 = makeNative(co->gc, 2, clofun57, 1, 2, g__03517515_037, g__03517516_037);
-Obj g__03518717_037 = primIsSymbol(g__03517515_037);
-if (True == g__03518717_037) {
+Obj g__03517554_037 = R[1];
+Obj g__03517555_037 = R[2];
+Obj g__03517760_037 = makeNative(co->gc, 2, clofun57, 1, 2, g__03517554_037, g__03517555_037);
+Obj g__03518756_037 = primIsSymbol(g__03517554_037);
+if (True == g__03518756_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517721_037, True);
+coraCall1(co, g__03517760_037, True);
 return;
 } else {
-R[1] = g__03517721_037;
+R[1] = g__03517760_037;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517515_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517554_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518718_037= co->res;
-Obj g__03517721_037 = R[1];
-if (True == g__03518718_037) {
+Obj g__03518757_037= co->res;
+Obj g__03517760_037 = R[1];
+if (True == g__03518757_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517721_037, True);
+coraCall1(co, g__03517760_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517721_037, False);
+coraCall1(co, g__03517760_037, False);
 return;
 }
 }
@@ -5794,8 +5839,8 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517720_037 = R[1];
-if (True == g__03517720_037) {
+Obj g__03517759_037 = R[1];
+if (True == g__03517759_037) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5807,78 +5852,78 @@ return;
 }
 case 1:
 {
-Obj g__03518583_037= co->res;
-if (True == g__03518583_037) {
+Obj g__03518622_037= co->res;
+if (True == g__03518622_037) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj g__03517722_037 = makeNative(co->gc, 1, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518685_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518685_037) {
-Obj g__03518686_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518687_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518686_037);
-if (True == g__03518687_037) {
-Obj g__03518688_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518689_037 = PRIM_ISCONS(g__03518688_037);
-if (True == g__03518689_037) {
-Obj g__03518690_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518691_037 = PRIM_CAR(g__03518690_037);
-Obj g__03517736_037 = g__03518691_037;
-Obj g__03518692_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518693_037 = PRIM_CDR(g__03518692_037);
-Obj g__03518694_037 = PRIM_ISCONS(g__03518693_037);
-if (True == g__03518694_037) {
-Obj g__03518695_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518696_037 = PRIM_CDR(g__03518695_037);
-Obj g__03518697_037 = PRIM_CAR(g__03518696_037);
-Obj g__03517737_037 = g__03518697_037;
-Obj g__03518698_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518699_037 = PRIM_CDR(g__03518698_037);
-Obj g__03518700_037 = PRIM_CDR(g__03518699_037);
-Obj g__03518701_037 = PRIM_ISCONS(g__03518700_037);
-if (True == g__03518701_037) {
-Obj g__03518702_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518703_037 = PRIM_CDR(g__03518702_037);
-Obj g__03518704_037 = PRIM_CDR(g__03518703_037);
-Obj g__03518705_037 = PRIM_CAR(g__03518704_037);
-Obj g__03517738_037 = g__03518705_037;
-Obj g__03518706_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518707_037 = PRIM_CDR(g__03518706_037);
-Obj g__03518708_037 = PRIM_CDR(g__03518707_037);
-Obj g__03518709_037 = PRIM_CDR(g__03518708_037);
-Obj g__03518710_037 = PRIM_EQ(Nil, g__03518709_037);
-if (True == g__03518710_037) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517736_037, makeNative(co->gc, 3, clofun56, 1, 3, g__03517737_037, g__03517738_037, closureRef(R[0], 1)));
+Obj g__03517761_037 = makeNative(co->gc, 1, clofun55, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518724_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518724_037) {
+Obj g__03518725_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518726_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518725_037);
+if (True == g__03518726_037) {
+Obj g__03518727_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518728_037 = PRIM_ISCONS(g__03518727_037);
+if (True == g__03518728_037) {
+Obj g__03518729_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518730_037 = PRIM_CAR(g__03518729_037);
+Obj g__03517775_037 = g__03518730_037;
+Obj g__03518731_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518732_037 = PRIM_CDR(g__03518731_037);
+Obj g__03518733_037 = PRIM_ISCONS(g__03518732_037);
+if (True == g__03518733_037) {
+Obj g__03518734_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518735_037 = PRIM_CDR(g__03518734_037);
+Obj g__03518736_037 = PRIM_CAR(g__03518735_037);
+Obj g__03517776_037 = g__03518736_037;
+Obj g__03518737_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518738_037 = PRIM_CDR(g__03518737_037);
+Obj g__03518739_037 = PRIM_CDR(g__03518738_037);
+Obj g__03518740_037 = PRIM_ISCONS(g__03518739_037);
+if (True == g__03518740_037) {
+Obj g__03518741_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518742_037 = PRIM_CDR(g__03518741_037);
+Obj g__03518743_037 = PRIM_CDR(g__03518742_037);
+Obj g__03518744_037 = PRIM_CAR(g__03518743_037);
+Obj g__03517777_037 = g__03518744_037;
+Obj g__03518745_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518746_037 = PRIM_CDR(g__03518745_037);
+Obj g__03518747_037 = PRIM_CDR(g__03518746_037);
+Obj g__03518748_037 = PRIM_CDR(g__03518747_037);
+Obj g__03518749_037 = PRIM_EQ(Nil, g__03518748_037);
+if (True == g__03518749_037) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517775_037, makeNative(co->gc, 3, clofun56, 1, 3, g__03517776_037, g__03517777_037, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517722_037);
+coraCall0(co, g__03517761_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517722_037);
+coraCall0(co, g__03517761_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517722_037);
+coraCall0(co, g__03517761_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517722_037);
+coraCall0(co, g__03517761_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517722_037);
+coraCall0(co, g__03517761_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517722_037);
+coraCall0(co, g__03517761_037);
 return;
 }
 }
@@ -5898,21 +5943,21 @@ return;
 }
 case 1:
 {
-Obj g__03518712_037= co->res;
-Obj g__03518711_037 = R[1];
+Obj g__03518751_037= co->res;
+Obj g__03518750_037 = R[1];
 Obj v_ra = R[2];
-Obj g__03518713_037 = makeCons(co->gc, g__03518712_037, Nil);
-Obj g__03518714_037 = makeCons(co->gc, g__03518711_037, g__03518713_037);
-Obj g__03518715_037 = makeCons(co->gc, v_ra, g__03518714_037);
-Obj g__03518716_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518715_037);
-coraReturn(co, g__03518716_037);
+Obj g__03518752_037 = makeCons(co->gc, g__03518751_037, Nil);
+Obj g__03518753_037 = makeCons(co->gc, g__03518750_037, g__03518752_037);
+Obj g__03518754_037 = makeCons(co->gc, v_ra, g__03518753_037);
+Obj g__03518755_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518754_037);
+coraReturn(co, g__03518755_037);
 return;
 }
 case 2:
 {
-Obj g__03518711_037= co->res;
+Obj g__03518750_037= co->res;
 Obj v_ra = R[1];
-R[1] = g__03518711_037;
+R[1] = g__03518750_037;
 R[2] = v_ra;
 saveCont(co, clofun56, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -5925,57 +5970,57 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517723_037 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518663_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518663_037) {
-Obj g__03518664_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518665_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518664_037);
-if (True == g__03518665_037) {
-Obj g__03518666_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518667_037 = PRIM_ISCONS(g__03518666_037);
-if (True == g__03518667_037) {
-Obj g__03518668_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518669_037 = PRIM_CAR(g__03518668_037);
-Obj g__03517734_037 = g__03518669_037;
-Obj g__03518670_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518671_037 = PRIM_CDR(g__03518670_037);
-Obj g__03518672_037 = PRIM_ISCONS(g__03518671_037);
-if (True == g__03518672_037) {
-Obj g__03518673_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518674_037 = PRIM_CDR(g__03518673_037);
-Obj g__03518675_037 = PRIM_CAR(g__03518674_037);
-Obj g__03517735_037 = g__03518675_037;
-Obj g__03518676_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518677_037 = PRIM_CDR(g__03518676_037);
-Obj g__03518678_037 = PRIM_CDR(g__03518677_037);
-Obj g__03518679_037 = PRIM_EQ(Nil, g__03518678_037);
-if (True == g__03518679_037) {
+Obj g__03517762_037 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518702_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518702_037) {
+Obj g__03518703_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518704_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518703_037);
+if (True == g__03518704_037) {
+Obj g__03518705_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518706_037 = PRIM_ISCONS(g__03518705_037);
+if (True == g__03518706_037) {
+Obj g__03518707_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518708_037 = PRIM_CAR(g__03518707_037);
+Obj g__03517773_037 = g__03518708_037;
+Obj g__03518709_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518710_037 = PRIM_CDR(g__03518709_037);
+Obj g__03518711_037 = PRIM_ISCONS(g__03518710_037);
+if (True == g__03518711_037) {
+Obj g__03518712_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518713_037 = PRIM_CDR(g__03518712_037);
+Obj g__03518714_037 = PRIM_CAR(g__03518713_037);
+Obj g__03517774_037 = g__03518714_037;
+Obj g__03518715_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518716_037 = PRIM_CDR(g__03518715_037);
+Obj g__03518717_037 = PRIM_CDR(g__03518716_037);
+Obj g__03518718_037 = PRIM_EQ(Nil, g__03518717_037);
+if (True == g__03518718_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517734_037, makeNative(co->gc, 2, clofun54, 1, 2, g__03517735_037, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517773_037, makeNative(co->gc, 2, clofun54, 1, 2, g__03517774_037, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517723_037);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517723_037);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517723_037);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517723_037);
+coraCall0(co, g__03517762_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517723_037);
+coraCall0(co, g__03517762_037);
 return;
 }
 }
@@ -5987,8 +6032,8 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj g__03518680_037 = primIsSymbol(v_ra);
-if (True == g__03518680_037) {
+Obj g__03518719_037 = primIsSymbol(v_ra);
+if (True == g__03518719_037) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6001,12 +6046,12 @@ return;
 }
 case 1:
 {
-Obj g__03518681_037= co->res;
+Obj g__03518720_037= co->res;
 Obj v_ra = R[1];
-Obj g__03518682_037 = makeCons(co->gc, g__03518681_037, Nil);
-Obj g__03518683_037 = makeCons(co->gc, v_ra, g__03518682_037);
-Obj g__03518684_037 = makeCons(co->gc, getBinding(co, packageID, 87).name, g__03518683_037);
-coraReturn(co, g__03518684_037);
+Obj g__03518721_037 = makeCons(co->gc, g__03518720_037, Nil);
+Obj g__03518722_037 = makeCons(co->gc, v_ra, g__03518721_037);
+Obj g__03518723_037 = makeCons(co->gc, getBinding(co, packageID, 87).name, g__03518722_037);
+coraReturn(co, g__03518723_037);
 return;
 }
 }
@@ -6016,73 +6061,73 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517724_037 = makeNative(co->gc, 3, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518632_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518632_037) {
-Obj g__03518633_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518634_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518633_037);
-if (True == g__03518634_037) {
-Obj g__03518635_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518636_037 = PRIM_ISCONS(g__03518635_037);
-if (True == g__03518636_037) {
-Obj g__03518637_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518638_037 = PRIM_CAR(g__03518637_037);
-Obj g__03517731_037 = g__03518638_037;
-Obj g__03518639_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518640_037 = PRIM_CDR(g__03518639_037);
-Obj g__03518641_037 = PRIM_ISCONS(g__03518640_037);
-if (True == g__03518641_037) {
-Obj g__03518642_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518643_037 = PRIM_CDR(g__03518642_037);
-Obj g__03518644_037 = PRIM_CAR(g__03518643_037);
-Obj g__03517732_037 = g__03518644_037;
-Obj g__03518645_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518646_037 = PRIM_CDR(g__03518645_037);
-Obj g__03518647_037 = PRIM_CDR(g__03518646_037);
-Obj g__03518648_037 = PRIM_ISCONS(g__03518647_037);
-if (True == g__03518648_037) {
-Obj g__03518649_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518650_037 = PRIM_CDR(g__03518649_037);
-Obj g__03518651_037 = PRIM_CDR(g__03518650_037);
-Obj g__03518652_037 = PRIM_CAR(g__03518651_037);
-Obj g__03517733_037 = g__03518652_037;
-Obj g__03518653_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518654_037 = PRIM_CDR(g__03518653_037);
-Obj g__03518655_037 = PRIM_CDR(g__03518654_037);
-Obj g__03518656_037 = PRIM_CDR(g__03518655_037);
-Obj g__03518657_037 = PRIM_EQ(Nil, g__03518656_037);
-if (True == g__03518657_037) {
+Obj g__03517763_037 = makeNative(co->gc, 3, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518671_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518671_037) {
+Obj g__03518672_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518673_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518672_037);
+if (True == g__03518673_037) {
+Obj g__03518674_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518675_037 = PRIM_ISCONS(g__03518674_037);
+if (True == g__03518675_037) {
+Obj g__03518676_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518677_037 = PRIM_CAR(g__03518676_037);
+Obj g__03517770_037 = g__03518677_037;
+Obj g__03518678_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518679_037 = PRIM_CDR(g__03518678_037);
+Obj g__03518680_037 = PRIM_ISCONS(g__03518679_037);
+if (True == g__03518680_037) {
+Obj g__03518681_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518682_037 = PRIM_CDR(g__03518681_037);
+Obj g__03518683_037 = PRIM_CAR(g__03518682_037);
+Obj g__03517771_037 = g__03518683_037;
+Obj g__03518684_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518685_037 = PRIM_CDR(g__03518684_037);
+Obj g__03518686_037 = PRIM_CDR(g__03518685_037);
+Obj g__03518687_037 = PRIM_ISCONS(g__03518686_037);
+if (True == g__03518687_037) {
+Obj g__03518688_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518689_037 = PRIM_CDR(g__03518688_037);
+Obj g__03518690_037 = PRIM_CDR(g__03518689_037);
+Obj g__03518691_037 = PRIM_CAR(g__03518690_037);
+Obj g__03517772_037 = g__03518691_037;
+Obj g__03518692_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518693_037 = PRIM_CDR(g__03518692_037);
+Obj g__03518694_037 = PRIM_CDR(g__03518693_037);
+Obj g__03518695_037 = PRIM_CDR(g__03518694_037);
+Obj g__03518696_037 = PRIM_EQ(Nil, g__03518695_037);
+if (True == g__03518696_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517732_037, makeNative(co->gc, 2, clofun52, 1, 3, g__03517731_037, g__03517733_037, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517771_037, makeNative(co->gc, 2, clofun52, 1, 3, g__03517770_037, g__03517772_037, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517724_037);
+coraCall0(co, g__03517763_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517724_037);
+coraCall0(co, g__03517763_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517724_037);
+coraCall0(co, g__03517763_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517724_037);
+coraCall0(co, g__03517763_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517724_037);
+coraCall0(co, g__03517763_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517724_037);
+coraCall0(co, g__03517763_037);
 return;
 }
 }
@@ -6101,13 +6146,13 @@ return;
 }
 case 1:
 {
-Obj g__03518658_037= co->res;
+Obj g__03518697_037= co->res;
 Obj v_rb = R[1];
-Obj g__03518659_037 = makeCons(co->gc, g__03518658_037, Nil);
-Obj g__03518660_037 = makeCons(co->gc, v_rb, g__03518659_037);
-Obj g__03518661_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518660_037);
-Obj g__03518662_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518661_037);
-coraReturn(co, g__03518662_037);
+Obj g__03518698_037 = makeCons(co->gc, g__03518697_037, Nil);
+Obj g__03518699_037 = makeCons(co->gc, v_rb, g__03518698_037);
+Obj g__03518700_037 = makeCons(co->gc, closureRef(R[0], 0), g__03518699_037);
+Obj g__03518701_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518700_037);
+coraReturn(co, g__03518701_037);
 return;
 }
 }
@@ -6117,114 +6162,114 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517725_037 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518588_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518588_037) {
-Obj g__03518589_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518590_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518589_037);
-if (True == g__03518590_037) {
-Obj g__03518591_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518592_037 = PRIM_ISCONS(g__03518591_037);
-if (True == g__03518592_037) {
-Obj g__03518593_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518594_037 = PRIM_CAR(g__03518593_037);
-Obj g__03518595_037 = PRIM_ISCONS(g__03518594_037);
-if (True == g__03518595_037) {
-Obj g__03518596_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518597_037 = PRIM_CAR(g__03518596_037);
-Obj g__03518598_037 = PRIM_CAR(g__03518597_037);
-Obj g__03518599_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518598_037);
-if (True == g__03518599_037) {
-Obj g__03518600_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518601_037 = PRIM_CAR(g__03518600_037);
-Obj g__03518602_037 = PRIM_CDR(g__03518601_037);
-Obj g__03518603_037 = PRIM_ISCONS(g__03518602_037);
-if (True == g__03518603_037) {
-Obj g__03518604_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518605_037 = PRIM_CAR(g__03518604_037);
-Obj g__03518606_037 = PRIM_CDR(g__03518605_037);
-Obj g__03518607_037 = PRIM_CAR(g__03518606_037);
-Obj g__03517728_037 = g__03518607_037;
-Obj g__03518608_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518609_037 = PRIM_CAR(g__03518608_037);
-Obj g__03518610_037 = PRIM_CDR(g__03518609_037);
-Obj g__03518611_037 = PRIM_CDR(g__03518610_037);
-Obj g__03518612_037 = PRIM_ISCONS(g__03518611_037);
-if (True == g__03518612_037) {
-Obj g__03518613_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518614_037 = PRIM_CAR(g__03518613_037);
-Obj g__03518615_037 = PRIM_CDR(g__03518614_037);
-Obj g__03518616_037 = PRIM_CDR(g__03518615_037);
-Obj g__03518617_037 = PRIM_CAR(g__03518616_037);
-Obj g__03517729_037 = g__03518617_037;
-Obj g__03518618_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518619_037 = PRIM_CAR(g__03518618_037);
-Obj g__03518620_037 = PRIM_CDR(g__03518619_037);
-Obj g__03518621_037 = PRIM_CDR(g__03518620_037);
-Obj g__03518622_037 = PRIM_CDR(g__03518621_037);
-Obj g__03518623_037 = PRIM_EQ(Nil, g__03518622_037);
-if (True == g__03518623_037) {
-Obj g__03518624_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518625_037 = PRIM_CDR(g__03518624_037);
-Obj g__03517730_037 = g__03518625_037;
-R[1] = g__03517728_037;
-R[2] = g__03517730_037;
+Obj g__03517764_037 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518627_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518627_037) {
+Obj g__03518628_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518629_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518628_037);
+if (True == g__03518629_037) {
+Obj g__03518630_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518631_037 = PRIM_ISCONS(g__03518630_037);
+if (True == g__03518631_037) {
+Obj g__03518632_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518633_037 = PRIM_CAR(g__03518632_037);
+Obj g__03518634_037 = PRIM_ISCONS(g__03518633_037);
+if (True == g__03518634_037) {
+Obj g__03518635_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518636_037 = PRIM_CAR(g__03518635_037);
+Obj g__03518637_037 = PRIM_CAR(g__03518636_037);
+Obj g__03518638_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518637_037);
+if (True == g__03518638_037) {
+Obj g__03518639_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518640_037 = PRIM_CAR(g__03518639_037);
+Obj g__03518641_037 = PRIM_CDR(g__03518640_037);
+Obj g__03518642_037 = PRIM_ISCONS(g__03518641_037);
+if (True == g__03518642_037) {
+Obj g__03518643_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518644_037 = PRIM_CAR(g__03518643_037);
+Obj g__03518645_037 = PRIM_CDR(g__03518644_037);
+Obj g__03518646_037 = PRIM_CAR(g__03518645_037);
+Obj g__03517767_037 = g__03518646_037;
+Obj g__03518647_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518648_037 = PRIM_CAR(g__03518647_037);
+Obj g__03518649_037 = PRIM_CDR(g__03518648_037);
+Obj g__03518650_037 = PRIM_CDR(g__03518649_037);
+Obj g__03518651_037 = PRIM_ISCONS(g__03518650_037);
+if (True == g__03518651_037) {
+Obj g__03518652_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518653_037 = PRIM_CAR(g__03518652_037);
+Obj g__03518654_037 = PRIM_CDR(g__03518653_037);
+Obj g__03518655_037 = PRIM_CDR(g__03518654_037);
+Obj g__03518656_037 = PRIM_CAR(g__03518655_037);
+Obj g__03517768_037 = g__03518656_037;
+Obj g__03518657_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518658_037 = PRIM_CAR(g__03518657_037);
+Obj g__03518659_037 = PRIM_CDR(g__03518658_037);
+Obj g__03518660_037 = PRIM_CDR(g__03518659_037);
+Obj g__03518661_037 = PRIM_CDR(g__03518660_037);
+Obj g__03518662_037 = PRIM_EQ(Nil, g__03518661_037);
+if (True == g__03518662_037) {
+Obj g__03518663_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518664_037 = PRIM_CDR(g__03518663_037);
+Obj g__03517769_037 = g__03518664_037;
+R[1] = g__03517767_037;
+R[2] = g__03517769_037;
 saveCont(co, clofun51, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517729_037, globalRef(co, getBinding(co, packageID, 71)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), g__03517768_037, globalRef(co, getBinding(co, packageID, 71)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517725_037);
+coraCall0(co, g__03517764_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518626_037= co->res;
-Obj g__03517728_037 = R[1];
-Obj g__03517730_037 = R[2];
-Obj g__03518627_037 = makeCons(co->gc, g__03518626_037, Nil);
-Obj g__03518628_037 = makeCons(co->gc, g__03517728_037, g__03518627_037);
-Obj g__03518629_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518628_037);
-Obj g__03518630_037 = makeCons(co->gc, g__03518629_037, g__03517730_037);
-Obj g__03518631_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518630_037);
+Obj g__03518665_037= co->res;
+Obj g__03517767_037 = R[1];
+Obj g__03517769_037 = R[2];
+Obj g__03518666_037 = makeCons(co->gc, g__03518665_037, Nil);
+Obj g__03518667_037 = makeCons(co->gc, g__03517767_037, g__03518666_037);
+Obj g__03518668_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518667_037);
+Obj g__03518669_037 = makeCons(co->gc, g__03518668_037, g__03517769_037);
+Obj g__03518670_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518669_037);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), g__03518631_037);
+coraCall1(co, closureRef(R[0], 1), g__03518670_037);
 return;
 }
 }
@@ -6234,15 +6279,15 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518584_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518584_037) {
-Obj g__03518585_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517726_037 = g__03518585_037;
-Obj g__03518586_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517727_037 = g__03518586_037;
-Obj g__03518587_037 = makeCons(co->gc, g__03517726_037, g__03517727_037);
+Obj g__03518623_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518623_037) {
+Obj g__03518624_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517765_037 = g__03518624_037;
+Obj g__03518625_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517766_037 = g__03518625_037;
+Obj g__03518626_037 = makeCons(co->gc, g__03517765_037, g__03517766_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), g__03518587_037, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 69)), g__03518626_037, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6258,9 +6303,9 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03518580_037 = makeCons(co->gc, v_x, Nil);
-Obj g__03518581_037 = makeCons(co->gc, getBinding(co, packageID, 73).name, g__03518580_037);
-coraReturn(co, g__03518581_037);
+Obj g__03518619_037 = makeCons(co->gc, v_x, Nil);
+Obj g__03518620_037 = makeCons(co->gc, getBinding(co, packageID, 73).name, g__03518619_037);
+coraReturn(co, g__03518620_037);
 return;
 }
 }
@@ -6270,151 +6315,151 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517508_037 = R[1];
-Obj g__03517509_037 = R[2];
-R[1] = g__03517509_037;
-R[2] = g__03517508_037;
+Obj g__03517547_037 = R[1];
+Obj g__03517548_037 = R[2];
+R[1] = g__03517548_037;
+R[2] = g__03517547_037;
 saveCont(co, clofun48, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517509_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517548_037);
 return;
 }
 case 1:
 {
-Obj g__03518509_037= co->res;
-Obj g__03517509_037 = R[1];
-Obj g__03517708_037 = g__03518509_037;
-Obj g__03518510_037 = PRIM_EQ(MAKE_NUMBER(-1), g__03517708_037);
-if (True == g__03518510_037) {
-coraReturn(co, g__03517509_037);
+Obj g__03518548_037= co->res;
+Obj g__03517548_037 = R[1];
+Obj g__03517747_037 = g__03518548_037;
+Obj g__03518549_037 = PRIM_EQ(MAKE_NUMBER(-1), g__03517747_037);
+if (True == g__03518549_037) {
+coraReturn(co, g__03517548_037);
 return;
 } else {
-Obj g__03518511_037 = makeCons(co->gc, g__03517708_037, Nil);
-Obj g__03518512_037 = makeCons(co->gc, getBinding(co, packageID, 78).name, g__03518511_037);
-coraReturn(co, g__03518512_037);
+Obj g__03518550_037 = makeCons(co->gc, g__03517747_037, Nil);
+Obj g__03518551_037 = makeCons(co->gc, getBinding(co, packageID, 78).name, g__03518550_037);
+coraReturn(co, g__03518551_037);
 return;
 }
 }
 case 2:
 {
-Obj g__03518576_037= co->res;
-Obj g__03518574_037 = R[1];
-Obj g__03518577_037 = makeCons(co->gc, g__03518574_037, g__03518576_037);
-Obj g__03518578_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518577_037);
-coraReturn(co, g__03518578_037);
+Obj g__03518615_037= co->res;
+Obj g__03518613_037 = R[1];
+Obj g__03518616_037 = makeCons(co->gc, g__03518613_037, g__03518615_037);
+Obj g__03518617_037 = makeCons(co->gc, getBinding(co, packageID, 79).name, g__03518616_037);
+coraReturn(co, g__03518617_037);
 return;
 }
 case 3:
 {
-Obj g__03518575_037= co->res;
-Obj g__03517718_037 = R[1];
-Obj g__03518574_037 = R[2];
-R[1] = g__03518574_037;
+Obj g__03518614_037= co->res;
+Obj g__03517757_037 = R[1];
+Obj g__03518613_037 = R[2];
+R[1] = g__03518613_037;
 saveCont(co, clofun48, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518575_037, g__03517718_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518614_037, g__03517757_037);
 return;
 }
 case 4:
 {
-Obj g__03518571_037= co->res;
-Obj g__03517716_037 = R[1];
-Obj g__03517508_037 = R[2];
-Obj g__03517718_037 = R[3];
-Obj g__03518572_037 = makeCons(co->gc, g__03518571_037, Nil);
-Obj g__03518573_037 = makeCons(co->gc, g__03517716_037, g__03518572_037);
-Obj g__03518574_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518573_037);
-R[1] = g__03517718_037;
-R[2] = g__03518574_037;
+Obj g__03518610_037= co->res;
+Obj g__03517755_037 = R[1];
+Obj g__03517547_037 = R[2];
+Obj g__03517757_037 = R[3];
+Obj g__03518611_037 = makeCons(co->gc, g__03518610_037, Nil);
+Obj g__03518612_037 = makeCons(co->gc, g__03517755_037, g__03518611_037);
+Obj g__03518613_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518612_037);
+R[1] = g__03517757_037;
+R[2] = g__03518613_037;
 saveCont(co, clofun48, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), g__03517508_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), g__03517547_037);
 return;
 }
 case 5:
 {
-Obj g__03518570_037= co->res;
-Obj g__03517717_037 = R[1];
-Obj g__03517716_037 = R[2];
-Obj g__03517508_037 = R[3];
-Obj g__03517718_037 = g__03518570_037;
-R[1] = g__03517716_037;
-R[2] = g__03517508_037;
-R[3] = g__03517718_037;
+Obj g__03518609_037= co->res;
+Obj g__03517756_037 = R[1];
+Obj g__03517755_037 = R[2];
+Obj g__03517547_037 = R[3];
+Obj g__03517757_037 = g__03518609_037;
+R[1] = g__03517755_037;
+R[2] = g__03517547_037;
+R[3] = g__03517757_037;
 saveCont(co, clofun48, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), g__03517718_037, g__03517717_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), g__03517757_037, g__03517756_037);
 return;
 }
 case 6:
 {
-Obj g__03518507_037= co->res;
-Obj g__03517509_037 = R[1];
-Obj g__03517508_037 = R[2];
-if (True == g__03518507_037) {
-coraReturn(co, g__03517509_037);
+Obj g__03518546_037= co->res;
+Obj g__03517548_037 = R[1];
+Obj g__03517547_037 = R[2];
+if (True == g__03518546_037) {
+coraReturn(co, g__03517548_037);
 return;
 } else {
-Obj g__03518508_037 = primIsSymbol(g__03517509_037);
-if (True == g__03518508_037) {
-R[1] = g__03517509_037;
+Obj g__03518547_037 = primIsSymbol(g__03517548_037);
+if (True == g__03518547_037) {
+R[1] = g__03517548_037;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517509_037, g__03517508_037);
-return;
-} else {
-Obj g__03517709_037 = makeNative(co->gc, 3, clofun47, 0, 2, g__03517509_037, g__03517508_037);
-Obj g__03518550_037 = PRIM_ISCONS(g__03517509_037);
-if (True == g__03518550_037) {
-Obj g__03518551_037 = PRIM_CAR(g__03517509_037);
-Obj g__03518552_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518551_037);
-if (True == g__03518552_037) {
-Obj g__03518553_037 = PRIM_CDR(g__03517509_037);
-Obj g__03518554_037 = PRIM_ISCONS(g__03518553_037);
-if (True == g__03518554_037) {
-Obj g__03518555_037 = PRIM_CDR(g__03517509_037);
-Obj g__03518556_037 = PRIM_CAR(g__03518555_037);
-Obj g__03517716_037 = g__03518556_037;
-Obj g__03518557_037 = PRIM_CDR(g__03517509_037);
-Obj g__03518558_037 = PRIM_CDR(g__03518557_037);
-Obj g__03518559_037 = PRIM_ISCONS(g__03518558_037);
-if (True == g__03518559_037) {
-Obj g__03518560_037 = PRIM_CDR(g__03517509_037);
-Obj g__03518561_037 = PRIM_CDR(g__03518560_037);
-Obj g__03518562_037 = PRIM_CAR(g__03518561_037);
-Obj g__03517717_037 = g__03518562_037;
-Obj g__03518563_037 = PRIM_CDR(g__03517509_037);
-Obj g__03518564_037 = PRIM_CDR(g__03518563_037);
-Obj g__03518565_037 = PRIM_CDR(g__03518564_037);
-Obj g__03518566_037 = PRIM_EQ(Nil, g__03518565_037);
-if (True == g__03518566_037) {
-Obj g__03518567_037 = makeCons(co->gc, g__03517717_037, Nil);
-Obj g__03518568_037 = makeCons(co->gc, g__03517716_037, g__03518567_037);
-Obj g__03518569_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518568_037);
-R[1] = g__03517717_037;
-R[2] = g__03517716_037;
-R[3] = g__03517508_037;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517548_037, g__03517547_037);
+return;
+} else {
+Obj g__03517748_037 = makeNative(co->gc, 3, clofun47, 0, 2, g__03517548_037, g__03517547_037);
+Obj g__03518589_037 = PRIM_ISCONS(g__03517548_037);
+if (True == g__03518589_037) {
+Obj g__03518590_037 = PRIM_CAR(g__03517548_037);
+Obj g__03518591_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518590_037);
+if (True == g__03518591_037) {
+Obj g__03518592_037 = PRIM_CDR(g__03517548_037);
+Obj g__03518593_037 = PRIM_ISCONS(g__03518592_037);
+if (True == g__03518593_037) {
+Obj g__03518594_037 = PRIM_CDR(g__03517548_037);
+Obj g__03518595_037 = PRIM_CAR(g__03518594_037);
+Obj g__03517755_037 = g__03518595_037;
+Obj g__03518596_037 = PRIM_CDR(g__03517548_037);
+Obj g__03518597_037 = PRIM_CDR(g__03518596_037);
+Obj g__03518598_037 = PRIM_ISCONS(g__03518597_037);
+if (True == g__03518598_037) {
+Obj g__03518599_037 = PRIM_CDR(g__03517548_037);
+Obj g__03518600_037 = PRIM_CDR(g__03518599_037);
+Obj g__03518601_037 = PRIM_CAR(g__03518600_037);
+Obj g__03517756_037 = g__03518601_037;
+Obj g__03518602_037 = PRIM_CDR(g__03517548_037);
+Obj g__03518603_037 = PRIM_CDR(g__03518602_037);
+Obj g__03518604_037 = PRIM_CDR(g__03518603_037);
+Obj g__03518605_037 = PRIM_EQ(Nil, g__03518604_037);
+if (True == g__03518605_037) {
+Obj g__03518606_037 = makeCons(co->gc, g__03517756_037, Nil);
+Obj g__03518607_037 = makeCons(co->gc, g__03517755_037, g__03518606_037);
+Obj g__03518608_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518607_037);
+R[1] = g__03517756_037;
+R[2] = g__03517755_037;
+R[3] = g__03517547_037;
 saveCont(co, clofun48, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03518569_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03518608_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517709_037);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517709_037);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517709_037);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517709_037);
+coraCall0(co, g__03517748_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517709_037);
+coraCall0(co, g__03517748_037);
 return;
 }
 }
@@ -6427,99 +6472,99 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517710_037 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj g__03518518_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518518_037) {
-Obj g__03518519_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518520_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518519_037);
-if (True == g__03518520_037) {
-Obj g__03518521_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518522_037 = PRIM_ISCONS(g__03518521_037);
-if (True == g__03518522_037) {
-Obj g__03518523_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518524_037 = PRIM_CAR(g__03518523_037);
-Obj g__03517713_037 = g__03518524_037;
-Obj g__03518525_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518526_037 = PRIM_CDR(g__03518525_037);
-Obj g__03518527_037 = PRIM_ISCONS(g__03518526_037);
-if (True == g__03518527_037) {
-Obj g__03518528_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518529_037 = PRIM_CDR(g__03518528_037);
-Obj g__03518530_037 = PRIM_CAR(g__03518529_037);
-Obj g__03517714_037 = g__03518530_037;
-Obj g__03518531_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518532_037 = PRIM_CDR(g__03518531_037);
-Obj g__03518533_037 = PRIM_CDR(g__03518532_037);
-Obj g__03518534_037 = PRIM_ISCONS(g__03518533_037);
-if (True == g__03518534_037) {
-Obj g__03518535_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518536_037 = PRIM_CDR(g__03518535_037);
-Obj g__03518537_037 = PRIM_CDR(g__03518536_037);
-Obj g__03518538_037 = PRIM_CAR(g__03518537_037);
-Obj g__03517715_037 = g__03518538_037;
-Obj g__03518539_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518540_037 = PRIM_CDR(g__03518539_037);
-Obj g__03518541_037 = PRIM_CDR(g__03518540_037);
-Obj g__03518542_037 = PRIM_CDR(g__03518541_037);
-Obj g__03518543_037 = PRIM_EQ(Nil, g__03518542_037);
-if (True == g__03518543_037) {
-R[1] = g__03517715_037;
-R[2] = g__03517713_037;
+Obj g__03517749_037 = makeNative(co->gc, 3, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj g__03518557_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518557_037) {
+Obj g__03518558_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518559_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518558_037);
+if (True == g__03518559_037) {
+Obj g__03518560_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518561_037 = PRIM_ISCONS(g__03518560_037);
+if (True == g__03518561_037) {
+Obj g__03518562_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518563_037 = PRIM_CAR(g__03518562_037);
+Obj g__03517752_037 = g__03518563_037;
+Obj g__03518564_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518565_037 = PRIM_CDR(g__03518564_037);
+Obj g__03518566_037 = PRIM_ISCONS(g__03518565_037);
+if (True == g__03518566_037) {
+Obj g__03518567_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518568_037 = PRIM_CDR(g__03518567_037);
+Obj g__03518569_037 = PRIM_CAR(g__03518568_037);
+Obj g__03517753_037 = g__03518569_037;
+Obj g__03518570_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518571_037 = PRIM_CDR(g__03518570_037);
+Obj g__03518572_037 = PRIM_CDR(g__03518571_037);
+Obj g__03518573_037 = PRIM_ISCONS(g__03518572_037);
+if (True == g__03518573_037) {
+Obj g__03518574_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518575_037 = PRIM_CDR(g__03518574_037);
+Obj g__03518576_037 = PRIM_CDR(g__03518575_037);
+Obj g__03518577_037 = PRIM_CAR(g__03518576_037);
+Obj g__03517754_037 = g__03518577_037;
+Obj g__03518578_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518579_037 = PRIM_CDR(g__03518578_037);
+Obj g__03518580_037 = PRIM_CDR(g__03518579_037);
+Obj g__03518581_037 = PRIM_CDR(g__03518580_037);
+Obj g__03518582_037 = PRIM_EQ(Nil, g__03518581_037);
+if (True == g__03518582_037) {
+R[1] = g__03517754_037;
+R[2] = g__03517752_037;
 saveCont(co, clofun47, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), g__03517714_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), g__03517753_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517710_037);
+coraCall0(co, g__03517749_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517710_037);
+coraCall0(co, g__03517749_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517710_037);
+coraCall0(co, g__03517749_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517710_037);
+coraCall0(co, g__03517749_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517710_037);
+coraCall0(co, g__03517749_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517710_037);
+coraCall0(co, g__03517749_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518545_037= co->res;
-Obj g__03518544_037 = R[1];
-Obj g__03517713_037 = R[2];
-Obj g__03518546_037 = makeCons(co->gc, g__03518545_037, Nil);
-Obj g__03518547_037 = makeCons(co->gc, g__03518544_037, g__03518546_037);
-Obj g__03518548_037 = makeCons(co->gc, g__03517713_037, g__03518547_037);
-Obj g__03518549_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518548_037);
-coraReturn(co, g__03518549_037);
+Obj g__03518584_037= co->res;
+Obj g__03518583_037 = R[1];
+Obj g__03517752_037 = R[2];
+Obj g__03518585_037 = makeCons(co->gc, g__03518584_037, Nil);
+Obj g__03518586_037 = makeCons(co->gc, g__03518583_037, g__03518585_037);
+Obj g__03518587_037 = makeCons(co->gc, g__03517752_037, g__03518586_037);
+Obj g__03518588_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518587_037);
+coraReturn(co, g__03518588_037);
 return;
 }
 case 2:
 {
-Obj g__03518544_037= co->res;
-Obj g__03517715_037 = R[1];
-Obj g__03517713_037 = R[2];
-R[1] = g__03518544_037;
-R[2] = g__03517713_037;
+Obj g__03518583_037= co->res;
+Obj g__03517754_037 = R[1];
+Obj g__03517752_037 = R[2];
+R[1] = g__03518583_037;
+R[2] = g__03517752_037;
 saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), g__03517715_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1), g__03517754_037);
 return;
 }
 }
@@ -6529,14 +6574,14 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518513_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518513_037) {
-Obj g__03518514_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517711_037 = g__03518514_037;
-Obj g__03518515_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517712_037 = g__03518515_037;
-R[1] = g__03517711_037;
-R[2] = g__03517712_037;
+Obj g__03518552_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518552_037) {
+Obj g__03518553_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517750_037 = g__03518553_037;
+Obj g__03518554_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517751_037 = g__03518554_037;
+R[1] = g__03517750_037;
+R[2] = g__03517751_037;
 saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), closureRef(R[0], 1));
 return;
@@ -6548,12 +6593,12 @@ return;
 }
 case 1:
 {
-Obj g__03518516_037= co->res;
-Obj g__03517711_037 = R[1];
-Obj g__03517712_037 = R[2];
-Obj g__03518517_037 = makeCons(co->gc, g__03517711_037, g__03517712_037);
+Obj g__03518555_037= co->res;
+Obj g__03517750_037 = R[1];
+Obj g__03517751_037 = R[2];
+Obj g__03518556_037 = makeCons(co->gc, g__03517750_037, g__03517751_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518516_037, g__03518517_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518555_037, g__03518556_037);
 return;
 }
 }
@@ -6563,86 +6608,86 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517495_037 = R[1];
-R[1] = g__03517495_037;
+Obj g__03517534_037 = R[1];
+R[1] = g__03517534_037;
 saveCont(co, clofun45, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517495_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), g__03517534_037);
 return;
 }
 case 1:
 {
-Obj g__03518505_037= co->res;
-Obj g__03517706_037 = R[1];
+Obj g__03518544_037= co->res;
+Obj g__03517745_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518505_037, g__03517706_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518544_037, g__03517745_037);
 return;
 }
 case 2:
 {
-Obj g__03518332_037= co->res;
-Obj g__03517495_037 = R[1];
-if (True == g__03518332_037) {
+Obj g__03518371_037= co->res;
+Obj g__03517534_037 = R[1];
+if (True == g__03518371_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03518333_037 = primIsSymbol(g__03517495_037);
-if (True == g__03518333_037) {
-Obj g__03518334_037 = makeCons(co->gc, g__03517495_037, Nil);
-coraReturn(co, g__03518334_037);
-return;
-} else {
-Obj g__03517679_037 = makeNative(co->gc, 1, clofun44, 0, 1, g__03517495_037);
-Obj g__03518488_037 = PRIM_ISCONS(g__03517495_037);
-if (True == g__03518488_037) {
-Obj g__03518489_037 = PRIM_CAR(g__03517495_037);
-Obj g__03518490_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518489_037);
-if (True == g__03518490_037) {
-Obj g__03518491_037 = PRIM_CDR(g__03517495_037);
-Obj g__03518492_037 = PRIM_ISCONS(g__03518491_037);
-if (True == g__03518492_037) {
-Obj g__03518493_037 = PRIM_CDR(g__03517495_037);
-Obj g__03518494_037 = PRIM_CAR(g__03518493_037);
-Obj g__03517706_037 = g__03518494_037;
-Obj g__03518495_037 = PRIM_CDR(g__03517495_037);
-Obj g__03518496_037 = PRIM_CDR(g__03518495_037);
-Obj g__03518497_037 = PRIM_ISCONS(g__03518496_037);
-if (True == g__03518497_037) {
-Obj g__03518498_037 = PRIM_CDR(g__03517495_037);
-Obj g__03518499_037 = PRIM_CDR(g__03518498_037);
-Obj g__03518500_037 = PRIM_CAR(g__03518499_037);
-Obj g__03517707_037 = g__03518500_037;
-Obj g__03518501_037 = PRIM_CDR(g__03517495_037);
-Obj g__03518502_037 = PRIM_CDR(g__03518501_037);
-Obj g__03518503_037 = PRIM_CDR(g__03518502_037);
-Obj g__03518504_037 = PRIM_EQ(Nil, g__03518503_037);
-if (True == g__03518504_037) {
-R[1] = g__03517706_037;
+Obj g__03518372_037 = primIsSymbol(g__03517534_037);
+if (True == g__03518372_037) {
+Obj g__03518373_037 = makeCons(co->gc, g__03517534_037, Nil);
+coraReturn(co, g__03518373_037);
+return;
+} else {
+Obj g__03517718_037 = makeNative(co->gc, 1, clofun44, 0, 1, g__03517534_037);
+Obj g__03518527_037 = PRIM_ISCONS(g__03517534_037);
+if (True == g__03518527_037) {
+Obj g__03518528_037 = PRIM_CAR(g__03517534_037);
+Obj g__03518529_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518528_037);
+if (True == g__03518529_037) {
+Obj g__03518530_037 = PRIM_CDR(g__03517534_037);
+Obj g__03518531_037 = PRIM_ISCONS(g__03518530_037);
+if (True == g__03518531_037) {
+Obj g__03518532_037 = PRIM_CDR(g__03517534_037);
+Obj g__03518533_037 = PRIM_CAR(g__03518532_037);
+Obj g__03517745_037 = g__03518533_037;
+Obj g__03518534_037 = PRIM_CDR(g__03517534_037);
+Obj g__03518535_037 = PRIM_CDR(g__03518534_037);
+Obj g__03518536_037 = PRIM_ISCONS(g__03518535_037);
+if (True == g__03518536_037) {
+Obj g__03518537_037 = PRIM_CDR(g__03517534_037);
+Obj g__03518538_037 = PRIM_CDR(g__03518537_037);
+Obj g__03518539_037 = PRIM_CAR(g__03518538_037);
+Obj g__03517746_037 = g__03518539_037;
+Obj g__03518540_037 = PRIM_CDR(g__03517534_037);
+Obj g__03518541_037 = PRIM_CDR(g__03518540_037);
+Obj g__03518542_037 = PRIM_CDR(g__03518541_037);
+Obj g__03518543_037 = PRIM_EQ(Nil, g__03518542_037);
+if (True == g__03518543_037) {
+R[1] = g__03517745_037;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517707_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517746_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517679_037);
+coraCall0(co, g__03517718_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517679_037);
+coraCall0(co, g__03517718_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517679_037);
+coraCall0(co, g__03517718_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517679_037);
+coraCall0(co, g__03517718_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517679_037);
+coraCall0(co, g__03517718_037);
 return;
 }
 }
@@ -6655,84 +6700,84 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517680_037 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
-Obj g__03518458_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518458_037) {
-Obj g__03518459_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518460_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518459_037);
-if (True == g__03518460_037) {
-Obj g__03518461_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518462_037 = PRIM_ISCONS(g__03518461_037);
-if (True == g__03518462_037) {
-Obj g__03518463_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518464_037 = PRIM_CAR(g__03518463_037);
-Obj g__03517703_037 = g__03518464_037;
-Obj g__03518465_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518466_037 = PRIM_CDR(g__03518465_037);
-Obj g__03518467_037 = PRIM_ISCONS(g__03518466_037);
-if (True == g__03518467_037) {
-Obj g__03518468_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518469_037 = PRIM_CDR(g__03518468_037);
-Obj g__03518470_037 = PRIM_CAR(g__03518469_037);
-Obj g__03517704_037 = g__03518470_037;
-Obj g__03518471_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518472_037 = PRIM_CDR(g__03518471_037);
-Obj g__03518473_037 = PRIM_CDR(g__03518472_037);
-Obj g__03518474_037 = PRIM_ISCONS(g__03518473_037);
-if (True == g__03518474_037) {
-Obj g__03518475_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518476_037 = PRIM_CDR(g__03518475_037);
-Obj g__03518477_037 = PRIM_CDR(g__03518476_037);
-Obj g__03518478_037 = PRIM_CAR(g__03518477_037);
-Obj g__03517705_037 = g__03518478_037;
-Obj g__03518479_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518480_037 = PRIM_CDR(g__03518479_037);
-Obj g__03518481_037 = PRIM_CDR(g__03518480_037);
-Obj g__03518482_037 = PRIM_CDR(g__03518481_037);
-Obj g__03518483_037 = PRIM_EQ(Nil, g__03518482_037);
-if (True == g__03518483_037) {
-Obj g__03518484_037 = makeCons(co->gc, g__03517705_037, Nil);
-Obj g__03518485_037 = makeCons(co->gc, g__03517704_037, g__03518484_037);
-Obj g__03518486_037 = makeCons(co->gc, g__03517703_037, g__03518485_037);
+Obj g__03517719_037 = makeNative(co->gc, 1, clofun43, 0, 1, closureRef(R[0], 0));
+Obj g__03518497_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518497_037) {
+Obj g__03518498_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518499_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518498_037);
+if (True == g__03518499_037) {
+Obj g__03518500_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518501_037 = PRIM_ISCONS(g__03518500_037);
+if (True == g__03518501_037) {
+Obj g__03518502_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518503_037 = PRIM_CAR(g__03518502_037);
+Obj g__03517742_037 = g__03518503_037;
+Obj g__03518504_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518505_037 = PRIM_CDR(g__03518504_037);
+Obj g__03518506_037 = PRIM_ISCONS(g__03518505_037);
+if (True == g__03518506_037) {
+Obj g__03518507_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518508_037 = PRIM_CDR(g__03518507_037);
+Obj g__03518509_037 = PRIM_CAR(g__03518508_037);
+Obj g__03517743_037 = g__03518509_037;
+Obj g__03518510_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518511_037 = PRIM_CDR(g__03518510_037);
+Obj g__03518512_037 = PRIM_CDR(g__03518511_037);
+Obj g__03518513_037 = PRIM_ISCONS(g__03518512_037);
+if (True == g__03518513_037) {
+Obj g__03518514_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518515_037 = PRIM_CDR(g__03518514_037);
+Obj g__03518516_037 = PRIM_CDR(g__03518515_037);
+Obj g__03518517_037 = PRIM_CAR(g__03518516_037);
+Obj g__03517744_037 = g__03518517_037;
+Obj g__03518518_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518519_037 = PRIM_CDR(g__03518518_037);
+Obj g__03518520_037 = PRIM_CDR(g__03518519_037);
+Obj g__03518521_037 = PRIM_CDR(g__03518520_037);
+Obj g__03518522_037 = PRIM_EQ(Nil, g__03518521_037);
+if (True == g__03518522_037) {
+Obj g__03518523_037 = makeCons(co->gc, g__03517744_037, Nil);
+Obj g__03518524_037 = makeCons(co->gc, g__03517743_037, g__03518523_037);
+Obj g__03518525_037 = makeCons(co->gc, g__03517742_037, g__03518524_037);
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518486_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518525_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517680_037);
+coraCall0(co, g__03517719_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517680_037);
+coraCall0(co, g__03517719_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517680_037);
+coraCall0(co, g__03517719_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517680_037);
+coraCall0(co, g__03517719_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517680_037);
+coraCall0(co, g__03517719_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517680_037);
+coraCall0(co, g__03517719_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518487_037= co->res;
+Obj g__03518526_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518487_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518526_037);
 return;
 }
 }
@@ -6742,67 +6787,67 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517681_037 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
-Obj g__03518438_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518438_037) {
-Obj g__03518439_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518440_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518439_037);
-if (True == g__03518440_037) {
-Obj g__03518441_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518442_037 = PRIM_ISCONS(g__03518441_037);
-if (True == g__03518442_037) {
-Obj g__03518443_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518444_037 = PRIM_CAR(g__03518443_037);
-Obj g__03517701_037 = g__03518444_037;
-Obj g__03518445_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518446_037 = PRIM_CDR(g__03518445_037);
-Obj g__03518447_037 = PRIM_ISCONS(g__03518446_037);
-if (True == g__03518447_037) {
-Obj g__03518448_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518449_037 = PRIM_CDR(g__03518448_037);
-Obj g__03518450_037 = PRIM_CAR(g__03518449_037);
-Obj g__03517702_037 = g__03518450_037;
-Obj g__03518451_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518452_037 = PRIM_CDR(g__03518451_037);
-Obj g__03518453_037 = PRIM_CDR(g__03518452_037);
-Obj g__03518454_037 = PRIM_EQ(Nil, g__03518453_037);
-if (True == g__03518454_037) {
-Obj g__03518455_037 = makeCons(co->gc, g__03517702_037, Nil);
-Obj g__03518456_037 = makeCons(co->gc, g__03517701_037, g__03518455_037);
+Obj g__03517720_037 = makeNative(co->gc, 3, clofun42, 0, 1, closureRef(R[0], 0));
+Obj g__03518477_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518477_037) {
+Obj g__03518478_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518479_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518478_037);
+if (True == g__03518479_037) {
+Obj g__03518480_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518481_037 = PRIM_ISCONS(g__03518480_037);
+if (True == g__03518481_037) {
+Obj g__03518482_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518483_037 = PRIM_CAR(g__03518482_037);
+Obj g__03517740_037 = g__03518483_037;
+Obj g__03518484_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518485_037 = PRIM_CDR(g__03518484_037);
+Obj g__03518486_037 = PRIM_ISCONS(g__03518485_037);
+if (True == g__03518486_037) {
+Obj g__03518487_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518488_037 = PRIM_CDR(g__03518487_037);
+Obj g__03518489_037 = PRIM_CAR(g__03518488_037);
+Obj g__03517741_037 = g__03518489_037;
+Obj g__03518490_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518491_037 = PRIM_CDR(g__03518490_037);
+Obj g__03518492_037 = PRIM_CDR(g__03518491_037);
+Obj g__03518493_037 = PRIM_EQ(Nil, g__03518492_037);
+if (True == g__03518493_037) {
+Obj g__03518494_037 = makeCons(co->gc, g__03517741_037, Nil);
+Obj g__03518495_037 = makeCons(co->gc, g__03517740_037, g__03518494_037);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518456_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518495_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517681_037);
+coraCall0(co, g__03517720_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517681_037);
+coraCall0(co, g__03517720_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517681_037);
+coraCall0(co, g__03517720_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517681_037);
+coraCall0(co, g__03517720_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517681_037);
+coraCall0(co, g__03517720_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518457_037= co->res;
+Obj g__03518496_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518457_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518496_037);
 return;
 }
 }
@@ -6812,106 +6857,106 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517682_037 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj g__03518408_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518408_037) {
-Obj g__03518409_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518410_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518409_037);
-if (True == g__03518410_037) {
-Obj g__03518411_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518412_037 = PRIM_ISCONS(g__03518411_037);
-if (True == g__03518412_037) {
-Obj g__03518413_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518414_037 = PRIM_CAR(g__03518413_037);
-Obj g__03517698_037 = g__03518414_037;
-Obj g__03518415_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518416_037 = PRIM_CDR(g__03518415_037);
-Obj g__03518417_037 = PRIM_ISCONS(g__03518416_037);
-if (True == g__03518417_037) {
-Obj g__03518418_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518419_037 = PRIM_CDR(g__03518418_037);
-Obj g__03518420_037 = PRIM_CAR(g__03518419_037);
-Obj g__03517699_037 = g__03518420_037;
-Obj g__03518421_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518422_037 = PRIM_CDR(g__03518421_037);
-Obj g__03518423_037 = PRIM_CDR(g__03518422_037);
-Obj g__03518424_037 = PRIM_ISCONS(g__03518423_037);
-if (True == g__03518424_037) {
-Obj g__03518425_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518426_037 = PRIM_CDR(g__03518425_037);
-Obj g__03518427_037 = PRIM_CDR(g__03518426_037);
-Obj g__03518428_037 = PRIM_CAR(g__03518427_037);
-Obj g__03517700_037 = g__03518428_037;
-Obj g__03518429_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518430_037 = PRIM_CDR(g__03518429_037);
-Obj g__03518431_037 = PRIM_CDR(g__03518430_037);
-Obj g__03518432_037 = PRIM_CDR(g__03518431_037);
-Obj g__03518433_037 = PRIM_EQ(Nil, g__03518432_037);
-if (True == g__03518433_037) {
-R[1] = g__03517700_037;
-R[2] = g__03517698_037;
+Obj g__03517721_037 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj g__03518447_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518447_037) {
+Obj g__03518448_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518449_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518448_037);
+if (True == g__03518449_037) {
+Obj g__03518450_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518451_037 = PRIM_ISCONS(g__03518450_037);
+if (True == g__03518451_037) {
+Obj g__03518452_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518453_037 = PRIM_CAR(g__03518452_037);
+Obj g__03517737_037 = g__03518453_037;
+Obj g__03518454_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518455_037 = PRIM_CDR(g__03518454_037);
+Obj g__03518456_037 = PRIM_ISCONS(g__03518455_037);
+if (True == g__03518456_037) {
+Obj g__03518457_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518458_037 = PRIM_CDR(g__03518457_037);
+Obj g__03518459_037 = PRIM_CAR(g__03518458_037);
+Obj g__03517738_037 = g__03518459_037;
+Obj g__03518460_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518461_037 = PRIM_CDR(g__03518460_037);
+Obj g__03518462_037 = PRIM_CDR(g__03518461_037);
+Obj g__03518463_037 = PRIM_ISCONS(g__03518462_037);
+if (True == g__03518463_037) {
+Obj g__03518464_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518465_037 = PRIM_CDR(g__03518464_037);
+Obj g__03518466_037 = PRIM_CDR(g__03518465_037);
+Obj g__03518467_037 = PRIM_CAR(g__03518466_037);
+Obj g__03517739_037 = g__03518467_037;
+Obj g__03518468_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518469_037 = PRIM_CDR(g__03518468_037);
+Obj g__03518470_037 = PRIM_CDR(g__03518469_037);
+Obj g__03518471_037 = PRIM_CDR(g__03518470_037);
+Obj g__03518472_037 = PRIM_EQ(Nil, g__03518471_037);
+if (True == g__03518472_037) {
+R[1] = g__03517739_037;
+R[2] = g__03517737_037;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517699_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517738_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517682_037);
+coraCall0(co, g__03517721_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517682_037);
+coraCall0(co, g__03517721_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517682_037);
+coraCall0(co, g__03517721_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517682_037);
+coraCall0(co, g__03517721_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517682_037);
+coraCall0(co, g__03517721_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517682_037);
+coraCall0(co, g__03517721_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518437_037= co->res;
-Obj g__03518434_037 = R[1];
+Obj g__03518476_037= co->res;
+Obj g__03518473_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03518434_037, g__03518437_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03518473_037, g__03518476_037);
 return;
 }
 case 2:
 {
-Obj g__03518435_037= co->res;
-Obj g__03517698_037 = R[1];
-Obj g__03518434_037 = R[2];
-Obj g__03518436_037 = makeCons(co->gc, g__03517698_037, Nil);
-R[1] = g__03518434_037;
+Obj g__03518474_037= co->res;
+Obj g__03517737_037 = R[1];
+Obj g__03518473_037 = R[2];
+Obj g__03518475_037 = makeCons(co->gc, g__03517737_037, Nil);
+R[1] = g__03518473_037;
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518435_037, g__03518436_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518474_037, g__03518475_037);
 return;
 }
 case 3:
 {
-Obj g__03518434_037= co->res;
-Obj g__03517700_037 = R[1];
-Obj g__03517698_037 = R[2];
-R[1] = g__03517698_037;
-R[2] = g__03518434_037;
+Obj g__03518473_037= co->res;
+Obj g__03517739_037 = R[1];
+Obj g__03517737_037 = R[2];
+R[1] = g__03517737_037;
+R[2] = g__03518473_037;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517700_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517739_037);
 return;
 }
 }
@@ -6921,38 +6966,38 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517683_037 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj g__03518398_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518398_037) {
-Obj g__03518399_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518400_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518399_037);
-if (True == g__03518400_037) {
-Obj g__03518401_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518402_037 = PRIM_ISCONS(g__03518401_037);
-if (True == g__03518402_037) {
-Obj g__03518403_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518404_037 = PRIM_CAR(g__03518403_037);
-Obj g__03517696_037 = g__03518404_037;
-Obj g__03518405_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518406_037 = PRIM_CDR(g__03518405_037);
-Obj g__03517697_037 = g__03518406_037;
-Obj g__03518407_037 = makeCons(co->gc, g__03517696_037, g__03517697_037);
+Obj g__03517722_037 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj g__03518437_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518437_037) {
+Obj g__03518438_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518439_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518438_037);
+if (True == g__03518439_037) {
+Obj g__03518440_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518441_037 = PRIM_ISCONS(g__03518440_037);
+if (True == g__03518441_037) {
+Obj g__03518442_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518443_037 = PRIM_CAR(g__03518442_037);
+Obj g__03517735_037 = g__03518443_037;
+Obj g__03518444_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518445_037 = PRIM_CDR(g__03518444_037);
+Obj g__03517736_037 = g__03518445_037;
+Obj g__03518446_037 = makeCons(co->gc, g__03517735_037, g__03517736_037);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03518407_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03518446_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517683_037);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517683_037);
+coraCall0(co, g__03517722_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517683_037);
+coraCall0(co, g__03517722_037);
 return;
 }
 }
@@ -6963,43 +7008,43 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517684_037 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj g__03518388_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518388_037) {
-Obj g__03518389_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518390_037 = PRIM_EQ(getBinding(co, packageID, 73).name, g__03518389_037);
-if (True == g__03518390_037) {
-Obj g__03518391_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518392_037 = PRIM_ISCONS(g__03518391_037);
-if (True == g__03518392_037) {
-Obj g__03518393_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518394_037 = PRIM_CAR(g__03518393_037);
-Obj g__03517695_037 = g__03518394_037;
-Obj g__03518395_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518396_037 = PRIM_CDR(g__03518395_037);
-Obj g__03518397_037 = PRIM_EQ(Nil, g__03518396_037);
-if (True == g__03518397_037) {
+Obj g__03517723_037 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj g__03518427_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518427_037) {
+Obj g__03518428_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518429_037 = PRIM_EQ(getBinding(co, packageID, 73).name, g__03518428_037);
+if (True == g__03518429_037) {
+Obj g__03518430_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518431_037 = PRIM_ISCONS(g__03518430_037);
+if (True == g__03518431_037) {
+Obj g__03518432_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518433_037 = PRIM_CAR(g__03518432_037);
+Obj g__03517734_037 = g__03518433_037;
+Obj g__03518434_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518435_037 = PRIM_CDR(g__03518434_037);
+Obj g__03518436_037 = PRIM_EQ(Nil, g__03518435_037);
+if (True == g__03518436_037) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517695_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517734_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517684_037);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517684_037);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517684_037);
+coraCall0(co, g__03517723_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517684_037);
+coraCall0(co, g__03517723_037);
 return;
 }
 }
@@ -7010,67 +7055,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517685_037 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj g__03518368_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518368_037) {
-Obj g__03518369_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518370_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518369_037);
-if (True == g__03518370_037) {
-Obj g__03518371_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518372_037 = PRIM_ISCONS(g__03518371_037);
-if (True == g__03518372_037) {
-Obj g__03518373_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518374_037 = PRIM_CAR(g__03518373_037);
-Obj g__03517693_037 = g__03518374_037;
-Obj g__03518375_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518376_037 = PRIM_CDR(g__03518375_037);
-Obj g__03518377_037 = PRIM_ISCONS(g__03518376_037);
-if (True == g__03518377_037) {
-Obj g__03518378_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518379_037 = PRIM_CDR(g__03518378_037);
-Obj g__03518380_037 = PRIM_CAR(g__03518379_037);
-Obj g__03517694_037 = g__03518380_037;
-Obj g__03518381_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518382_037 = PRIM_CDR(g__03518381_037);
-Obj g__03518383_037 = PRIM_CDR(g__03518382_037);
-Obj g__03518384_037 = PRIM_EQ(Nil, g__03518383_037);
-if (True == g__03518384_037) {
-Obj g__03518385_037 = makeCons(co->gc, g__03517694_037, Nil);
-Obj g__03518386_037 = makeCons(co->gc, g__03517693_037, g__03518385_037);
+Obj g__03517724_037 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj g__03518407_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518407_037) {
+Obj g__03518408_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518409_037 = PRIM_EQ(getBinding(co, packageID, 74).name, g__03518408_037);
+if (True == g__03518409_037) {
+Obj g__03518410_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518411_037 = PRIM_ISCONS(g__03518410_037);
+if (True == g__03518411_037) {
+Obj g__03518412_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518413_037 = PRIM_CAR(g__03518412_037);
+Obj g__03517732_037 = g__03518413_037;
+Obj g__03518414_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518415_037 = PRIM_CDR(g__03518414_037);
+Obj g__03518416_037 = PRIM_ISCONS(g__03518415_037);
+if (True == g__03518416_037) {
+Obj g__03518417_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518418_037 = PRIM_CDR(g__03518417_037);
+Obj g__03518419_037 = PRIM_CAR(g__03518418_037);
+Obj g__03517733_037 = g__03518419_037;
+Obj g__03518420_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518421_037 = PRIM_CDR(g__03518420_037);
+Obj g__03518422_037 = PRIM_CDR(g__03518421_037);
+Obj g__03518423_037 = PRIM_EQ(Nil, g__03518422_037);
+if (True == g__03518423_037) {
+Obj g__03518424_037 = makeCons(co->gc, g__03517733_037, Nil);
+Obj g__03518425_037 = makeCons(co->gc, g__03517732_037, g__03518424_037);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518386_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518425_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517685_037);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517685_037);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517685_037);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517685_037);
+coraCall0(co, g__03517724_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517685_037);
+coraCall0(co, g__03517724_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518387_037= co->res;
+Obj g__03518426_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518387_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518426_037);
 return;
 }
 }
@@ -7080,43 +7125,43 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517686_037 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
-Obj g__03518358_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518358_037) {
-Obj g__03518359_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518360_037 = PRIM_EQ(getBinding(co, packageID, 75).name, g__03518359_037);
-if (True == g__03518360_037) {
-Obj g__03518361_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518362_037 = PRIM_ISCONS(g__03518361_037);
-if (True == g__03518362_037) {
-Obj g__03518363_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518364_037 = PRIM_CAR(g__03518363_037);
-Obj g__03517692_037 = g__03518364_037;
-Obj g__03518365_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518366_037 = PRIM_CDR(g__03518365_037);
-Obj g__03518367_037 = PRIM_EQ(Nil, g__03518366_037);
-if (True == g__03518367_037) {
+Obj g__03517725_037 = makeNative(co->gc, 2, clofun37, 0, 1, closureRef(R[0], 0));
+Obj g__03518397_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518397_037) {
+Obj g__03518398_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518399_037 = PRIM_EQ(getBinding(co, packageID, 75).name, g__03518398_037);
+if (True == g__03518399_037) {
+Obj g__03518400_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518401_037 = PRIM_ISCONS(g__03518400_037);
+if (True == g__03518401_037) {
+Obj g__03518402_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518403_037 = PRIM_CAR(g__03518402_037);
+Obj g__03517731_037 = g__03518403_037;
+Obj g__03518404_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518405_037 = PRIM_CDR(g__03518404_037);
+Obj g__03518406_037 = PRIM_EQ(Nil, g__03518405_037);
+if (True == g__03518406_037) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517692_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517731_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517686_037);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517686_037);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517686_037);
+coraCall0(co, g__03517725_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517686_037);
+coraCall0(co, g__03517725_037);
 return;
 }
 }
@@ -7127,67 +7172,67 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517687_037 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj g__03518340_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518340_037) {
-Obj g__03518341_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518342_037 = PRIM_EQ(getBinding(co, packageID, 76).name, g__03518341_037);
-if (True == g__03518342_037) {
-Obj g__03518343_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518344_037 = PRIM_ISCONS(g__03518343_037);
-if (True == g__03518344_037) {
-Obj g__03518345_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518346_037 = PRIM_CAR(g__03518345_037);
-Obj g__03517690_037 = g__03518346_037;
-Obj g__03518347_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518348_037 = PRIM_CDR(g__03518347_037);
-Obj g__03518349_037 = PRIM_ISCONS(g__03518348_037);
-if (True == g__03518349_037) {
-Obj g__03518350_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518351_037 = PRIM_CDR(g__03518350_037);
-Obj g__03518352_037 = PRIM_CAR(g__03518351_037);
-Obj g__03517691_037 = g__03518352_037;
-Obj g__03518353_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518354_037 = PRIM_CDR(g__03518353_037);
-Obj g__03518355_037 = PRIM_CDR(g__03518354_037);
-Obj g__03518356_037 = PRIM_EQ(Nil, g__03518355_037);
-if (True == g__03518356_037) {
-R[1] = g__03517690_037;
+Obj g__03517726_037 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj g__03518379_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518379_037) {
+Obj g__03518380_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518381_037 = PRIM_EQ(getBinding(co, packageID, 76).name, g__03518380_037);
+if (True == g__03518381_037) {
+Obj g__03518382_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518383_037 = PRIM_ISCONS(g__03518382_037);
+if (True == g__03518383_037) {
+Obj g__03518384_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518385_037 = PRIM_CAR(g__03518384_037);
+Obj g__03517729_037 = g__03518385_037;
+Obj g__03518386_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518387_037 = PRIM_CDR(g__03518386_037);
+Obj g__03518388_037 = PRIM_ISCONS(g__03518387_037);
+if (True == g__03518388_037) {
+Obj g__03518389_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518390_037 = PRIM_CDR(g__03518389_037);
+Obj g__03518391_037 = PRIM_CAR(g__03518390_037);
+Obj g__03517730_037 = g__03518391_037;
+Obj g__03518392_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518393_037 = PRIM_CDR(g__03518392_037);
+Obj g__03518394_037 = PRIM_CDR(g__03518393_037);
+Obj g__03518395_037 = PRIM_EQ(Nil, g__03518394_037);
+if (True == g__03518395_037) {
+R[1] = g__03517729_037;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517691_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 77)), g__03517730_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517687_037);
+coraCall0(co, g__03517726_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517687_037);
+coraCall0(co, g__03517726_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517687_037);
+coraCall0(co, g__03517726_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517687_037);
+coraCall0(co, g__03517726_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517687_037);
+coraCall0(co, g__03517726_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518357_037= co->res;
-Obj g__03517690_037 = R[1];
+Obj g__03518396_037= co->res;
+Obj g__03517729_037 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518357_037, g__03517690_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03518396_037, g__03517729_037);
 return;
 }
 }
@@ -7197,15 +7242,15 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518335_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518335_037) {
-Obj g__03518336_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517688_037 = g__03518336_037;
-Obj g__03518337_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517689_037 = g__03518337_037;
-Obj g__03518338_037 = makeCons(co->gc, g__03517688_037, g__03517689_037);
+Obj g__03518374_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518374_037) {
+Obj g__03518375_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517727_037 = g__03518375_037;
+Obj g__03518376_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517728_037 = g__03518376_037;
+Obj g__03518377_037 = makeCons(co->gc, g__03517727_037, g__03517728_037);
 saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518338_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), globalRef(co, getBinding(co, packageID, 77)), g__03518377_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -7215,9 +7260,9 @@ return;
 }
 case 1:
 {
-Obj g__03518339_037= co->res;
+Obj g__03518378_037= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518339_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 83)), Nil, g__03518378_037);
 return;
 }
 }
@@ -7227,42 +7272,42 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517487_037 = R[1];
-Obj g__03517672_037 = makeNative(co->gc, 1, clofun34, 0, 1, g__03517487_037);
-Obj g__03518321_037 = PRIM_ISCONS(g__03517487_037);
-if (True == g__03518321_037) {
-Obj g__03518322_037 = PRIM_CAR(g__03517487_037);
-Obj g__03518323_037 = PRIM_EQ(getBinding(co, packageID, 97).name, g__03518322_037);
-if (True == g__03518323_037) {
-Obj g__03518324_037 = PRIM_CDR(g__03517487_037);
-Obj g__03518325_037 = PRIM_ISCONS(g__03518324_037);
-if (True == g__03518325_037) {
-Obj g__03518326_037 = PRIM_CDR(g__03517487_037);
-Obj g__03518327_037 = PRIM_CAR(g__03518326_037);
-Obj g__03518328_037 = PRIM_CDR(g__03517487_037);
-Obj g__03518329_037 = PRIM_CDR(g__03518328_037);
-Obj g__03518330_037 = PRIM_EQ(Nil, g__03518329_037);
-if (True == g__03518330_037) {
+Obj g__03517526_037 = R[1];
+Obj g__03517711_037 = makeNative(co->gc, 1, clofun34, 0, 1, g__03517526_037);
+Obj g__03518360_037 = PRIM_ISCONS(g__03517526_037);
+if (True == g__03518360_037) {
+Obj g__03518361_037 = PRIM_CAR(g__03517526_037);
+Obj g__03518362_037 = PRIM_EQ(getBinding(co, packageID, 97).name, g__03518361_037);
+if (True == g__03518362_037) {
+Obj g__03518363_037 = PRIM_CDR(g__03517526_037);
+Obj g__03518364_037 = PRIM_ISCONS(g__03518363_037);
+if (True == g__03518364_037) {
+Obj g__03518365_037 = PRIM_CDR(g__03517526_037);
+Obj g__03518366_037 = PRIM_CAR(g__03518365_037);
+Obj g__03518367_037 = PRIM_CDR(g__03517526_037);
+Obj g__03518368_037 = PRIM_CDR(g__03518367_037);
+Obj g__03518369_037 = PRIM_EQ(Nil, g__03518368_037);
+if (True == g__03518369_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517672_037);
+coraCall0(co, g__03517711_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517672_037);
+coraCall0(co, g__03517711_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517672_037);
+coraCall0(co, g__03517711_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517672_037);
+coraCall0(co, g__03517711_037);
 return;
 }
 }
@@ -7273,41 +7318,41 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517673_037 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj g__03518311_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518311_037) {
-Obj g__03518312_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518313_037 = PRIM_EQ(getBinding(co, packageID, 95).name, g__03518312_037);
-if (True == g__03518313_037) {
-Obj g__03518314_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518315_037 = PRIM_ISCONS(g__03518314_037);
-if (True == g__03518315_037) {
-Obj g__03518316_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518317_037 = PRIM_CAR(g__03518316_037);
-Obj g__03518318_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518319_037 = PRIM_CDR(g__03518318_037);
-Obj g__03518320_037 = PRIM_EQ(Nil, g__03518319_037);
-if (True == g__03518320_037) {
+Obj g__03517712_037 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj g__03518350_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518350_037) {
+Obj g__03518351_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518352_037 = PRIM_EQ(getBinding(co, packageID, 95).name, g__03518351_037);
+if (True == g__03518352_037) {
+Obj g__03518353_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518354_037 = PRIM_ISCONS(g__03518353_037);
+if (True == g__03518354_037) {
+Obj g__03518355_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518356_037 = PRIM_CAR(g__03518355_037);
+Obj g__03518357_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518358_037 = PRIM_CDR(g__03518357_037);
+Obj g__03518359_037 = PRIM_EQ(Nil, g__03518358_037);
+if (True == g__03518359_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517673_037);
+coraCall0(co, g__03517712_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517673_037);
+coraCall0(co, g__03517712_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517673_037);
+coraCall0(co, g__03517712_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517673_037);
+coraCall0(co, g__03517712_037);
 return;
 }
 }
@@ -7318,41 +7363,41 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517674_037 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj g__03518301_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518301_037) {
-Obj g__03518302_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518303_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03518302_037);
-if (True == g__03518303_037) {
-Obj g__03518304_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518305_037 = PRIM_ISCONS(g__03518304_037);
-if (True == g__03518305_037) {
-Obj g__03518306_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518307_037 = PRIM_CAR(g__03518306_037);
-Obj g__03518308_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518309_037 = PRIM_CDR(g__03518308_037);
-Obj g__03518310_037 = PRIM_EQ(Nil, g__03518309_037);
-if (True == g__03518310_037) {
+Obj g__03517713_037 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj g__03518340_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518340_037) {
+Obj g__03518341_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518342_037 = PRIM_EQ(getBinding(co, packageID, 92).name, g__03518341_037);
+if (True == g__03518342_037) {
+Obj g__03518343_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518344_037 = PRIM_ISCONS(g__03518343_037);
+if (True == g__03518344_037) {
+Obj g__03518345_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518346_037 = PRIM_CAR(g__03518345_037);
+Obj g__03518347_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518348_037 = PRIM_CDR(g__03518347_037);
+Obj g__03518349_037 = PRIM_EQ(Nil, g__03518348_037);
+if (True == g__03518349_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517674_037);
+coraCall0(co, g__03517713_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517674_037);
+coraCall0(co, g__03517713_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517674_037);
+coraCall0(co, g__03517713_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517674_037);
+coraCall0(co, g__03517713_037);
 return;
 }
 }
@@ -7363,41 +7408,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517675_037 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj g__03518291_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518291_037) {
-Obj g__03518292_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518293_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518292_037);
-if (True == g__03518293_037) {
-Obj g__03518294_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518295_037 = PRIM_ISCONS(g__03518294_037);
-if (True == g__03518295_037) {
-Obj g__03518296_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518297_037 = PRIM_CAR(g__03518296_037);
-Obj g__03518298_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518299_037 = PRIM_CDR(g__03518298_037);
-Obj g__03518300_037 = PRIM_EQ(Nil, g__03518299_037);
-if (True == g__03518300_037) {
+Obj g__03517714_037 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj g__03518330_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518330_037) {
+Obj g__03518331_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518332_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518331_037);
+if (True == g__03518332_037) {
+Obj g__03518333_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518334_037 = PRIM_ISCONS(g__03518333_037);
+if (True == g__03518334_037) {
+Obj g__03518335_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518336_037 = PRIM_CAR(g__03518335_037);
+Obj g__03518337_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518338_037 = PRIM_CDR(g__03518337_037);
+Obj g__03518339_037 = PRIM_EQ(Nil, g__03518338_037);
+if (True == g__03518339_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517675_037);
+coraCall0(co, g__03517714_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517675_037);
+coraCall0(co, g__03517714_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517675_037);
+coraCall0(co, g__03517714_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517675_037);
+coraCall0(co, g__03517714_037);
 return;
 }
 }
@@ -7408,41 +7453,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517676_037 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
-Obj g__03518281_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518281_037) {
-Obj g__03518282_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518283_037 = PRIM_EQ(getBinding(co, packageID, 78).name, g__03518282_037);
-if (True == g__03518283_037) {
-Obj g__03518284_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518285_037 = PRIM_ISCONS(g__03518284_037);
-if (True == g__03518285_037) {
-Obj g__03518286_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518287_037 = PRIM_CAR(g__03518286_037);
-Obj g__03518288_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518289_037 = PRIM_CDR(g__03518288_037);
-Obj g__03518290_037 = PRIM_EQ(Nil, g__03518289_037);
-if (True == g__03518290_037) {
+Obj g__03517715_037 = makeNative(co->gc, 2, clofun30, 0, 1, closureRef(R[0], 0));
+Obj g__03518320_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518320_037) {
+Obj g__03518321_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518322_037 = PRIM_EQ(getBinding(co, packageID, 78).name, g__03518321_037);
+if (True == g__03518322_037) {
+Obj g__03518323_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518324_037 = PRIM_ISCONS(g__03518323_037);
+if (True == g__03518324_037) {
+Obj g__03518325_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518326_037 = PRIM_CAR(g__03518325_037);
+Obj g__03518327_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518328_037 = PRIM_CDR(g__03518327_037);
+Obj g__03518329_037 = PRIM_EQ(Nil, g__03518328_037);
+if (True == g__03518329_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517676_037);
+coraCall0(co, g__03517715_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517676_037);
+coraCall0(co, g__03517715_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517676_037);
+coraCall0(co, g__03517715_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517676_037);
+coraCall0(co, g__03517715_037);
 return;
 }
 }
@@ -7453,50 +7498,50 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517677_037 = makeNative(co->gc, 1, clofun29, 0, 0);
-Obj g__03518271_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518271_037) {
-Obj g__03518272_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518273_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518272_037);
-if (True == g__03518273_037) {
-Obj g__03518274_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518275_037 = PRIM_ISCONS(g__03518274_037);
-if (True == g__03518275_037) {
-Obj g__03518276_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518277_037 = PRIM_CAR(g__03518276_037);
-Obj g__03517678_037 = g__03518277_037;
-Obj g__03518278_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518279_037 = PRIM_CDR(g__03518278_037);
-R[1] = g__03517677_037;
+Obj g__03517716_037 = makeNative(co->gc, 1, clofun29, 0, 0);
+Obj g__03518310_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518310_037) {
+Obj g__03518311_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518312_037 = PRIM_EQ(getBinding(co, packageID, 79).name, g__03518311_037);
+if (True == g__03518312_037) {
+Obj g__03518313_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518314_037 = PRIM_ISCONS(g__03518313_037);
+if (True == g__03518314_037) {
+Obj g__03518315_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518316_037 = PRIM_CAR(g__03518315_037);
+Obj g__03517717_037 = g__03518316_037;
+Obj g__03518317_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518318_037 = PRIM_CDR(g__03518317_037);
+R[1] = g__03517716_037;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517678_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517717_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517677_037);
+coraCall0(co, g__03517716_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517677_037);
+coraCall0(co, g__03517716_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517677_037);
+coraCall0(co, g__03517716_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518280_037= co->res;
-Obj g__03517677_037 = R[1];
-if (True == g__03518280_037) {
+Obj g__03518319_037= co->res;
+Obj g__03517716_037 = R[1];
+if (True == g__03518319_037) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517677_037);
+coraCall0(co, g__03517716_037);
 return;
 }
 }
@@ -7517,46 +7562,46 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517482_037 = R[1];
-Obj g__03517483_037 = R[2];
-Obj g__03518260_037 = PRIM_EQ(Nil, g__03517482_037);
-if (True == g__03518260_037) {
+Obj g__03517521_037 = R[1];
+Obj g__03517522_037 = R[2];
+Obj g__03518299_037 = PRIM_EQ(Nil, g__03517521_037);
+if (True == g__03518299_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03517667_037 = makeNative(co->gc, 2, clofun27, 0, 2, g__03517482_037, g__03517483_037);
-Obj g__03518266_037 = PRIM_ISCONS(g__03517482_037);
-if (True == g__03518266_037) {
-Obj g__03518267_037 = PRIM_CAR(g__03517482_037);
-Obj g__03517670_037 = g__03518267_037;
-Obj g__03518268_037 = PRIM_CDR(g__03517482_037);
-Obj g__03517671_037 = g__03518268_037;
-R[1] = g__03517671_037;
-R[2] = g__03517483_037;
-R[3] = g__03517667_037;
+Obj g__03517706_037 = makeNative(co->gc, 2, clofun27, 0, 2, g__03517521_037, g__03517522_037);
+Obj g__03518305_037 = PRIM_ISCONS(g__03517521_037);
+if (True == g__03518305_037) {
+Obj g__03518306_037 = PRIM_CAR(g__03517521_037);
+Obj g__03517709_037 = g__03518306_037;
+Obj g__03518307_037 = PRIM_CDR(g__03517521_037);
+Obj g__03517710_037 = g__03518307_037;
+R[1] = g__03517710_037;
+R[2] = g__03517522_037;
+R[3] = g__03517706_037;
 saveCont(co, clofun28, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), g__03517670_037, g__03517483_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), g__03517709_037, g__03517522_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517667_037);
+coraCall0(co, g__03517706_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03518269_037= co->res;
-Obj g__03517671_037 = R[1];
-Obj g__03517483_037 = R[2];
-Obj g__03517667_037 = R[3];
-if (True == g__03518269_037) {
+Obj g__03518308_037= co->res;
+Obj g__03517710_037 = R[1];
+Obj g__03517522_037 = R[2];
+Obj g__03517706_037 = R[3];
+if (True == g__03518308_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03517671_037, g__03517483_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03517710_037, g__03517522_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517667_037);
+coraCall0(co, g__03517706_037);
 return;
 }
 }
@@ -7567,15 +7612,15 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518261_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518261_037) {
-Obj g__03518262_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517668_037 = g__03518262_037;
-Obj g__03518263_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517669_037 = g__03518263_037;
-R[1] = g__03517668_037;
+Obj g__03518300_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518300_037) {
+Obj g__03518301_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517707_037 = g__03518301_037;
+Obj g__03518302_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517708_037 = g__03518302_037;
+R[1] = g__03517707_037;
 saveCont(co, clofun27, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03517669_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), g__03517708_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7585,10 +7630,10 @@ return;
 }
 case 1:
 {
-Obj g__03518264_037= co->res;
-Obj g__03517668_037 = R[1];
-Obj g__03518265_037 = makeCons(co->gc, g__03517668_037, g__03518264_037);
-coraReturn(co, g__03518265_037);
+Obj g__03518303_037= co->res;
+Obj g__03517707_037 = R[1];
+Obj g__03518304_037 = makeCons(co->gc, g__03517707_037, g__03518303_037);
+coraReturn(co, g__03518304_037);
 return;
 }
 }
@@ -7598,46 +7643,46 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517477_037 = R[1];
-Obj g__03517478_037 = R[2];
-Obj g__03518249_037 = PRIM_EQ(Nil, g__03517477_037);
-if (True == g__03518249_037) {
-coraReturn(co, g__03517478_037);
+Obj g__03517516_037 = R[1];
+Obj g__03517517_037 = R[2];
+Obj g__03518288_037 = PRIM_EQ(Nil, g__03517516_037);
+if (True == g__03518288_037) {
+coraReturn(co, g__03517517_037);
 return;
 } else {
-Obj g__03517662_037 = makeNative(co->gc, 2, clofun25, 0, 2, g__03517477_037, g__03517478_037);
-Obj g__03518255_037 = PRIM_ISCONS(g__03517477_037);
-if (True == g__03518255_037) {
-Obj g__03518256_037 = PRIM_CAR(g__03517477_037);
-Obj g__03517665_037 = g__03518256_037;
-Obj g__03518257_037 = PRIM_CDR(g__03517477_037);
-Obj g__03517666_037 = g__03518257_037;
-R[1] = g__03517666_037;
-R[2] = g__03517478_037;
-R[3] = g__03517662_037;
+Obj g__03517701_037 = makeNative(co->gc, 2, clofun25, 0, 2, g__03517516_037, g__03517517_037);
+Obj g__03518294_037 = PRIM_ISCONS(g__03517516_037);
+if (True == g__03518294_037) {
+Obj g__03518295_037 = PRIM_CAR(g__03517516_037);
+Obj g__03517704_037 = g__03518295_037;
+Obj g__03518296_037 = PRIM_CDR(g__03517516_037);
+Obj g__03517705_037 = g__03518296_037;
+R[1] = g__03517705_037;
+R[2] = g__03517517_037;
+R[3] = g__03517701_037;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), g__03517665_037, g__03517478_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), g__03517704_037, g__03517517_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517662_037);
+coraCall0(co, g__03517701_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03518258_037= co->res;
-Obj g__03517666_037 = R[1];
-Obj g__03517478_037 = R[2];
-Obj g__03517662_037 = R[3];
-if (True == g__03518258_037) {
+Obj g__03518297_037= co->res;
+Obj g__03517705_037 = R[1];
+Obj g__03517517_037 = R[2];
+Obj g__03517701_037 = R[3];
+if (True == g__03518297_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03517666_037, g__03517478_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03517705_037, g__03517517_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517662_037);
+coraCall0(co, g__03517701_037);
 return;
 }
 }
@@ -7648,15 +7693,15 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518250_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518250_037) {
-Obj g__03518251_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517663_037 = g__03518251_037;
-Obj g__03518252_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517664_037 = g__03518252_037;
-R[1] = g__03517663_037;
+Obj g__03518289_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518289_037) {
+Obj g__03518290_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517702_037 = g__03518290_037;
+Obj g__03518291_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517703_037 = g__03518291_037;
+R[1] = g__03517702_037;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03517664_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 83)), g__03517703_037, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7666,10 +7711,10 @@ return;
 }
 case 1:
 {
-Obj g__03518253_037= co->res;
-Obj g__03517663_037 = R[1];
-Obj g__03518254_037 = makeCons(co->gc, g__03517663_037, g__03518253_037);
-coraReturn(co, g__03518254_037);
+Obj g__03518292_037= co->res;
+Obj g__03517702_037 = R[1];
+Obj g__03518293_037 = makeCons(co->gc, g__03517702_037, g__03518292_037);
+coraReturn(co, g__03518293_037);
 return;
 }
 }
@@ -7679,66 +7724,66 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517461_037 = R[1];
-Obj g__03517462_037 = R[2];
-Obj g__03517463_037 = R[3];
-Obj g__03517622_037 = makeNative(co->gc, 2, clofun23, 1, 3, g__03517461_037, g__03517463_037, g__03517462_037);
-R[1] = g__03517463_037;
-R[2] = g__03517622_037;
+Obj g__03517500_037 = R[1];
+Obj g__03517501_037 = R[2];
+Obj g__03517502_037 = R[3];
+Obj g__03517661_037 = makeNative(co->gc, 2, clofun23, 1, 3, g__03517500_037, g__03517502_037, g__03517501_037);
+R[1] = g__03517502_037;
+R[2] = g__03517661_037;
 saveCont(co, clofun24, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517463_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 85)), g__03517502_037);
 return;
 }
 case 1:
 {
-Obj g__03518247_037= co->res;
-Obj g__03517622_037 = R[1];
-if (True == g__03518247_037) {
+Obj g__03518286_037= co->res;
+Obj g__03517661_037 = R[1];
+if (True == g__03518286_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517622_037, True);
+coraCall1(co, g__03517661_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517622_037, False);
+coraCall1(co, g__03517661_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03518246_037= co->res;
-Obj g__03517463_037 = R[1];
-Obj g__03517622_037 = R[2];
-if (True == g__03518246_037) {
+Obj g__03518285_037= co->res;
+Obj g__03517502_037 = R[1];
+Obj g__03517661_037 = R[2];
+if (True == g__03518285_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517622_037, True);
+coraCall1(co, g__03517661_037, True);
 return;
 } else {
-R[1] = g__03517622_037;
+R[1] = g__03517661_037;
 saveCont(co, clofun24, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517463_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517502_037);
 return;
 }
 }
 case 3:
 {
-Obj g__03518244_037= co->res;
-Obj g__03517463_037 = R[1];
-Obj g__03517622_037 = R[2];
-if (True == g__03518244_037) {
+Obj g__03518283_037= co->res;
+Obj g__03517502_037 = R[1];
+Obj g__03517661_037 = R[2];
+if (True == g__03518283_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517622_037, True);
+coraCall1(co, g__03517661_037, True);
 return;
 } else {
-Obj g__03518245_037 = primIsString(g__03517463_037);
-if (True == g__03518245_037) {
+Obj g__03518284_037 = primIsString(g__03517502_037);
+if (True == g__03518284_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517622_037, True);
+coraCall1(co, g__03517661_037, True);
 return;
 } else {
-R[1] = g__03517463_037;
-R[2] = g__03517622_037;
+R[1] = g__03517502_037;
+R[2] = g__03517661_037;
 saveCont(co, clofun24, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), g__03517463_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), g__03517502_037);
 return;
 }
 }
@@ -7750,69 +7795,69 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517621_037 = R[1];
-if (True == g__03517621_037) {
-Obj g__03518008_037 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj g__03518009_037 = makeCons(co->gc, getBinding(co, packageID, 97).name, g__03518008_037);
-coraReturn(co, g__03518009_037);
-return;
-} else {
-Obj g__03517623_037 = makeNative(co->gc, 4, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj g__03518230_037 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == g__03518230_037) {
-Obj g__03518231_037 = PRIM_CAR(closureRef(R[0], 1));
-Obj g__03518232_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518231_037);
-if (True == g__03518232_037) {
-Obj g__03518233_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03518234_037 = PRIM_ISCONS(g__03518233_037);
-if (True == g__03518234_037) {
-Obj g__03518235_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03518236_037 = PRIM_CAR(g__03518235_037);
-Obj g__03517661_037 = g__03518236_037;
-Obj g__03518237_037 = PRIM_CDR(closureRef(R[0], 1));
-Obj g__03518238_037 = PRIM_CDR(g__03518237_037);
-Obj g__03518239_037 = PRIM_EQ(Nil, g__03518238_037);
-if (True == g__03518239_037) {
-Obj g__03518240_037 = primIsSymbol(g__03517661_037);
-if (True == g__03518240_037) {
-R[1] = g__03517661_037;
+Obj g__03517660_037 = R[1];
+if (True == g__03517660_037) {
+Obj g__03518047_037 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj g__03518048_037 = makeCons(co->gc, getBinding(co, packageID, 97).name, g__03518047_037);
+coraReturn(co, g__03518048_037);
+return;
+} else {
+Obj g__03517662_037 = makeNative(co->gc, 4, clofun22, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj g__03518269_037 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == g__03518269_037) {
+Obj g__03518270_037 = PRIM_CAR(closureRef(R[0], 1));
+Obj g__03518271_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518270_037);
+if (True == g__03518271_037) {
+Obj g__03518272_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03518273_037 = PRIM_ISCONS(g__03518272_037);
+if (True == g__03518273_037) {
+Obj g__03518274_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03518275_037 = PRIM_CAR(g__03518274_037);
+Obj g__03517700_037 = g__03518275_037;
+Obj g__03518276_037 = PRIM_CDR(closureRef(R[0], 1));
+Obj g__03518277_037 = PRIM_CDR(g__03518276_037);
+Obj g__03518278_037 = PRIM_EQ(Nil, g__03518277_037);
+if (True == g__03518278_037) {
+Obj g__03518279_037 = primIsSymbol(g__03517700_037);
+if (True == g__03518279_037) {
+R[1] = g__03517700_037;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), g__03517661_037, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), g__03517700_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517623_037);
+coraCall0(co, g__03517662_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517623_037);
+coraCall0(co, g__03517662_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517623_037);
+coraCall0(co, g__03517662_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517623_037);
+coraCall0(co, g__03517662_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517623_037);
+coraCall0(co, g__03517662_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03518241_037= co->res;
-Obj g__03517661_037 = R[1];
-Obj g__03518242_037 = makeCons(co->gc, g__03517661_037, Nil);
-Obj g__03518243_037 = makeCons(co->gc, getBinding(co, packageID, 97).name, g__03518242_037);
-coraReturn(co, g__03518243_037);
+Obj g__03518280_037= co->res;
+Obj g__03517700_037 = R[1];
+Obj g__03518281_037 = makeCons(co->gc, g__03517700_037, Nil);
+Obj g__03518282_037 = makeCons(co->gc, getBinding(co, packageID, 97).name, g__03518281_037);
+coraReturn(co, g__03518282_037);
 return;
 }
 }
@@ -7822,88 +7867,88 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517624_037 = makeNative(co->gc, 1, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518202_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518202_037) {
-Obj g__03518203_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518204_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518203_037);
-if (True == g__03518204_037) {
-Obj g__03518205_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518206_037 = PRIM_ISCONS(g__03518205_037);
-if (True == g__03518206_037) {
-Obj g__03518207_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518208_037 = PRIM_CAR(g__03518207_037);
-Obj g__03518209_037 = PRIM_ISCONS(g__03518208_037);
-if (True == g__03518209_037) {
-Obj g__03518210_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518211_037 = PRIM_CAR(g__03518210_037);
-Obj g__03518212_037 = PRIM_CAR(g__03518211_037);
-Obj g__03517659_037 = g__03518212_037;
-Obj g__03518213_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518214_037 = PRIM_CAR(g__03518213_037);
-Obj g__03518215_037 = PRIM_CDR(g__03518214_037);
-Obj g__03517660_037 = g__03518215_037;
-Obj g__03518216_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518217_037 = PRIM_CDR(g__03518216_037);
-Obj g__03518218_037 = PRIM_EQ(Nil, g__03518217_037);
-if (True == g__03518218_037) {
-Obj g__03518219_037 = makeCons(co->gc, getBinding(co, packageID, 119).name, Nil);
-Obj g__03518220_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03518219_037);
-R[1] = g__03517659_037;
-R[2] = g__03517660_037;
-R[3] = g__03518220_037;
+Obj g__03517663_037 = makeNative(co->gc, 1, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518241_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518241_037) {
+Obj g__03518242_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518243_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518242_037);
+if (True == g__03518243_037) {
+Obj g__03518244_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518245_037 = PRIM_ISCONS(g__03518244_037);
+if (True == g__03518245_037) {
+Obj g__03518246_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518247_037 = PRIM_CAR(g__03518246_037);
+Obj g__03518248_037 = PRIM_ISCONS(g__03518247_037);
+if (True == g__03518248_037) {
+Obj g__03518249_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518250_037 = PRIM_CAR(g__03518249_037);
+Obj g__03518251_037 = PRIM_CAR(g__03518250_037);
+Obj g__03517698_037 = g__03518251_037;
+Obj g__03518252_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518253_037 = PRIM_CAR(g__03518252_037);
+Obj g__03518254_037 = PRIM_CDR(g__03518253_037);
+Obj g__03517699_037 = g__03518254_037;
+Obj g__03518255_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518256_037 = PRIM_CDR(g__03518255_037);
+Obj g__03518257_037 = PRIM_EQ(Nil, g__03518256_037);
+if (True == g__03518257_037) {
+Obj g__03518258_037 = makeCons(co->gc, getBinding(co, packageID, 119).name, Nil);
+Obj g__03518259_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03518258_037);
+R[1] = g__03517698_037;
+R[2] = g__03517699_037;
+R[3] = g__03518259_037;
 saveCont(co, clofun22, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517624_037);
+coraCall0(co, g__03517663_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517624_037);
+coraCall0(co, g__03517663_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517624_037);
+coraCall0(co, g__03517663_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517624_037);
+coraCall0(co, g__03517663_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517624_037);
+coraCall0(co, g__03517663_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518228_037= co->res;
-Obj g__03518220_037 = R[1];
-Obj g__03518229_037 = makeCons(co->gc, g__03518220_037, g__03518228_037);
-coraReturn(co, g__03518229_037);
+Obj g__03518267_037= co->res;
+Obj g__03518259_037 = R[1];
+Obj g__03518268_037 = makeCons(co->gc, g__03518259_037, g__03518267_037);
+coraReturn(co, g__03518268_037);
 return;
 }
 case 2:
 {
-Obj g__03518221_037= co->res;
-Obj g__03517659_037 = R[1];
-Obj g__03517660_037 = R[2];
-Obj g__03518220_037 = R[3];
-Obj g__03518222_037 = makeCons(co->gc, g__03517659_037, Nil);
-Obj g__03518223_037 = makeCons(co->gc, getBinding(co, packageID, 86).name, g__03518222_037);
-Obj g__03518224_037 = makeCons(co->gc, g__03517660_037, Nil);
-Obj g__03518225_037 = makeCons(co->gc, getBinding(co, packageID, 86).name, g__03518224_037);
-Obj g__03518226_037 = makeCons(co->gc, g__03518225_037, Nil);
-Obj g__03518227_037 = makeCons(co->gc, g__03518223_037, g__03518226_037);
-R[1] = g__03518220_037;
+Obj g__03518260_037= co->res;
+Obj g__03517698_037 = R[1];
+Obj g__03517699_037 = R[2];
+Obj g__03518259_037 = R[3];
+Obj g__03518261_037 = makeCons(co->gc, g__03517698_037, Nil);
+Obj g__03518262_037 = makeCons(co->gc, getBinding(co, packageID, 86).name, g__03518261_037);
+Obj g__03518263_037 = makeCons(co->gc, g__03517699_037, Nil);
+Obj g__03518264_037 = makeCons(co->gc, getBinding(co, packageID, 86).name, g__03518263_037);
+Obj g__03518265_037 = makeCons(co->gc, g__03518264_037, Nil);
+Obj g__03518266_037 = makeCons(co->gc, g__03518262_037, g__03518265_037);
+R[1] = g__03518259_037;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518221_037, g__03518227_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518260_037, g__03518266_037);
 return;
 }
 }
@@ -7913,43 +7958,43 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517625_037 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518192_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518192_037) {
-Obj g__03518193_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518194_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518193_037);
-if (True == g__03518194_037) {
-Obj g__03518195_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518196_037 = PRIM_ISCONS(g__03518195_037);
-if (True == g__03518196_037) {
-Obj g__03518197_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518198_037 = PRIM_CAR(g__03518197_037);
-Obj g__03517658_037 = g__03518198_037;
-Obj g__03518199_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518200_037 = PRIM_CDR(g__03518199_037);
-Obj g__03518201_037 = PRIM_EQ(Nil, g__03518200_037);
-if (True == g__03518201_037) {
+Obj g__03517664_037 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518231_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518231_037) {
+Obj g__03518232_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518233_037 = PRIM_EQ(getBinding(co, packageID, 86).name, g__03518232_037);
+if (True == g__03518233_037) {
+Obj g__03518234_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518235_037 = PRIM_ISCONS(g__03518234_037);
+if (True == g__03518235_037) {
+Obj g__03518236_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518237_037 = PRIM_CAR(g__03518236_037);
+Obj g__03517697_037 = g__03518237_037;
+Obj g__03518238_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518239_037 = PRIM_CDR(g__03518238_037);
+Obj g__03518240_037 = PRIM_EQ(Nil, g__03518239_037);
+if (True == g__03518240_037) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517658_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517697_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517625_037);
+coraCall0(co, g__03517664_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517625_037);
+coraCall0(co, g__03517664_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517625_037);
+coraCall0(co, g__03517664_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517625_037);
+coraCall0(co, g__03517664_037);
 return;
 }
 }
@@ -7960,129 +8005,129 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03518010_037 = primIsSymbol(closureRef(R[0], 0));
-if (True == g__03518010_037) {
+Obj g__03518049_037 = primIsSymbol(closureRef(R[0], 0));
+if (True == g__03518049_037) {
 saveCont(co, clofun20, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj g__03517627_037 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518168_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518168_037) {
-Obj g__03518169_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518170_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518169_037);
-if (True == g__03518170_037) {
-Obj g__03518171_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518172_037 = PRIM_ISCONS(g__03518171_037);
-if (True == g__03518172_037) {
-Obj g__03518173_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518174_037 = PRIM_CAR(g__03518173_037);
-Obj g__03517656_037 = g__03518174_037;
-Obj g__03518175_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518176_037 = PRIM_CDR(g__03518175_037);
-Obj g__03518177_037 = PRIM_ISCONS(g__03518176_037);
-if (True == g__03518177_037) {
-Obj g__03518178_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518179_037 = PRIM_CDR(g__03518178_037);
-Obj g__03518180_037 = PRIM_CAR(g__03518179_037);
-Obj g__03517657_037 = g__03518180_037;
-Obj g__03518181_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518182_037 = PRIM_CDR(g__03518181_037);
-Obj g__03518183_037 = PRIM_CDR(g__03518182_037);
-Obj g__03518184_037 = PRIM_EQ(Nil, g__03518183_037);
-if (True == g__03518184_037) {
-R[1] = g__03517657_037;
-R[2] = g__03517656_037;
+Obj g__03517666_037 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518207_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518207_037) {
+Obj g__03518208_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518209_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518208_037);
+if (True == g__03518209_037) {
+Obj g__03518210_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518211_037 = PRIM_ISCONS(g__03518210_037);
+if (True == g__03518211_037) {
+Obj g__03518212_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518213_037 = PRIM_CAR(g__03518212_037);
+Obj g__03517695_037 = g__03518213_037;
+Obj g__03518214_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518215_037 = PRIM_CDR(g__03518214_037);
+Obj g__03518216_037 = PRIM_ISCONS(g__03518215_037);
+if (True == g__03518216_037) {
+Obj g__03518217_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518218_037 = PRIM_CDR(g__03518217_037);
+Obj g__03518219_037 = PRIM_CAR(g__03518218_037);
+Obj g__03517696_037 = g__03518219_037;
+Obj g__03518220_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518221_037 = PRIM_CDR(g__03518220_037);
+Obj g__03518222_037 = PRIM_CDR(g__03518221_037);
+Obj g__03518223_037 = PRIM_EQ(Nil, g__03518222_037);
+if (True == g__03518223_037) {
+R[1] = g__03517696_037;
+R[2] = g__03517695_037;
 saveCont(co, clofun20, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun19, 1, 0), g__03517656_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), makeNative(co->gc, 2, clofun19, 1, 0), g__03517695_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517627_037);
+coraCall0(co, g__03517666_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517627_037);
+coraCall0(co, g__03517666_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517627_037);
+coraCall0(co, g__03517666_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517627_037);
+coraCall0(co, g__03517666_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517627_037);
+coraCall0(co, g__03517666_037);
 return;
 }
 }
 }
 case 1:
 {
-Obj g__03518013_037= co->res;
-Obj g__03518014_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj g__03518015_037 = makeCons(co->gc, getBinding(co, packageID, 95).name, g__03518014_037);
-coraReturn(co, g__03518015_037);
+Obj g__03518052_037= co->res;
+Obj g__03518053_037 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj g__03518054_037 = makeCons(co->gc, getBinding(co, packageID, 95).name, g__03518053_037);
+coraReturn(co, g__03518054_037);
 return;
 }
 case 2:
 {
-Obj g__03518012_037= co->res;
-Obj g__03517626_037 = R[1];
-if (True == g__03518012_037) {
+Obj g__03518051_037= co->res;
+Obj g__03517665_037 = R[1];
+if (True == g__03518051_037) {
 saveCont(co, clofun20, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 } else {
-Obj g__03518016_037 = PRIM_CDR(g__03517626_037);
-coraReturn(co, g__03518016_037);
+Obj g__03518055_037 = PRIM_CDR(g__03517665_037);
+coraReturn(co, g__03518055_037);
 return;
 }
 }
 case 3:
 {
-Obj g__03518011_037= co->res;
-Obj g__03517626_037 = g__03518011_037;
-R[1] = g__03517626_037;
+Obj g__03518050_037= co->res;
+Obj g__03517665_037 = g__03518050_037;
+R[1] = g__03517665_037;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517626_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517665_037);
 return;
 }
 case 4:
 {
-Obj g__03518188_037= co->res;
-Obj g__03517656_037 = R[1];
-Obj g__03518189_037 = makeCons(co->gc, g__03518188_037, Nil);
-Obj g__03518190_037 = makeCons(co->gc, g__03517656_037, g__03518189_037);
-Obj g__03518191_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518190_037);
-coraReturn(co, g__03518191_037);
+Obj g__03518227_037= co->res;
+Obj g__03517695_037 = R[1];
+Obj g__03518228_037 = makeCons(co->gc, g__03518227_037, Nil);
+Obj g__03518229_037 = makeCons(co->gc, g__03517695_037, g__03518228_037);
+Obj g__03518230_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518229_037);
+coraReturn(co, g__03518230_037);
 return;
 }
 case 5:
 {
-Obj g__03518187_037= co->res;
-Obj g__03517657_037 = R[1];
-Obj g__03517656_037 = R[2];
-R[1] = g__03517656_037;
+Obj g__03518226_037= co->res;
+Obj g__03517696_037 = R[1];
+Obj g__03517695_037 = R[2];
+R[1] = g__03517695_037;
 saveCont(co, clofun20, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), g__03518187_037, closureRef(R[0], 2), g__03517657_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), g__03518226_037, closureRef(R[0], 2), g__03517696_037);
 return;
 }
 case 6:
 {
-Obj g__03518186_037= co->res;
-Obj g__03517657_037 = R[1];
-Obj g__03517656_037 = R[2];
-R[1] = g__03517657_037;
-R[2] = g__03517656_037;
+Obj g__03518225_037= co->res;
+Obj g__03517696_037 = R[1];
+Obj g__03517695_037 = R[2];
+R[1] = g__03517696_037;
+R[2] = g__03517695_037;
 saveCont(co, clofun20, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), g__03518186_037, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), g__03518225_037, closureRef(R[0], 1));
 return;
 }
 }
@@ -8093,8 +8138,8 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj g__03518185_037 = makeCons(co->gc, v_x, v_x);
-coraReturn(co, g__03518185_037);
+Obj g__03518224_037 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, g__03518224_037);
 return;
 }
 }
@@ -8104,74 +8149,74 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517628_037 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518136_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518136_037) {
-Obj g__03518137_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518138_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518137_037);
-if (True == g__03518138_037) {
-Obj g__03518139_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518140_037 = PRIM_ISCONS(g__03518139_037);
-if (True == g__03518140_037) {
-Obj g__03518141_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518142_037 = PRIM_CAR(g__03518141_037);
-Obj g__03518143_037 = PRIM_ISCONS(g__03518142_037);
-if (True == g__03518143_037) {
-Obj g__03518144_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518145_037 = PRIM_CAR(g__03518144_037);
-Obj g__03518146_037 = PRIM_CAR(g__03518145_037);
-Obj g__03518147_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518146_037);
-if (True == g__03518147_037) {
-Obj g__03518148_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518149_037 = PRIM_CAR(g__03518148_037);
-Obj g__03518150_037 = PRIM_CDR(g__03518149_037);
-Obj g__03517652_037 = g__03518150_037;
-Obj g__03518151_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518152_037 = PRIM_CDR(g__03518151_037);
-Obj g__03517653_037 = g__03518152_037;
-Obj g__03518153_037 = primGenSym(co);
-Obj g__03517654_037 = g__03518153_037;
-Obj g__03518154_037 = primGenSym(co);
-Obj g__03517655_037 = g__03518154_037;
-Obj g__03518155_037 = makeCons(co->gc, g__03517655_037, Nil);
-Obj g__03518156_037 = makeCons(co->gc, g__03517655_037, g__03517653_037);
-Obj g__03518157_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518156_037);
-Obj g__03518158_037 = makeCons(co->gc, g__03518157_037, Nil);
-Obj g__03518159_037 = makeCons(co->gc, g__03518155_037, g__03518158_037);
-Obj g__03518160_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518159_037);
-Obj g__03518161_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03517652_037);
-Obj g__03518162_037 = makeCons(co->gc, g__03518161_037, Nil);
-Obj g__03518163_037 = makeCons(co->gc, g__03517654_037, g__03518162_037);
-Obj g__03518164_037 = makeCons(co->gc, g__03518163_037, Nil);
-Obj g__03518165_037 = makeCons(co->gc, g__03518160_037, g__03518164_037);
-Obj g__03518166_037 = makeCons(co->gc, g__03517654_037, g__03518165_037);
-Obj g__03518167_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518166_037);
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03518167_037);
+Obj g__03517667_037 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518175_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518175_037) {
+Obj g__03518176_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518177_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518176_037);
+if (True == g__03518177_037) {
+Obj g__03518178_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518179_037 = PRIM_ISCONS(g__03518178_037);
+if (True == g__03518179_037) {
+Obj g__03518180_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518181_037 = PRIM_CAR(g__03518180_037);
+Obj g__03518182_037 = PRIM_ISCONS(g__03518181_037);
+if (True == g__03518182_037) {
+Obj g__03518183_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518184_037 = PRIM_CAR(g__03518183_037);
+Obj g__03518185_037 = PRIM_CAR(g__03518184_037);
+Obj g__03518186_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518185_037);
+if (True == g__03518186_037) {
+Obj g__03518187_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518188_037 = PRIM_CAR(g__03518187_037);
+Obj g__03518189_037 = PRIM_CDR(g__03518188_037);
+Obj g__03517691_037 = g__03518189_037;
+Obj g__03518190_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518191_037 = PRIM_CDR(g__03518190_037);
+Obj g__03517692_037 = g__03518191_037;
+Obj g__03518192_037 = primGenSym(co);
+Obj g__03517693_037 = g__03518192_037;
+Obj g__03518193_037 = primGenSym(co);
+Obj g__03517694_037 = g__03518193_037;
+Obj g__03518194_037 = makeCons(co->gc, g__03517694_037, Nil);
+Obj g__03518195_037 = makeCons(co->gc, g__03517694_037, g__03517692_037);
+Obj g__03518196_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518195_037);
+Obj g__03518197_037 = makeCons(co->gc, g__03518196_037, Nil);
+Obj g__03518198_037 = makeCons(co->gc, g__03518194_037, g__03518197_037);
+Obj g__03518199_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518198_037);
+Obj g__03518200_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03517691_037);
+Obj g__03518201_037 = makeCons(co->gc, g__03518200_037, Nil);
+Obj g__03518202_037 = makeCons(co->gc, g__03517693_037, g__03518201_037);
+Obj g__03518203_037 = makeCons(co->gc, g__03518202_037, Nil);
+Obj g__03518204_037 = makeCons(co->gc, g__03518199_037, g__03518203_037);
+Obj g__03518205_037 = makeCons(co->gc, g__03517693_037, g__03518204_037);
+Obj g__03518206_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518205_037);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03518206_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517628_037);
+coraCall0(co, g__03517667_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517628_037);
+coraCall0(co, g__03517667_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517628_037);
+coraCall0(co, g__03517667_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517628_037);
+coraCall0(co, g__03517667_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517628_037);
+coraCall0(co, g__03517667_037);
 return;
 }
 }
@@ -8182,42 +8227,42 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517629_037 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518129_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518129_037) {
-Obj g__03518130_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518131_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518130_037);
-if (True == g__03518131_037) {
-Obj g__03518132_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517651_037 = g__03518132_037;
-R[1] = g__03517651_037;
+Obj g__03517668_037 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518168_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518168_037) {
+Obj g__03518169_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518170_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518169_037);
+if (True == g__03518170_037) {
+Obj g__03518171_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517690_037 = g__03518171_037;
+R[1] = g__03517690_037;
 saveCont(co, clofun17, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517629_037);
+coraCall0(co, g__03517668_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517629_037);
+coraCall0(co, g__03517668_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518134_037= co->res;
-Obj g__03518135_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518134_037);
-coraReturn(co, g__03518135_037);
+Obj g__03518173_037= co->res;
+Obj g__03518174_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03518173_037);
+coraReturn(co, g__03518174_037);
 return;
 }
 case 2:
 {
-Obj g__03518133_037= co->res;
-Obj g__03517651_037 = R[1];
+Obj g__03518172_037= co->res;
+Obj g__03517690_037 = R[1];
 saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518133_037, g__03517651_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518172_037, g__03517690_037);
 return;
 }
 }
@@ -8227,78 +8272,78 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517630_037 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518107_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518107_037) {
-Obj g__03518108_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518109_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518108_037);
-if (True == g__03518109_037) {
-Obj g__03518110_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518111_037 = PRIM_ISCONS(g__03518110_037);
-if (True == g__03518111_037) {
-Obj g__03518112_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518113_037 = PRIM_CAR(g__03518112_037);
-Obj g__03517649_037 = g__03518113_037;
-Obj g__03518114_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518115_037 = PRIM_CDR(g__03518114_037);
-Obj g__03518116_037 = PRIM_ISCONS(g__03518115_037);
-if (True == g__03518116_037) {
-Obj g__03518117_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518118_037 = PRIM_CDR(g__03518117_037);
-Obj g__03518119_037 = PRIM_CAR(g__03518118_037);
-Obj g__03517650_037 = g__03518119_037;
-Obj g__03518120_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518121_037 = PRIM_CDR(g__03518120_037);
-Obj g__03518122_037 = PRIM_CDR(g__03518121_037);
-Obj g__03518123_037 = PRIM_EQ(Nil, g__03518122_037);
-if (True == g__03518123_037) {
-R[1] = g__03517650_037;
+Obj g__03517669_037 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518146_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518146_037) {
+Obj g__03518147_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518148_037 = PRIM_EQ(getBinding(co, packageID, 87).name, g__03518147_037);
+if (True == g__03518148_037) {
+Obj g__03518149_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518150_037 = PRIM_ISCONS(g__03518149_037);
+if (True == g__03518150_037) {
+Obj g__03518151_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518152_037 = PRIM_CAR(g__03518151_037);
+Obj g__03517688_037 = g__03518152_037;
+Obj g__03518153_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518154_037 = PRIM_CDR(g__03518153_037);
+Obj g__03518155_037 = PRIM_ISCONS(g__03518154_037);
+if (True == g__03518155_037) {
+Obj g__03518156_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518157_037 = PRIM_CDR(g__03518156_037);
+Obj g__03518158_037 = PRIM_CAR(g__03518157_037);
+Obj g__03517689_037 = g__03518158_037;
+Obj g__03518159_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518160_037 = PRIM_CDR(g__03518159_037);
+Obj g__03518161_037 = PRIM_CDR(g__03518160_037);
+Obj g__03518162_037 = PRIM_EQ(Nil, g__03518161_037);
+if (True == g__03518162_037) {
+R[1] = g__03517689_037;
 saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517649_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517688_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517630_037);
+coraCall0(co, g__03517669_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517630_037);
+coraCall0(co, g__03517669_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517630_037);
+coraCall0(co, g__03517669_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517630_037);
+coraCall0(co, g__03517669_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517630_037);
+coraCall0(co, g__03517669_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518125_037= co->res;
-Obj g__03518124_037 = R[1];
-Obj g__03518126_037 = makeCons(co->gc, g__03518125_037, Nil);
-Obj g__03518127_037 = makeCons(co->gc, g__03518124_037, g__03518126_037);
-Obj g__03518128_037 = makeCons(co->gc, getBinding(co, packageID, 87).name, g__03518127_037);
-coraReturn(co, g__03518128_037);
+Obj g__03518164_037= co->res;
+Obj g__03518163_037 = R[1];
+Obj g__03518165_037 = makeCons(co->gc, g__03518164_037, Nil);
+Obj g__03518166_037 = makeCons(co->gc, g__03518163_037, g__03518165_037);
+Obj g__03518167_037 = makeCons(co->gc, getBinding(co, packageID, 87).name, g__03518166_037);
+coraReturn(co, g__03518167_037);
 return;
 }
 case 2:
 {
-Obj g__03518124_037= co->res;
-Obj g__03517650_037 = R[1];
-R[1] = g__03518124_037;
+Obj g__03518163_037= co->res;
+Obj g__03517689_037 = R[1];
+R[1] = g__03518163_037;
 saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517650_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517689_037);
 return;
 }
 }
@@ -8308,105 +8353,105 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517631_037 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj g__03518072_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518072_037) {
-Obj g__03518073_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518074_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518073_037);
-if (True == g__03518074_037) {
-Obj g__03518075_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518076_037 = PRIM_ISCONS(g__03518075_037);
-if (True == g__03518076_037) {
-Obj g__03518077_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518078_037 = PRIM_CAR(g__03518077_037);
-Obj g__03517645_037 = g__03518078_037;
-Obj g__03518079_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518080_037 = PRIM_CDR(g__03518079_037);
-Obj g__03518081_037 = PRIM_ISCONS(g__03518080_037);
-if (True == g__03518081_037) {
-Obj g__03518082_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518083_037 = PRIM_CDR(g__03518082_037);
-Obj g__03518084_037 = PRIM_CAR(g__03518083_037);
-Obj g__03517646_037 = g__03518084_037;
-Obj g__03518085_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518086_037 = PRIM_CDR(g__03518085_037);
-Obj g__03518087_037 = PRIM_CDR(g__03518086_037);
-Obj g__03518088_037 = PRIM_ISCONS(g__03518087_037);
-if (True == g__03518088_037) {
-Obj g__03518089_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518090_037 = PRIM_CDR(g__03518089_037);
-Obj g__03518091_037 = PRIM_CDR(g__03518090_037);
-Obj g__03518092_037 = PRIM_CAR(g__03518091_037);
-Obj g__03517647_037 = g__03518092_037;
-Obj g__03518093_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518094_037 = PRIM_CDR(g__03518093_037);
-Obj g__03518095_037 = PRIM_CDR(g__03518094_037);
-Obj g__03518096_037 = PRIM_CDR(g__03518095_037);
-Obj g__03518097_037 = PRIM_EQ(Nil, g__03518096_037);
-if (True == g__03518097_037) {
-Obj g__03518098_037 = primGenSym(co);
-Obj g__03517648_037 = g__03518098_037;
-R[1] = g__03517645_037;
-R[2] = g__03517647_037;
-R[3] = g__03517648_037;
+Obj g__03517670_037 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj g__03518111_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518111_037) {
+Obj g__03518112_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518113_037 = PRIM_EQ(getBinding(co, packageID, 88).name, g__03518112_037);
+if (True == g__03518113_037) {
+Obj g__03518114_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518115_037 = PRIM_ISCONS(g__03518114_037);
+if (True == g__03518115_037) {
+Obj g__03518116_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518117_037 = PRIM_CAR(g__03518116_037);
+Obj g__03517684_037 = g__03518117_037;
+Obj g__03518118_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518119_037 = PRIM_CDR(g__03518118_037);
+Obj g__03518120_037 = PRIM_ISCONS(g__03518119_037);
+if (True == g__03518120_037) {
+Obj g__03518121_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518122_037 = PRIM_CDR(g__03518121_037);
+Obj g__03518123_037 = PRIM_CAR(g__03518122_037);
+Obj g__03517685_037 = g__03518123_037;
+Obj g__03518124_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518125_037 = PRIM_CDR(g__03518124_037);
+Obj g__03518126_037 = PRIM_CDR(g__03518125_037);
+Obj g__03518127_037 = PRIM_ISCONS(g__03518126_037);
+if (True == g__03518127_037) {
+Obj g__03518128_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518129_037 = PRIM_CDR(g__03518128_037);
+Obj g__03518130_037 = PRIM_CDR(g__03518129_037);
+Obj g__03518131_037 = PRIM_CAR(g__03518130_037);
+Obj g__03517686_037 = g__03518131_037;
+Obj g__03518132_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518133_037 = PRIM_CDR(g__03518132_037);
+Obj g__03518134_037 = PRIM_CDR(g__03518133_037);
+Obj g__03518135_037 = PRIM_CDR(g__03518134_037);
+Obj g__03518136_037 = PRIM_EQ(Nil, g__03518135_037);
+if (True == g__03518136_037) {
+Obj g__03518137_037 = primGenSym(co);
+Obj g__03517687_037 = g__03518137_037;
+R[1] = g__03517684_037;
+R[2] = g__03517686_037;
+R[3] = g__03517687_037;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517646_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03517685_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517631_037);
+coraCall0(co, g__03517670_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517631_037);
+coraCall0(co, g__03517670_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517631_037);
+coraCall0(co, g__03517670_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517631_037);
+coraCall0(co, g__03517670_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517631_037);
+coraCall0(co, g__03517670_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517631_037);
+coraCall0(co, g__03517670_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518102_037= co->res;
-Obj g__03518099_037 = R[1];
-Obj g__03517648_037 = R[2];
-Obj g__03518103_037 = makeCons(co->gc, g__03518102_037, Nil);
-Obj g__03518104_037 = makeCons(co->gc, g__03518099_037, g__03518103_037);
-Obj g__03518105_037 = makeCons(co->gc, g__03517648_037, g__03518104_037);
-Obj g__03518106_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518105_037);
-coraReturn(co, g__03518106_037);
+Obj g__03518141_037= co->res;
+Obj g__03518138_037 = R[1];
+Obj g__03517687_037 = R[2];
+Obj g__03518142_037 = makeCons(co->gc, g__03518141_037, Nil);
+Obj g__03518143_037 = makeCons(co->gc, g__03518138_037, g__03518142_037);
+Obj g__03518144_037 = makeCons(co->gc, g__03517687_037, g__03518143_037);
+Obj g__03518145_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518144_037);
+coraReturn(co, g__03518145_037);
 return;
 }
 case 2:
 {
-Obj g__03518099_037= co->res;
-Obj g__03517645_037 = R[1];
-Obj g__03517647_037 = R[2];
-Obj g__03517648_037 = R[3];
-Obj g__03518100_037 = makeCons(co->gc, g__03517645_037, g__03517648_037);
-Obj g__03518101_037 = makeCons(co->gc, g__03518100_037, closureRef(R[0], 1));
-R[1] = g__03518099_037;
-R[2] = g__03517648_037;
+Obj g__03518138_037= co->res;
+Obj g__03517684_037 = R[1];
+Obj g__03517686_037 = R[2];
+Obj g__03517687_037 = R[3];
+Obj g__03518139_037 = makeCons(co->gc, g__03517684_037, g__03517687_037);
+Obj g__03518140_037 = makeCons(co->gc, g__03518139_037, closureRef(R[0], 1));
+R[1] = g__03518138_037;
+R[2] = g__03517687_037;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), g__03518101_037, closureRef(R[0], 2), g__03517647_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), g__03518140_037, closureRef(R[0], 2), g__03517686_037);
 return;
 }
 }
@@ -8416,85 +8461,85 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517632_037 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
-Obj g__03518040_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518040_037) {
-Obj g__03518041_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518042_037 = PRIM_ISCONS(g__03518041_037);
-if (True == g__03518042_037) {
-Obj g__03518043_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518044_037 = PRIM_CAR(g__03518043_037);
-Obj g__03518045_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518044_037);
-if (True == g__03518045_037) {
-Obj g__03518046_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03518047_037 = PRIM_CDR(g__03518046_037);
-Obj g__03517642_037 = g__03518047_037;
-Obj g__03518048_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518049_037 = PRIM_ISCONS(g__03518048_037);
-if (True == g__03518049_037) {
-Obj g__03518050_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518051_037 = PRIM_CAR(g__03518050_037);
-Obj g__03518052_037 = PRIM_ISCONS(g__03518051_037);
-if (True == g__03518052_037) {
-Obj g__03518053_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518054_037 = PRIM_CAR(g__03518053_037);
-Obj g__03518055_037 = PRIM_CAR(g__03518054_037);
-Obj g__03518056_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518055_037);
-if (True == g__03518056_037) {
-Obj g__03518057_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518058_037 = PRIM_CAR(g__03518057_037);
-Obj g__03518059_037 = PRIM_CDR(g__03518058_037);
-Obj g__03517643_037 = g__03518059_037;
-Obj g__03518060_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03518061_037 = PRIM_CDR(g__03518060_037);
-Obj g__03518062_037 = PRIM_EQ(Nil, g__03518061_037);
-if (True == g__03518062_037) {
-Obj g__03518063_037 = primGenSym(co);
-Obj g__03517644_037 = g__03518063_037;
-Obj g__03518064_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03517642_037);
-Obj g__03518065_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03517643_037);
-Obj g__03518066_037 = makeCons(co->gc, g__03518065_037, Nil);
-Obj g__03518067_037 = makeCons(co->gc, g__03517644_037, g__03518066_037);
-Obj g__03518068_037 = makeCons(co->gc, g__03518067_037, Nil);
-Obj g__03518069_037 = makeCons(co->gc, g__03518064_037, g__03518068_037);
-Obj g__03518070_037 = makeCons(co->gc, g__03517644_037, g__03518069_037);
-Obj g__03518071_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518070_037);
+Obj g__03517671_037 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj g__03518079_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518079_037) {
+Obj g__03518080_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518081_037 = PRIM_ISCONS(g__03518080_037);
+if (True == g__03518081_037) {
+Obj g__03518082_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518083_037 = PRIM_CAR(g__03518082_037);
+Obj g__03518084_037 = PRIM_EQ(getBinding(co, packageID, 91).name, g__03518083_037);
+if (True == g__03518084_037) {
+Obj g__03518085_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03518086_037 = PRIM_CDR(g__03518085_037);
+Obj g__03517681_037 = g__03518086_037;
+Obj g__03518087_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518088_037 = PRIM_ISCONS(g__03518087_037);
+if (True == g__03518088_037) {
+Obj g__03518089_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518090_037 = PRIM_CAR(g__03518089_037);
+Obj g__03518091_037 = PRIM_ISCONS(g__03518090_037);
+if (True == g__03518091_037) {
+Obj g__03518092_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518093_037 = PRIM_CAR(g__03518092_037);
+Obj g__03518094_037 = PRIM_CAR(g__03518093_037);
+Obj g__03518095_037 = PRIM_EQ(getBinding(co, packageID, 89).name, g__03518094_037);
+if (True == g__03518095_037) {
+Obj g__03518096_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518097_037 = PRIM_CAR(g__03518096_037);
+Obj g__03518098_037 = PRIM_CDR(g__03518097_037);
+Obj g__03517682_037 = g__03518098_037;
+Obj g__03518099_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03518100_037 = PRIM_CDR(g__03518099_037);
+Obj g__03518101_037 = PRIM_EQ(Nil, g__03518100_037);
+if (True == g__03518101_037) {
+Obj g__03518102_037 = primGenSym(co);
+Obj g__03517683_037 = g__03518102_037;
+Obj g__03518103_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03517681_037);
+Obj g__03518104_037 = makeCons(co->gc, getBinding(co, packageID, 89).name, g__03517682_037);
+Obj g__03518105_037 = makeCons(co->gc, g__03518104_037, Nil);
+Obj g__03518106_037 = makeCons(co->gc, g__03517683_037, g__03518105_037);
+Obj g__03518107_037 = makeCons(co->gc, g__03518106_037, Nil);
+Obj g__03518108_037 = makeCons(co->gc, g__03518103_037, g__03518107_037);
+Obj g__03518109_037 = makeCons(co->gc, g__03517683_037, g__03518108_037);
+Obj g__03518110_037 = makeCons(co->gc, getBinding(co, packageID, 88).name, g__03518109_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03518071_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 1), closureRef(R[0], 2), g__03518110_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517632_037);
+coraCall0(co, g__03517671_037);
 return;
 }
 }
@@ -8505,61 +8550,61 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517633_037 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
-Obj g__03518018_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03518018_037) {
-Obj g__03518019_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517634_037 = g__03518019_037;
-Obj g__03518020_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517635_037 = g__03518020_037;
-Obj g__03517638_037 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), g__03517634_037, g__03517635_037, g__03517633_037);
-R[1] = g__03517634_037;
-R[2] = g__03517638_037;
+Obj g__03517672_037 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj g__03518057_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03518057_037) {
+Obj g__03518058_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517673_037 = g__03518058_037;
+Obj g__03518059_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517674_037 = g__03518059_037;
+Obj g__03517677_037 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), g__03517673_037, g__03517674_037, g__03517672_037);
+R[1] = g__03517673_037;
+R[2] = g__03517677_037;
 saveCont(co, clofun13, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), g__03517634_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), g__03517673_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517633_037);
+coraCall0(co, g__03517672_037);
 return;
 }
 }
 case 1:
 {
-Obj g__03518039_037= co->res;
-Obj g__03517638_037 = R[1];
-if (True == g__03518039_037) {
+Obj g__03518078_037= co->res;
+Obj g__03517677_037 = R[1];
+if (True == g__03518078_037) {
 co->ctx.sp = R;
-coraCall1(co, g__03517638_037, True);
+coraCall1(co, g__03517677_037, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517638_037, False);
+coraCall1(co, g__03517677_037, False);
 return;
 }
 }
 case 2:
 {
-Obj g__03518038_037= co->res;
-Obj g__03517638_037 = R[1];
-R[1] = g__03517638_037;
+Obj g__03518077_037= co->res;
+Obj g__03517677_037 = R[1];
+R[1] = g__03517677_037;
 saveCont(co, clofun13, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03518038_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03518077_037);
 return;
 }
 case 3:
 {
-Obj g__03518037_037= co->res;
-Obj g__03517634_037 = R[1];
-Obj g__03517638_037 = R[2];
-if (True == g__03518037_037) {
-R[1] = g__03517638_037;
+Obj g__03518076_037= co->res;
+Obj g__03517673_037 = R[1];
+Obj g__03517677_037 = R[2];
+if (True == g__03518076_037) {
+R[1] = g__03517677_037;
 saveCont(co, clofun13, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), g__03517634_037, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), g__03517673_037, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, g__03517638_037, False);
+coraCall1(co, g__03517677_037, False);
 return;
 }
 }
@@ -8570,8 +8615,8 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517637_037 = R[1];
-if (True == g__03517637_037) {
+Obj g__03517676_037 = R[1];
+if (True == g__03517676_037) {
 saveCont(co, clofun12, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
@@ -8583,61 +8628,61 @@ return;
 }
 case 1:
 {
-Obj g__03518027_037= co->res;
-Obj g__03518025_037 = R[1];
-Obj g__03518028_037 = makeCons(co->gc, g__03518025_037, g__03518027_037);
-coraReturn(co, g__03518028_037);
+Obj g__03518066_037= co->res;
+Obj g__03518064_037 = R[1];
+Obj g__03518067_037 = makeCons(co->gc, g__03518064_037, g__03518066_037);
+coraReturn(co, g__03518067_037);
 return;
 }
 case 2:
 {
-Obj g__03518026_037= co->res;
-Obj g__03518025_037 = R[1];
-R[1] = g__03518025_037;
+Obj g__03518065_037= co->res;
+Obj g__03518064_037 = R[1];
+R[1] = g__03518064_037;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518026_037, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518065_037, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj g__03518033_037= co->res;
-Obj g__03517641_037 = R[1];
-Obj g__03518034_037 = makeCons(co->gc, g__03518033_037, Nil);
-Obj g__03518035_037 = makeCons(co->gc, g__03517641_037, g__03518034_037);
-Obj g__03518036_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518035_037);
+Obj g__03518072_037= co->res;
+Obj g__03517680_037 = R[1];
+Obj g__03518073_037 = makeCons(co->gc, g__03518072_037, Nil);
+Obj g__03518074_037 = makeCons(co->gc, g__03517680_037, g__03518073_037);
+Obj g__03518075_037 = makeCons(co->gc, getBinding(co, packageID, 91).name, g__03518074_037);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1), g__03518036_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1), g__03518075_037);
 return;
 }
 case 4:
 {
-Obj g__03518031_037= co->res;
-Obj g__03517641_037 = g__03518031_037;
-Obj g__03518032_037 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
-R[1] = g__03517641_037;
+Obj g__03518070_037= co->res;
+Obj g__03517680_037 = g__03518070_037;
+Obj g__03518071_037 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
+R[1] = g__03517680_037;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), g__03518032_037, g__03517641_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 90)), g__03518071_037, g__03517680_037);
 return;
 }
 case 5:
 {
-Obj g__03518022_037= co->res;
-Obj g__03517639_037 = R[1];
-Obj g__03517640_037 = g__03518022_037;
-Obj g__03518023_037 = PRIM_EQ(g__03517639_037, g__03517640_037);
-if (True == g__03518023_037) {
-Obj g__03518024_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj g__03518025_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03518024_037);
-R[1] = g__03518025_037;
+Obj g__03518061_037= co->res;
+Obj g__03517678_037 = R[1];
+Obj g__03517679_037 = g__03518061_037;
+Obj g__03518062_037 = PRIM_EQ(g__03517678_037, g__03517679_037);
+if (True == g__03518062_037) {
+Obj g__03518063_037 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj g__03518064_037 = makeCons(co->gc, getBinding(co, packageID, 92).name, g__03518063_037);
+R[1] = g__03518064_037;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj g__03518029_037 = PRIM_GT(g__03517639_037, g__03517640_037);
-if (True == g__03518029_037) {
-Obj g__03518030_037 = PRIM_SUB(g__03517639_037, g__03517640_037);
+Obj g__03518068_037 = PRIM_GT(g__03517678_037, g__03517679_037);
+if (True == g__03518068_037) {
+Obj g__03518069_037 = PRIM_SUB(g__03517678_037, g__03517679_037);
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), g__03518030_037, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), g__03518069_037, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8648,9 +8693,9 @@ return;
 }
 case 6:
 {
-Obj g__03518021_037= co->res;
-Obj g__03517639_037 = g__03518021_037;
-R[1] = g__03517639_037;
+Obj g__03518060_037= co->res;
+Obj g__03517678_037 = g__03518060_037;
+R[1] = g__03517678_037;
 saveCont(co, clofun12, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3));
 return;
@@ -8668,9 +8713,9 @@ return;
 }
 case 1:
 {
-Obj g__03518017_037= co->res;
+Obj g__03518056_037= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518017_037, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), g__03518056_037, closureRef(R[0], 2));
 return;
 }
 }
@@ -8680,18 +8725,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517457_037 = R[1];
-Obj g__03517458_037 = R[2];
-Obj g__03518003_037 = PRIM_EQ(MAKE_NUMBER(0), g__03517457_037);
-if (True == g__03518003_037) {
-coraReturn(co, g__03517458_037);
+Obj g__03517496_037 = R[1];
+Obj g__03517497_037 = R[2];
+Obj g__03518042_037 = PRIM_EQ(MAKE_NUMBER(0), g__03517496_037);
+if (True == g__03518042_037) {
+coraReturn(co, g__03517497_037);
 return;
 } else {
-Obj g__03518004_037 = PRIM_SUB(g__03517457_037, MAKE_NUMBER(1));
-Obj g__03518005_037 = primGenSym(co);
-Obj g__03518006_037 = makeCons(co->gc, g__03518005_037, g__03517458_037);
+Obj g__03518043_037 = PRIM_SUB(g__03517496_037, MAKE_NUMBER(1));
+Obj g__03518044_037 = primGenSym(co);
+Obj g__03518045_037 = makeCons(co->gc, g__03518044_037, g__03517497_037);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), g__03518004_037, g__03518006_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), g__03518043_037, g__03518045_037);
 return;
 }
 }
@@ -8709,24 +8754,24 @@ return;
 }
 case 1:
 {
-Obj g__03518001_037= co->res;
-Obj g__03517619_037 = R[1];
-if (True == g__03518001_037) {
+Obj g__03518040_037= co->res;
+Obj g__03517658_037 = R[1];
+if (True == g__03518040_037) {
 coraReturn(co, makeString(co->gc, "ERROR", 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), g__03517619_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), g__03517658_037);
 return;
 }
 }
 case 2:
 {
-Obj g__03518000_037= co->res;
-Obj g__03517619_037 = g__03518000_037;
-R[1] = g__03517619_037;
+Obj g__03518039_037= co->res;
+Obj g__03517658_037 = g__03518039_037;
+R[1] = g__03517658_037;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517619_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517658_037);
 return;
 }
 }
@@ -8743,24 +8788,24 @@ return;
 }
 case 1:
 {
-Obj g__03517998_037= co->res;
-Obj g__03517618_037 = R[1];
-if (True == g__03517998_037) {
+Obj g__03518037_037= co->res;
+Obj g__03517657_037 = R[1];
+if (True == g__03518037_037) {
 coraReturn(co, makeString(co->gc, "ERROR", 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), g__03517618_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), g__03517657_037);
 return;
 }
 }
 case 2:
 {
-Obj g__03517997_037= co->res;
-Obj g__03517618_037 = g__03517997_037;
-R[1] = g__03517618_037;
+Obj g__03518036_037= co->res;
+Obj g__03517657_037 = g__03518036_037;
+R[1] = g__03517657_037;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517618_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517657_037);
 return;
 }
 }
@@ -8777,16 +8822,16 @@ return;
 }
 case 1:
 {
-Obj g__03517994_037= co->res;
-Obj g__03517995_037 = primNot(g__03517994_037);
-coraReturn(co, g__03517995_037);
+Obj g__03518033_037= co->res;
+Obj g__03518034_037 = primNot(g__03518033_037);
+coraReturn(co, g__03518034_037);
 return;
 }
 case 2:
 {
-Obj g__03517993_037= co->res;
+Obj g__03518032_037= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03517993_037);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), g__03518032_037);
 return;
 }
 }
@@ -8796,23 +8841,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517453_037 = R[1];
-Obj g__03517454_037 = R[2];
-Obj g__03517917_037 = PRIM_EQ(Nil, g__03517454_037);
-if (True == g__03517917_037) {
+Obj g__03517492_037 = R[1];
+Obj g__03517493_037 = R[2];
+Obj g__03517956_037 = PRIM_EQ(Nil, g__03517493_037);
+if (True == g__03517956_037) {
 coraReturn(co, False);
 return;
 } else {
-Obj g__03517918_037 = PRIM_ISCONS(g__03517454_037);
-if (True == g__03517918_037) {
-Obj g__03517919_037 = PRIM_CAR(g__03517454_037);
-Obj g__03517616_037 = g__03517919_037;
-Obj g__03517920_037 = PRIM_CDR(g__03517454_037);
-Obj g__03517617_037 = g__03517920_037;
-R[1] = g__03517453_037;
-R[2] = g__03517617_037;
+Obj g__03517957_037 = PRIM_ISCONS(g__03517493_037);
+if (True == g__03517957_037) {
+Obj g__03517958_037 = PRIM_CAR(g__03517493_037);
+Obj g__03517655_037 = g__03517958_037;
+Obj g__03517959_037 = PRIM_CDR(g__03517493_037);
+Obj g__03517656_037 = g__03517959_037;
+R[1] = g__03517492_037;
+R[2] = g__03517656_037;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517453_037, g__03517616_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), g__03517492_037, g__03517655_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -8823,13 +8868,13 @@ return;
 }
 case 1:
 {
-Obj g__03517921_037= co->res;
-Obj g__03517453_037 = R[1];
-Obj g__03517617_037 = R[2];
-Obj g__03517922_037 = PRIM_LT(g__03517921_037, MAKE_NUMBER(0));
-if (True == g__03517922_037) {
+Obj g__03517960_037= co->res;
+Obj g__03517492_037 = R[1];
+Obj g__03517656_037 = R[2];
+Obj g__03517961_037 = PRIM_LT(g__03517960_037, MAKE_NUMBER(0));
+if (True == g__03517961_037) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), g__03517453_037, g__03517617_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), g__03517492_037, g__03517656_037);
 return;
 } else {
 coraReturn(co, True);
@@ -8856,32 +8901,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517447_037 = R[1];
-Obj g__03517448_037 = R[2];
-Obj g__03517449_037 = R[3];
-Obj g__03517906_037 = PRIM_EQ(Nil, g__03517449_037);
-if (True == g__03517906_037) {
+Obj g__03517486_037 = R[1];
+Obj g__03517487_037 = R[2];
+Obj g__03517488_037 = R[3];
+Obj g__03517945_037 = PRIM_EQ(Nil, g__03517488_037);
+if (True == g__03517945_037) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj g__03517613_037 = makeNative(co->gc, 1, clofun3, 0, 3, g__03517449_037, g__03517447_037, g__03517448_037);
-Obj g__03517911_037 = PRIM_ISCONS(g__03517449_037);
-if (True == g__03517911_037) {
-Obj g__03517912_037 = PRIM_CAR(g__03517449_037);
-Obj g__03517615_037 = g__03517912_037;
-Obj g__03517913_037 = PRIM_CDR(g__03517449_037);
-Obj g__03517914_037 = PRIM_EQ(g__03517448_037, g__03517615_037);
-if (True == g__03517914_037) {
-coraReturn(co, g__03517447_037);
+Obj g__03517652_037 = makeNative(co->gc, 1, clofun3, 0, 3, g__03517488_037, g__03517486_037, g__03517487_037);
+Obj g__03517950_037 = PRIM_ISCONS(g__03517488_037);
+if (True == g__03517950_037) {
+Obj g__03517951_037 = PRIM_CAR(g__03517488_037);
+Obj g__03517654_037 = g__03517951_037;
+Obj g__03517952_037 = PRIM_CDR(g__03517488_037);
+Obj g__03517953_037 = PRIM_EQ(g__03517487_037, g__03517654_037);
+if (True == g__03517953_037) {
+coraReturn(co, g__03517486_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517613_037);
+coraCall0(co, g__03517652_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517613_037);
+coraCall0(co, g__03517652_037);
 return;
 }
 }
@@ -8893,14 +8938,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517907_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03517907_037) {
-Obj g__03517908_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517909_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517614_037 = g__03517909_037;
-Obj g__03517910_037 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj g__03517946_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03517946_037) {
+Obj g__03517947_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517948_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517653_037 = g__03517948_037;
+Obj g__03517949_037 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), g__03517910_037, closureRef(R[0], 2), g__03517614_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), g__03517949_037, closureRef(R[0], 2), g__03517653_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -8915,24 +8960,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517442_037 = R[1];
-Obj g__03517443_037 = R[2];
-Obj g__03517444_037 = R[3];
-Obj g__03517900_037 = PRIM_EQ(Nil, g__03517444_037);
-if (True == g__03517900_037) {
-coraReturn(co, g__03517443_037);
+Obj g__03517481_037 = R[1];
+Obj g__03517482_037 = R[2];
+Obj g__03517483_037 = R[3];
+Obj g__03517939_037 = PRIM_EQ(Nil, g__03517483_037);
+if (True == g__03517939_037) {
+coraReturn(co, g__03517482_037);
 return;
 } else {
-Obj g__03517901_037 = PRIM_ISCONS(g__03517444_037);
-if (True == g__03517901_037) {
-Obj g__03517902_037 = PRIM_CAR(g__03517444_037);
-Obj g__03517611_037 = g__03517902_037;
-Obj g__03517903_037 = PRIM_CDR(g__03517444_037);
-Obj g__03517612_037 = g__03517903_037;
-R[1] = g__03517442_037;
-R[2] = g__03517612_037;
+Obj g__03517940_037 = PRIM_ISCONS(g__03517483_037);
+if (True == g__03517940_037) {
+Obj g__03517941_037 = PRIM_CAR(g__03517483_037);
+Obj g__03517650_037 = g__03517941_037;
+Obj g__03517942_037 = PRIM_CDR(g__03517483_037);
+Obj g__03517651_037 = g__03517942_037;
+R[1] = g__03517481_037;
+R[2] = g__03517651_037;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, g__03517442_037, g__03517443_037, g__03517611_037);
+coraCall2(co, g__03517481_037, g__03517482_037, g__03517650_037);
 return;
 } else {
 co->ctx.sp = R;
@@ -8943,11 +8988,11 @@ return;
 }
 case 1:
 {
-Obj g__03517904_037= co->res;
-Obj g__03517442_037 = R[1];
-Obj g__03517612_037 = R[2];
+Obj g__03517943_037= co->res;
+Obj g__03517481_037 = R[1];
+Obj g__03517651_037 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), g__03517442_037, g__03517904_037, g__03517612_037);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), g__03517481_037, g__03517943_037, g__03517651_037);
 return;
 }
 }
@@ -8957,44 +9002,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517437_037 = R[1];
-Obj g__03517438_037 = R[2];
-Obj g__03517885_037 = PRIM_EQ(Nil, g__03517438_037);
-if (True == g__03517885_037) {
+Obj g__03517476_037 = R[1];
+Obj g__03517477_037 = R[2];
+Obj g__03517924_037 = PRIM_EQ(Nil, g__03517477_037);
+if (True == g__03517924_037) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj g__03517607_037 = makeNative(co->gc, 1, clofun0, 0, 2, g__03517438_037, g__03517437_037);
-Obj g__03517889_037 = PRIM_ISCONS(g__03517438_037);
-if (True == g__03517889_037) {
-Obj g__03517890_037 = PRIM_CAR(g__03517438_037);
-Obj g__03517891_037 = PRIM_ISCONS(g__03517890_037);
-if (True == g__03517891_037) {
-Obj g__03517892_037 = PRIM_CAR(g__03517438_037);
-Obj g__03517893_037 = PRIM_CAR(g__03517892_037);
-Obj g__03517609_037 = g__03517893_037;
-Obj g__03517894_037 = PRIM_CAR(g__03517438_037);
-Obj g__03517895_037 = PRIM_CDR(g__03517894_037);
-Obj g__03517610_037 = g__03517895_037;
-Obj g__03517896_037 = PRIM_CDR(g__03517438_037);
-Obj g__03517897_037 = PRIM_EQ(g__03517437_037, g__03517609_037);
-if (True == g__03517897_037) {
-Obj g__03517898_037 = makeCons(co->gc, g__03517609_037, g__03517610_037);
-coraReturn(co, g__03517898_037);
+Obj g__03517646_037 = makeNative(co->gc, 1, clofun0, 0, 2, g__03517477_037, g__03517476_037);
+Obj g__03517928_037 = PRIM_ISCONS(g__03517477_037);
+if (True == g__03517928_037) {
+Obj g__03517929_037 = PRIM_CAR(g__03517477_037);
+Obj g__03517930_037 = PRIM_ISCONS(g__03517929_037);
+if (True == g__03517930_037) {
+Obj g__03517931_037 = PRIM_CAR(g__03517477_037);
+Obj g__03517932_037 = PRIM_CAR(g__03517931_037);
+Obj g__03517648_037 = g__03517932_037;
+Obj g__03517933_037 = PRIM_CAR(g__03517477_037);
+Obj g__03517934_037 = PRIM_CDR(g__03517933_037);
+Obj g__03517649_037 = g__03517934_037;
+Obj g__03517935_037 = PRIM_CDR(g__03517477_037);
+Obj g__03517936_037 = PRIM_EQ(g__03517476_037, g__03517648_037);
+if (True == g__03517936_037) {
+Obj g__03517937_037 = makeCons(co->gc, g__03517648_037, g__03517649_037);
+coraReturn(co, g__03517937_037);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517607_037);
+coraCall0(co, g__03517646_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517607_037);
+coraCall0(co, g__03517646_037);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, g__03517607_037);
+coraCall0(co, g__03517646_037);
 return;
 }
 }
@@ -9006,13 +9051,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj g__03517886_037 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == g__03517886_037) {
-Obj g__03517887_037 = PRIM_CAR(closureRef(R[0], 0));
-Obj g__03517888_037 = PRIM_CDR(closureRef(R[0], 0));
-Obj g__03517608_037 = g__03517888_037;
+Obj g__03517925_037 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == g__03517925_037) {
+Obj g__03517926_037 = PRIM_CAR(closureRef(R[0], 0));
+Obj g__03517927_037 = PRIM_CDR(closureRef(R[0], 0));
+Obj g__03517647_037 = g__03517927_037;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), g__03517608_037);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), g__03517647_037);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index 5e8dba8..6d2932c 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -575,7 +575,8 @@
 	  (generate-str to "}\n\n")
 	  )))
 
-  (defun generate-entry (to globals label)
+  ;; group is the toplevel lambda, entry allocates its frame
+  (defun generate-entry (to globals group)
     (begin
      (generate-str to "void entry(struct Cora *co, int label, Obj *R) {\n")
      (generate-str to "if (packageID == -1) { packageID = packageIDAlloc(); }\n")
@@ -593,8 +594,11 @@
 	    0 globals)
      (generate-str to "addPackage(co, packageID, __symbolTable);\n")
 
+     (generate-str to "stackAlloc(co, ")
+     (generate-num to (lambda-frame-size (cadr group)))
+     (generate-str to ")[0] = Nil;\n")
      (generate-str to "co->ctx.fn = ")
-     (generate-group-name to label)
+     (generate-group-name to (car group))
      (generate-str to ";\n")
      (generate-str to "co->ctx.label = 0;\n}\n\n")))
 
@@ -609,7 +613,7 @@
 		  (generate-str to ";\n")))
 	       bc)
      (generate-str to "\n\n")
-     (generate-entry to globals (caar bc))
+     (generate-entry to globals (car bc))
      (for-each (lambda (group)
 		 (generate-toplevel-lambda to group globals))
 	       bc)))
diff --git a/src/runtime.c b/src/runtime.c
index 97a7c60..3d6f77b 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -367,10 +367,8 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 		coraReturn(co, makeString(co->gc, error, strlen(error)));
 		return;
 	}
+	// Pass control to the loaded code, it returns to the caller of load-so.
 	entry(co, 0, R);
-	coraRun(co);
-	coraReturn(co, co->res);
-	return;
 }
 
 static int
-- 
2.43.0


From 6743f244de0214e68a3f94d3705ef30f1bf44969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 19/29] fix: check the kind of a value by its tag

tag() read three bits of numbers as if they were a tag, so (vector? 31)
followed a null pointer, and the header test of car, bytesData etc. read the
text length of a symbol as a kind. PRIM_CAR and PRIM_CDR had no check.
---
 src/gc.h      |  3 ++-
 src/reader.c  |  2 +-
 src/runtime.c |  4 ++--
 src/runtime.h | 10 +++++-----
 src/types.c   | 27 +++++++++++----------------
 src/types.h   |  8 ++++----
 6 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/src/gc.h b/src/gc.h
index db28536..58e9d3d 100644
--- a/src/gc.h
+++ b/src/gc.h
@@ -69,7 +69,8 @@ typedef uintptr_t Obj;
 #define OBJ_MASK 0x7FF8000000000000 // 0111  1111 1111 1000
 
 static inline void* ptr(Obj o) { return (void*)(o & (((uintptr_t)1 << 48) - 1)); }
-#define tag(o) (((o) >> 48) & 7)
+// Numbers have no tag, any bits may occur at its place in them.
+#define tag(o) (isobj(o) ? ((o) >> 48) & 7 : 0)
 
 enum {
 	TAG_IMMED  = 0b001,
diff --git a/src/reader.c b/src/reader.c
index b76e2eb..0f1f57e 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -287,7 +287,7 @@ printObj(FILE *to, Obj o) {
 		}
 	} else if (o == Nil) {
 		fprintf(to, "()");
-	} else if (isobj(o)) {
+	} else if (isScmHead(o)) {
 		scmHead *h = ptr(o);
 		switch (h->type) {
 		case scmHeadCons:
diff --git a/src/runtime.c b/src/runtime.c
index 3d6f77b..ad3fdef 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -185,6 +185,7 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 
 Binding
 bindSymbol(Cora *co, Obj sym) {
+	assert(tag(sym) == TAG_SYMBOL);
 	strBuf s = ptr(sym);
 	str xx = toStr(s);
 	Binding *node = mapGet(&co->env, xx);
@@ -388,8 +389,7 @@ builtinApply(Cora *co, int label, Obj *R) {
 	Obj args = R[2];
 	int nargs = listLen(args);
 
-	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
+	struct scmNative *f = mustNative(fn);
 	if (f->required != nargs) {
 		// TODO
 		assert(false);
diff --git a/src/runtime.h b/src/runtime.h
index a963f65..803fece 100644
--- a/src/runtime.h
+++ b/src/runtime.h
@@ -90,8 +90,8 @@ void coraCall(Cora *co, Obj fn, int nargs, Obj *args);
 
 static inline void
 coraCall0(Cora *co, Obj fn) {
+	assert(tag(fn) == TAG_NATIVE);
 	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
 	if (f->required != 0) {
 		coraReturn(co, fn);
 		return;
@@ -104,8 +104,8 @@ coraCall0(Cora *co, Obj fn) {
 
 static inline void
 coraCall1(Cora *co, Obj fn, Obj arg1) {
+	assert(tag(fn) == TAG_NATIVE);
 	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
 	if (f->required != 1) {
 		Obj args[1] = {arg1};
 		return coraCall(co, fn, 1, args);
@@ -119,8 +119,8 @@ coraCall1(Cora *co, Obj fn, Obj arg1) {
 
 static inline void
 coraCall2(Cora *co, Obj fn, Obj arg1, Obj arg2) {
+	assert(tag(fn) == TAG_NATIVE);
 	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
 	if (f->required != 2) {
 		Obj args[2] = {arg1, arg2};
 		return coraCall(co, fn, 2, args);
@@ -135,8 +135,8 @@ coraCall2(Cora *co, Obj fn, Obj arg1, Obj arg2) {
 
 static inline void
 coraCall3(Cora *co, Obj fn, Obj arg1, Obj arg2, Obj arg3) {
+	assert(tag(fn) == TAG_NATIVE);
 	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
 	if (f->required != 3) {
 		Obj args[3] = {arg1, arg2, arg3};
 		return coraCall(co, fn, 3, args);
@@ -156,8 +156,8 @@ coraCall3(Cora *co, Obj fn, Obj arg1, Obj arg2, Obj arg3) {
 // Anyway, static inline should not care about parameter count.
 static inline void
 coraCall4(Cora *co, Obj fn, Obj arg1, Obj arg2, Obj arg3, Obj arg4) {
+	assert(tag(fn) == TAG_NATIVE);
 	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
 	if (f->required != 4) {
 		Obj args[4] = {arg1, arg2, arg3, arg4};
 		return coraCall(co, fn, 4, args);
diff --git a/src/types.c b/src/types.c
index 5e01e5e..1b5c4f1 100644
--- a/src/types.c
+++ b/src/types.c
@@ -109,15 +109,15 @@ makeBytes(GC *gc, int len) {
 
 char *
 bytesData(Obj o) {
+	assert(isBytes(o));
 	struct scmBytes *s = ptr(o);
-	assert(s->head.type == scmHeadBytes);
 	return s->data;
 }
 
 int
 bytesLen(Obj o) {
+	assert(isBytes(o));
 	struct scmBytes *s = ptr(o);
-	assert(s->head.type == scmHeadBytes);
 	return s->len;
 }
 
@@ -137,8 +137,8 @@ makeCString(GC *gc, const char *s) {
 
 str
 stringStr(Obj o) {
+	assert(isBytes(o));
 	struct scmBytes *s = ptr(o);
-	assert(s->head.type == scmHeadBytes);
 	str ret;
 	ret.str = s->data;
 	ret.len = s->len;
@@ -212,9 +212,8 @@ makeNative(GC *gc, int nframe, basicBlock fn, int required, int captured,
 
 struct scmNative *
 mustNative(Obj o) {
-	struct scmNative *native = ptr(o);
-	assert(native->head.type == scmHeadNative);
-	return native;
+	assert(tag(o) == TAG_NATIVE);
+	return ptr(o);
 }
 
 static void
@@ -228,8 +227,7 @@ nativeGCFunc(GC *gc, void *f) {
 
 Obj *
 nativeData(Obj o) {
-	struct scmNative *native = ptr(o);
-	assert(native->head.type == scmHeadNative);
+	struct scmNative *native = mustNative(o);
 	if (native->captured == 0) {
 		return NULL;
 	}
@@ -238,22 +236,19 @@ nativeData(Obj o) {
 
 int
 nativeCaptured(Obj o) {
-	struct scmNative *native = ptr(o);
-	assert(native->head.type == scmHeadNative);
+	struct scmNative *native = mustNative(o);
 	return native->captured;
 }
 
 basicBlock
 nativeFn(Obj o) {
-	struct scmNative *native = ptr(o);
-	assert(native->head.type == scmHeadNative);
+	struct scmNative *native = mustNative(o);
 	return native->fn;
 }
 
 int
 nativeRequired(Obj o) {
-	struct scmNative *native = ptr(o);
-	assert(native->head.type == scmHeadNative);
+	struct scmNative *native = mustNative(o);
 	return native->required;
 }
 
@@ -274,16 +269,16 @@ makeVector(GC *gc, int size, int cap) {
 
 Obj
 vectorRef(Obj v, int idx) {
+	assert(isvector(v));
 	struct scmVector *vec = ptr(v);
-	assert(vec->head.type == scmHeadVector);
 	assert(idx >= 0 && idx < vec->size);
 	return vec->data[idx];
 }
 
 Obj
 vectorSet(GC *gc, Obj vec, int idx, Obj val) {
+	assert(isvector(vec));
 	struct scmVector *v = ptr(vec);
-	assert(v->head.type == scmHeadVector);
 	assert(idx >= 0 && idx < v->size);
 	writeBarrierForIncremental(gc, &v->data[idx], val);
 	writeBarrierForGeneration(gc, &v->head, val);
diff --git a/src/types.h b/src/types.h
index 342757c..48fa5a0 100644
--- a/src/types.h
+++ b/src/types.h
@@ -69,8 +69,8 @@ Obj consp(Obj v);
 Obj cadr(Obj v);
 Obj caddr(Obj v);
 Obj cdddr(Obj v);
-static inline Obj car(Obj o) { struct scmCons* c = (struct scmCons*)ptr(o); assert(c->head.type == scmHeadCons); return c->car; }
-static inline Obj cdr(Obj o) { struct scmCons* c = (struct scmCons*)ptr(o); assert(c->head.type == scmHeadCons); return c->cdr; }
+static inline Obj car(Obj o) { assert(iscons(o)); struct scmCons* c = (struct scmCons*)ptr(o); return c->car; }
+static inline Obj cdr(Obj o) { assert(iscons(o)); struct scmCons* c = (struct scmCons*)ptr(o); return c->cdr; }
 
 Obj makeCObj(void *ptr);
 
@@ -92,8 +92,8 @@ static inline Obj makeNumber(int64_t v) {
 }
 #define MAKE_NUMBER(v) makeNumber(v)
 
-#define PRIM_CAR(obj) ((Obj)(((struct scmCons*)(ptr(obj)))->car))
-#define PRIM_CDR(obj) ((Obj)(((struct scmCons*)(ptr(obj)))->cdr))
+#define PRIM_CAR(obj) car(obj)
+#define PRIM_CDR(obj) cdr(obj)
 #define PRIM_ISCONS(obj) (iscons(obj)? True: False)
 
 #define PRIM_EQ(x, y) (eq(x, y) ? True : False)
-- 
2.43.0


From 18222ad8c7dd1d36f1d9d12150932b43e74f3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 20/29] fix: reject indices and sizes that do not fit

string-index and memcpy accepted any offset, bytes and vector a negative or
overflowing size, and the size of a continuation was narrowed to int.
---
 lib/string.c  | 13 +++++++++----
 src/runtime.c |  7 ++++---
 src/types.c   |  5 ++++-
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 8b5b551..de61079 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -65,7 +65,8 @@ stringIndex(struct Cora *co, int label, Obj *R) {
 	Obj y = R[2];
 
 	char *str = bytesData(x);
-	int idx = fixnum(y);
+	int64_t idx = fixnum(y);
+	assert(idx >= 0 && idx < bytesLen(x));
 	Obj ret = makeString(co->gc, str + idx, 1);
 	coraReturn(co, ret);
 }
@@ -166,9 +167,13 @@ bytesMemCpy(struct Cora *co, int label, Obj *R) {
 	Obj off2 = R[4];
 	Obj size = R[5];
 
-	char *dst = bytesData(to) + fixnum(off1);
-	char *src = bytesData(from) + fixnum(off2);
-	memcpy(dst, src, fixnum(size));
+	int64_t to_off = fixnum(off1);
+	int64_t from_off = fixnum(off2);
+	int64_t n = fixnum(size);
+	assert(n >= 0);
+	assert(to_off >= 0 && to_off <= bytesLen(to) && n <= bytesLen(to) - to_off);
+	assert(from_off >= 0 && from_off <= bytesLen(from) && n <= bytesLen(from) - from_off);
+	memmove(bytesData(to) + to_off, bytesData(from) + from_off, n);
 	coraReturn(co, Nil);
 }
 
diff --git a/src/runtime.c b/src/runtime.c
index ad3fdef..201cdb4 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -9,6 +9,7 @@
 #include "vector.h"
 #include <dlfcn.h>
 #include <errno.h>
+#include <limits.h>
 #include <pwd.h>
 #include <stdlib.h>
 #include <sys/stat.h>
@@ -761,9 +762,9 @@ makeContinuation(Cora *co, Frame *callstack, int len, Obj **stk,
 	int count) {
 	size_t callstackBytes = len * sizeof(Frame);
 	size_t segstackBytes = count * sizeof(Obj *);
-	struct scmContinuation *cont =
-		newObj(co->gc, scmHeadContinuation,
-			sizeof(struct scmContinuation) + callstackBytes + segstackBytes);
+	size_t sz = sizeof(struct scmContinuation) + callstackBytes + segstackBytes;
+	assert(sz <= INT_MAX);
+	struct scmContinuation *cont = newObj(co->gc, scmHeadContinuation, sz);
 	cont->len = len;
 	cont->count = count;
 	Frame *p = (Frame *)cont->data;
diff --git a/src/types.c b/src/types.c
index 1b5c4f1..5cdb8e1 100644
--- a/src/types.c
+++ b/src/types.c
@@ -2,6 +2,7 @@
 #include "gc.h"
 #include "map.h"
 #include "str.h"
+#include <limits.h>
 #include <stdarg.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -101,6 +102,7 @@ Obj
 makeBytes(GC *gc, int len) {
 	// sz is the actural length but we malloc a extra byte to be compatible with
 	// C.
+	assert(len >= 0 && len <= INT_MAX - (int)sizeof(struct scmBytes) - 1);
 	int alloc = len + sizeof(struct scmBytes) + 1;
 	struct scmBytes *str = newObj(gc, scmHeadBytes, alloc);
 	str->len = len;
@@ -254,7 +256,8 @@ nativeRequired(Obj o) {
 
 Obj
 makeVector(GC *gc, int size, int cap) {
-	assert(size <= cap);
+	assert(size >= 0 && size <= cap);
+	assert(cap <= (INT_MAX - sizeof(struct scmVector)) / sizeof(Obj));
 	struct scmVector *vec =
 		newObj(gc, scmHeadVector, sizeof(struct scmVector) + sizeof(Obj) * cap);
 	vec->head.rset = NULL;
-- 
2.43.0


From e0515ac60d5876ebaee5d9484ab8df76a7270833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 21/29] fix: initialise new byte strings and the machine

The bytes of (bytes n) and their terminator, the vectors of globals and
packages, the result register and the code register were left as allocated.
---
 src/runtime.c | 5 +++++
 src/types.c   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 201cdb4..effe63a 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -62,6 +62,11 @@ coraNew() {
 	segmentStackInit(&co->stk);
 	co->ctx.bp = co->stk.begin;
 	co->ctx.sp = co->stk.begin;
+	co->ctx.fn = NULL;
+	co->ctx.label = 0;
+	co->res = Nil;
+	vecInit(&co->globals, 64);
+	vecInit(&co->pkgs, 8);
 	vecInit(&co->trystack, 4);
 	mapInit(&co->env, strHashFunc, strEQFunc);
 	return co;
diff --git a/src/types.c b/src/types.c
index 5cdb8e1..2e838e3 100644
--- a/src/types.c
+++ b/src/types.c
@@ -106,6 +106,7 @@ makeBytes(GC *gc, int len) {
 	int alloc = len + sizeof(struct scmBytes) + 1;
 	struct scmBytes *str = newObj(gc, scmHeadBytes, alloc);
 	str->len = len;
+	memset(str->data, 0, len + 1);
 	return makeNaNPtr(&str->head, TAG_BYTES);
 }
 
-- 
2.43.0


From 1bf1f535d304ea84d0dd44457941523bde39e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 22/29] fix: check what the system returns before using it

---
 lib/io.c  | 10 +++++++---
 lib/net.c | 11 ++++++++++-
 lib/os.c  |  6 +++++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index c10e6c1..ecef7f2 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -25,6 +25,8 @@ mkdirP(const char *path) {
 
 	snprintf(tmp, sizeof(tmp), "%s", path);
 	len = strlen(tmp);
+	if (len == 0)
+		return -1;
 
 	// remove trailing slash
 	if (len > 0 && (tmp[len - 1] == '/'))
@@ -57,6 +59,8 @@ builtinOpenOutputFile(struct Cora *co, int label, Obj *R) {
 	FILE *f = fopen(filePath.str, "w");
 	if (f == NULL) {
 		fprintf(stderr, "Failed to open file '%s', err: %s\n", filePath.str, strerror(errno));
+		coraReturn(co, Nil);
+		return;
 	}
 	coraReturn(co, makeCObj(f));
 	return;
@@ -110,7 +114,7 @@ ioCopy(struct Cora *co, int label, Obj *R) {
 			break;
 		}
 	}
-	coraReturn(co, feof(from));
+	coraReturn(co, makeNumber(feof(from)));
 }
 
 static void
@@ -122,8 +126,8 @@ ioWrite(struct Cora *co, int label, Obj *R) {
 	size_t off = 0;
 	while (off < len) {
 		size_t sz = fwrite(data + off, 1, len - off, to);
-		if (sz < 0) {
-			coraReturn(co, makeNumber(sz));
+		if (sz == 0) {
+			coraReturn(co, makeNumber(off));
 			return;
 		}
 		off += sz;
diff --git a/lib/net.c b/lib/net.c
index c27ad3d..17cc5be 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -58,6 +58,11 @@ netListen(struct Cora *ctx, int label, Obj *R) {
 	/* printf("host = %s, port = %d\n", host, port); */
 
 	int fd = socket(AF_INET, SOCK_STREAM, 0);
+	if (fd < 0) {
+		fprintf(stderr, "socket error\n");
+		coraReturn(ctx, Nil);
+		return;
+	}
 	/* printf("listen fd = %d\n", fd); */
 
 	struct sockaddr_in addr;
@@ -67,12 +72,14 @@ netListen(struct Cora *ctx, int label, Obj *R) {
 	addr.sin_port = htons(port);
 	if (bind(fd, (struct sockaddr *)&addr, sizeof(struct sockaddr_in)) < 0) {
 		fprintf(stderr, "bind error\n");
+		close(fd);
 		coraReturn(ctx, Nil);
 		return;
 	}
 
 	if (listen(fd, 200) < 0) {
 		fprintf(stderr, "listen error\n");
+		close(fd);
 		coraReturn(ctx, Nil);
 		return;
 	}
@@ -115,12 +122,12 @@ netDial(struct Cora *ctx, int label, Obj *R) {
 			break;
 		close(fd);
 	}
+	freeaddrinfo(result); /* No longer needed */
 	if (rp == NULL) {
 		fprintf(stderr, "Could not connect\n");
 		coraReturn(ctx, Nil);
 		return;
 	}
-	freeaddrinfo(result); /* No longer needed */
 	setNonBlock(fd);
 
 	coraReturn(ctx, makeNumber(fd));
@@ -137,6 +144,7 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 	char *buf = bytesData(arg2);
 	int len = bytesLen(arg2);
 	int pos = fixnum(arg3);
+	assert(pos >= 0);
 
 	/* printf("call net send fd ===%d\n", fd); */
 
@@ -182,6 +190,7 @@ netRecv(struct Cora *ctx, int label, Obj *R) {
 	char *buf = bytesData(arg2);
 	int len = bytesLen(arg2);
 	int pos = fixnum(arg3);
+	assert(pos >= 0);
 
 	/* printf("in netRecv... fd=%d, len=%d, pos=%d\n", fd, len, pos); */
 
diff --git a/lib/os.c b/lib/os.c
index 84d0ef7..ff50a9e 100644
--- a/lib/os.c
+++ b/lib/os.c
@@ -36,6 +36,10 @@ popenFn(struct Cora *co, int label, Obj *R) {
 	strBuf cmdStr = cmdListStr(cmd);
 	FILE *f = popen(toCStr(cmdStr), type);
 	strFree(cmdStr);
+	if (f == NULL) {
+		coraReturn(co, Nil);
+		return;
+	}
 	coraReturn(co, makeCObj(f));
 	return;
 }
@@ -45,7 +49,7 @@ pcloseFn(struct Cora *co, int label, Obj *R) {
 	Obj arg = R[1];
 	FILE *f = mustCObj(arg);
 	int res = pclose(f);
-	coraReturn(co, res);
+	coraReturn(co, makeNumber(res));
 }
 
 static struct registerModule osModule = {
-- 
2.43.0


From bc2481027c5af32e0b80184026478d30b873efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 23/29] fix: prim arithmetic works on numbers, not on their
 representation

---
 src/runtime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index effe63a..0221376 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -893,7 +893,7 @@ primLT(Obj x, Obj y) {
 Obj
 primDiv(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return makeNumber(x / y);
+		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -903,7 +903,7 @@ primDiv(Obj x, Obj y) {
 Obj
 primAdd(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x + y;
+		return makeNumber(fixnum(x) + fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -949,7 +949,7 @@ primIsCons(Obj x) {
 Obj
 primSub(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x - y;
+		return makeNumber(fixnum(x) - fixnum(y));
 	} else {
 		// TODO
 		assert(false);
-- 
2.43.0


From 2fae7d92932fafc6c9ef52d9eb2df6f8643519a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 24/29] fix: release text buffers on every path

---
 lib/md4c/wrap.c | 2 ++
 src/runtime.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index ad9015b..0a118a8 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -69,7 +69,9 @@ render_append_text1(MD_HTML *r, const MD_CHAR *data, MD_SIZE size) {
 	strBuf s = fromCStr("language-");
 	strBuf lang = fromBlk((char *)data, size);
 	s = strCat(s, toStr(lang));
+	strFree(lang);
 	append_curr(r, coraMakeString(r->co, toCStr(s), strLen(toStr(s))));
+	strFree(s);
 }
 
 static void
diff --git a/src/runtime.c b/src/runtime.c
index 0221376..cd21f38 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -479,6 +479,7 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	strFree(path);
 	int exitCode = system(buf);
 	if (exitCode != 0) {
+		strFree(tmp);
 		coraReturn(co, makeNumber(exitCode));
 		return;
 	}
-- 
2.43.0


From f787e167630f42000b2a6d7757e7d07c06ffad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 25/29] fix: look up the cora path without reading outside it

---
 src/runtime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index cd21f38..a3a290e 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -421,13 +421,14 @@ getCoraPath() {
 	char *coraPath = getenv("CORAPATH");
 	if (coraPath == NULL) {
 		struct passwd *pw = getpwuid(getuid());
+		assert(pw != NULL);
 		char *homeDir = pw->pw_dir;
 		tmp = strCpy(tmp, cstr(homeDir));
 		tmp = strCat(tmp, S("/.local/share/cora/"));
 	} else {
 		tmp = strCpy(tmp, cstr(coraPath));
 	}
-	if (toCStr(tmp)[strLen(toStr(tmp)) - 1] != '/') {
+	if (strLen(toStr(tmp)) == 0 || toCStr(tmp)[strLen(toStr(tmp)) - 1] != '/') {
 		tmp = strCat(tmp, S("/"));
 	}
 	return tmp;
@@ -669,7 +670,7 @@ builtinStringAppend(Cora *co, int label, Obj *R) {
 	Obj str2 = R[2];
 	str x = stringStr(str1);
 	str y = stringStr(str2);
-	strBuf tmp = strNew(x.len + y.len);
+	strBuf tmp = strNew(x.len + y.len + 1);
 	tmp = strCpy(tmp, x);
 	tmp = strCat(tmp, y);
 	str s = toStr(tmp);
-- 
2.43.0


From 9acbee5ed03f7f14c8e8d0712e6fefbd67094cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 26/29] fix: the script file is closed, its first line skipped
 whole

---
 main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index 29714e0..71a6c53 100644
--- a/main.c
+++ b/main.c
@@ -63,8 +63,8 @@ shebang(Cora* co, int argc, char* argv[]) {
 		if (line == NULL) {
 			exit(-1);
 		}
-		// The length of the first line is more than 255 bytes.
-		if (buf[254] != '\n') {
+		// A line of more than 255 bytes comes in several pieces.
+		if (strchr(buf, '\n') != NULL) {
 			break;
 		}
 	}
@@ -78,6 +78,7 @@ shebang(Cora* co, int argc, char* argv[]) {
 	coraPrimSet(co, intern("*command-line-args*"), args);
 
 	repl(co, f);
+	fclose(f);
 }
 
 /* extern void entry(struct Cora *co, int label, Obj *R); */
-- 
2.43.0


From 2d26792eb7f92f8d8841b873c0dfe99956779d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 27/29] fix: the value of a json node that is not a string is
 empty

---
 lib/json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/json.c b/lib/json.c
index a58cef7..ff230c6 100644
--- a/lib/json.c
+++ b/lib/json.c
@@ -95,6 +95,10 @@ jsonStringValue(struct Cora *co, int label, Obj *R) {
 	json_t *json = (json_t *)mustCObj(R[1]);
 	const char *s = json_string_value(json);
 	size_t len = json_string_length(json);
+	if (s == NULL) {
+		coraReturn(co, makeCString(co->gc, ""));
+		return;
+	}
 	coraReturn(co, makeString(co->gc, s, len));
 }
 
-- 
2.43.0


From e5a2d7cefd891c68a2e27f112628d82ea715aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 28/29] fix: do not keep a poll descriptor that could not be
 obtained

---
 lib/net.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/net.c b/lib/net.c
index 17cc5be..66c4e9d 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -294,11 +294,12 @@ netPollFDInit(struct Cora *co, int label, Obj *R) {
 	}
 
 	// init thread local variable
-	pollfd = pollCreate();
-	if (pollfd == -1) {
+	int fd = pollCreate();
+	if (fd < 0) {
 		perror("epoll_create1");
-		// TODO
+		exit(1);
 	}
+	pollfd = fd;
 	coraReturn(co, Nil);
 	return;
 }
-- 
2.43.0


From 0c1208150f0965fcf138d889ef7e4ca7a76af312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 29/29] fix: close a library that has no entry

---
 src/runtime.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index a3a290e..424fe9d 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -370,8 +370,9 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 	basicBlock entry = dlsym(handle, "entry");
 	char *error = dlerror();
 	if (error != NULL) {
-		// TODO
-		coraReturn(co, makeString(co->gc, error, strlen(error)));
+		Obj msg = makeString(co->gc, error, strlen(error));
+		dlclose(handle);
+		coraReturn(co, msg);
 		return;
 	}
 	// Pass control to the loaded code, it returns to the caller of load-so.
-- 
2.43.0

