From aabe9cce7b88a1c983a8f2f0cceb1bd31d245480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 01/40] fix: HilbertPoly::binomial did not clear its temporary
 rational

---
 util/hilbertpoly.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index f101d89..be1fad6 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -106,6 +106,8 @@ void HilbertPoly::binomial(long int a, unsigned long b) {
     for(k = 0; k < mDim; k++)
       mpq_canonicalize(mCoeff + k);
 
+    mpq_clear(&q);
+
     for(k = 0; k < b; k++)
       mpq_clear(tmp + k);
 
-- 
2.43.0


From 0885699816a796291309cb7fcf53c60d3569edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 02/40] fix: quotient of module monomials kept the component,
 so reduction of module elements gave wrong components

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..f271364 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos != -1)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From a41fe94a70eb3ac1284e44f26c6c687af680ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 03/40] fix: equality of monomials ignored the module component

---
 ginv/monom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index f271364..a071292 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
-- 
2.43.0


From 170d64ce24629f0f5bc3627d8216d4c35c986fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 04/40] fix: multiplying by a one-term polynomial leaked all
 old terms but the first

---
 ginv/poly_int.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..6d198d9 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -295,7 +295,11 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    j = tmp.begin();
+    while(j) {
+      mAllocator->destroy(j.data());
+      j.del();
+    }
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From 7a864d5c4b587765be901c4e9b950c5117b6722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 05/40] fix: the zeroth power of a polynomial was zero instead
 of one

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d198d9..526e172 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -362,8 +362,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    mHead.push(new(mAllocator) Term(mAllocator, mSize));
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From 3da09d6eec9a8d135abd5501776bd20562e4cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 06/40] fix: adding or subtracting a constant left a zero term
 for zero and misplaced the constant under alex

---
 ginv/poly_int.cpp | 44 ++------------------------------------------
 ginv/poly_int.h   |  2 ++
 2 files changed, 4 insertions(+), 42 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 526e172..ebcedb3 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -127,26 +127,7 @@ void PolyInt::minus() {
 }
 
 void PolyInt::add(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  add(PolyInt(mAllocator, mOrder, mSize, hex));
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -183,28 +164,7 @@ void PolyInt::add(const PolyInt &a) {
 }
 
 void PolyInt::sub(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  sub(PolyInt(mAllocator, mOrder, mSize, hex));
 }
 
 void PolyInt::sub(const PolyInt &a) {
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..f7a47d5 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -134,6 +134,8 @@ public:
       mAllocator(allocator),
       mHead(allocator) {
     mHead.push(new(allocator) Term(allocator, size, integer));
+    if (lc().isZero())
+      clear();
     assert(assertValid());
   }
   PolyInt(Allocator* allocator, int order, const Monom& a):
-- 
2.43.0


From f8d8fba03290d6b0b54b2699aee7c383668cc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 07/40] fix: subtracting a polynomial from itself read released
 terms

---
 ginv/poly_int.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index ebcedb3..4bc1536 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -169,6 +169,10 @@ void PolyInt::sub(const char* hex) {
 
 void PolyInt::sub(const PolyInt &a) {
   assert(comparable(a));
+  if (this == &a) {
+    clear();
+    return;
+  }
   List<Term*>::ConstIterator ia(a.mHead.begin());
   List<Term*>::Iterator i(mHead.begin());
   while(i && ia)
-- 
2.43.0


From 309561bcf87a739b048060543f8de8a10b8e0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 08/40] fix: MCompletion::insert: stop after dropping a
 duplicate monomial

The duplicate was destroyed and then read by the loop that follows.
---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From 2630cfe1c40b54602d058fdc8a376b038f654b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 09/40] fix: Janet: copying a tree keeps the last subtree

The subtree below the last node of each degree chain was dropped.
---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 0984629fb17b4d08c66107f997547c2bd903947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 10/40] fix: Wrap::update notices a change of the module
 component

A polynomial whose new head has the old exponents in another component
was entered into the Janet tree of the old component.
---
 ginv/wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..82d9d33 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm != m) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From eb6cf5cb81306a9fdab5914886379e4f12fafb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 11/40] fix: JanetPolyInt: no product criterion for module
 elements

The product criterion holds for polynomials only; for module elements it
dropped syzygies that yield new basis elements.
---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 4bc1536..3af38a0 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -588,7 +588,7 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      if (d && m.pos() < 0 && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
-- 
2.43.0


From 4cd4efb669aa48c6db17ae6b7a4a75792017eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 12/40] fix: Monom::gcd/lcm: the operands may lie in the same
 component

prolong() takes the lcm of ancestors of module elements.
---
 ginv/monom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index a071292..2358625 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -289,7 +289,7 @@ void Monom::div(const Monom& a) {
 
 int Monom::gcd(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] <= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
@@ -298,7 +298,7 @@ int Monom::gcd(const Monom& a) const {
 
 int Monom::lcm(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] >= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
-- 
2.43.0


From 4dae43d185698d4939adaaacb8795ee91443d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 13/40] fix: prolongations of elements above the current degree
 were never treated

---
 ginv/poly_int.cpp | 15 +++++++++++----
 ginv/poly_int.h   |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 3af38a0..0694629 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -602,6 +602,13 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::pending() {
+  if (!mQ)
+    for(GCListWrapPolyInt::ConstIterator j(mT.begin()); j; ++j)
+      prolong(j.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -674,7 +681,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(pending()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -891,7 +898,7 @@ void JanetPolyInt::algorithmTQ1() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(pending()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1075,7 +1082,7 @@ void JanetPolyInt::algorithmTQ2() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(pending()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1272,7 +1279,7 @@ void JanetPolyInt::algorithmTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(pending()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f7a47d5..241beb0 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -369,6 +369,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool pending();
   bool assertT() const;
 
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
-- 
2.43.0


From bfc0e689b31cf18aecfc83aa2208c85f748cb981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 14/40] fix: algorithmTQ2 lost elements when the degree drops

---
 ginv/poly_int.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 0694629..fe924e9 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1209,14 +1209,14 @@ void JanetPolyInt::algorithmTQ2() {
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-    if (degPref > deg) {
-      delete[] mJanet;
-      mJanet = new GCJanet[mPos+2];
-      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
-        j.data()->clearNM();
-        mQ.push(j.data());
-      }
-    }
+//    if (degPref > deg) {
+//      delete[] mJanet;
+//      mJanet = new GCJanet[mPos+2];
+//      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
+//        j.data()->clearNM();
+//        mQ.push(j.data());
+//      }
+//    }
     degPref = deg;
 
 
-- 
2.43.0


From c9180c2e92260af74887af2e02f2d8cfe01fff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 15/40] fix: algorithmBlockTQ left reducible tails in new
 elements of equal degree

---
 ginv/poly_int.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index fe924e9..1f36695 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -840,26 +840,28 @@ std::cerr << "A" << std::endl;
     k = mT.begin();
     while(k && j) {
       if (j.data()->poly().cmp(k.data()->poly()) < 0) {
-        assert(j.data()->poly().isNf(*this));
         k.insert(j.data());
         ++j;
       }
-      else {
-        int r=k.data()->poly().nfTail(*this);
-        if (r) {
-          mReduction += r;
-          k.data()->poly().pp();
-          k.data()->reallocate();
-        }
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
       }
       if (k.data()->lm().degree() <= deg)
         prolong(k.data());
       ++k;
     }
     while(j) {
-      assert(j.data()->poly().isNf(*this));
       k.insert(j.data());
       ++j;
+      int r=k.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        k.data()->poly().pp();
+        k.data()->reallocate();
+      }
       if (k.data()->lm().degree() <= deg)
         prolong(k.data());
       ++k;
-- 
2.43.0


From 77f6b5368f967dfe6ae1fc7faf18e7a737a02434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 16/40] fix: input polynomials entered the basis with their
 content (algorithms TQ, TQ1, TQ2)

---
 ginv/poly_int.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 1f36695..a493173 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1018,6 +1018,7 @@ void JanetPolyInt::algorithmTQ1() {
     assert(assertSort(mQ));
 
     w->update(w->poly().lm());
+    w->poly().pp();
     mJanet[w->lm().pos()+1].insert(w);
 
 //     if (degPref > deg) {
@@ -1209,6 +1210,7 @@ void JanetPolyInt::algorithmTQ2() {
       w->reallocate();
     }
     w->update(w->poly().lm());
+    w->poly().pp();
     mJanet[w->lm().pos()+1].insert(w);
 
 //    if (degPref > deg) {
@@ -1367,6 +1369,7 @@ void JanetPolyInt::algorithmTQ() {
      assert(assertSort(mQ));
 
     w->update(w->poly().lm());
+    w->poly().pp();
     mJanet[w->lm().pos()+1].insert(w);
 
 //     if (degPref > deg) {
-- 
2.43.0


From 92570d329a680c48f2b2e4c722fcf475e960cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 17/40] fix: algorithmTQ2 crashed when every generator is zero

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index a493173..0830b36 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1267,7 +1267,7 @@ void JanetPolyInt::algorithmTQ2() {
 
   std::cerr << "isZeroNf() - " << isZeroNf() << std::endl;
 
-  if (mOneWrap == nullptr) {
+  if (mOneWrap == nullptr && mT) {
     HilbertPoly hp;
     buildHP(hp);
     std::cerr << "HilbertPoly - " << hp << std::endl;
-- 
2.43.0


From f721f9af7c3f37f10da855a1ad147b3bb0b8dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 18/40] fix: a module element of degree zero is not the unit

---
 ginv/poly_int.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 0830b36..b68b11b 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -697,7 +697,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -918,7 +918,7 @@ void JanetPolyInt::algorithmTQ1() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1103,7 +1103,7 @@ void JanetPolyInt::algorithmTQ2() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1299,7 +1299,7 @@ void JanetPolyInt::algorithmTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().degree() == 0 && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
-- 
2.43.0


From 0288519987dd2616754d95757021bfd2865e4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 19/40] fix: algorithmBlockTQ did not recognise the unit ideal
 when a reduction inside one degree gave a constant

---
 ginv/poly_int.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index b68b11b..ad1f9a8 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -816,6 +816,13 @@ std::cerr << "A" << std::endl;
     } while(k1);
 
     GCListWrapPolyInt::Iterator k(tmp.begin());
+    if (k.data()->poly().degree() == 0 && k.data()->poly().lm().pos() < 0) {
+      for(; k; k.del())
+        delete k.data();
+
+      setOne(order, size);
+      break;
+    }
     while(k) {
       k.data()->update(k.data()->poly().lm());
       k.data()->poly().pp();
-- 
2.43.0


From 7f74d54ee68891c061cc4af244584708eb50ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:32 +0000
Subject: [PATCH 20/40] fix: Integer::reallocate asserted on the value zero,
 which needs no limbs

---
 util/integer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/util/integer.cpp b/util/integer.cpp
index fdf1f6f..2836399 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -27,7 +27,6 @@ char*  Integer::sBuffer=new char[Integer::sBufferSize];
 
 #ifdef GINV_UTIL_INTEGER_ALLOCATOR  
   void Integer::reallocate(int size) {
-    assert(size > 0);
     if (mMpz._mp_alloc < size) {
       if (mMpz._mp_alloc)
         mAllocator->dealloc(mMpz._mp_d, mMpz._mp_alloc);
-- 
2.43.0


From d1a21df03a0f923f4228dd03700839c053004dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:32 +0000
Subject: [PATCH 21/40] fix: Janet::insert asserted on a module element of
 degree zero

---
 ginv/janet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index ee660c2..44b682d 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -338,7 +338,7 @@ void Janet::insert(Wrap *wrap) {
     Monom::Variable var = 0;
     do {
       assert(j);
-      assert(d > 0);
+      assert(d > 0 || var == 0);
       assert(var < wrap->lm().size());
 
       while(j.degree() < wrap->lm()[var] && j.nextDeg())
-- 
2.43.0


From cf004aa82bbe593cebf266cf7627188815d218cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:32 +0000
Subject: [PATCH 22/40] fix: algorithmTQ2 put the candidates it did not choose
 back unsorted

---
 ginv/poly_int.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index ad1f9a8..bc31c02 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1201,12 +1201,10 @@ void JanetPolyInt::algorithmTQ2() {
 //       continue;
 //     }
 
-    j = mQ.begin();
     k = tmp.begin();
     while(k) {
-      j.insert(k.data());
+      insert(mQ, k.data());
       k.del();
-      ++j;
     }
     assert(assertSort(mQ));
 
-- 
2.43.0


From 90a5519169bce297f8c031529d0353022975c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 23/40] fix: pyginv Monom.lcm and gcd keep the module component
 (Poly.S failed in modules)

---
 pyginv/monomial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..3d44f3f 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -164,11 +164,15 @@ class Monom(tuple):
 
   def lcm(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    return Monom(max(i, j) for i, j in zip(self, other))
+    r = Monom(max(i, j) for i, j in zip(self, other))
+    r.__pos = max(self.__pos, other.__pos)
+    return r
 
   def gcd(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    return Monom(min(i, j) for i, j in zip(self, other))
+    r = Monom(min(i, j) for i, j in zip(self, other))
+    r.__pos = min(self.__pos, other.__pos)
+    return r
 
   def __nonzero__(self):
     return self.__pos >= 0 or sum(self) > 0
-- 
2.43.0


From 20269c16307224c148ca1467004422da6de7adbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 24/40] fix: pyginv number - polynomial and number / polynomial
 swapped their operands

---
 pyginv/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index c40b8f7..d8ce04f 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -107,7 +107,7 @@ class Poly(list):
     return p
 
   def __rsub__(self, other):
-    return self-other
+    return -(self-other)
 
   def __sub__(self, other):
     if other == S.Zero:
@@ -167,7 +167,8 @@ class Poly(list):
     return p
   
   def __rtruediv__(self, other):
-    return self/other
+    assert len(self) == 1 and not self[0][0]
+    return self.__class__(other/self[0][1])
   
   def __truediv__(self, other):
     p = self.__class__()
-- 
2.43.0


From 69fa1fab658c0309211f49d13a0940eea8285de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 25/40] fix: pyginv polynomial results do not share terms with
 the operands

---
 pyginv/polynomial.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index d8ce04f..589de90 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -63,7 +63,7 @@ class Poly(list):
     return self.lm().cmp(other.lm())
 
   def __pos__(self):
-    return self
+    return self.__class__(self)
 
   def __neg__(self):
     p = self.__class__()
@@ -76,7 +76,7 @@ class Poly(list):
 
   def __add__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -86,10 +86,10 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append([self[i][0], self[i][1]])
         i += 1
       elif c < 0:
-        p.append(other[j])
+        p.append([other[j][0], other[j][1]])
         j += 1
       else:
         k = self[i][1] + other[j][1]
@@ -98,10 +98,10 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append([self[i][0], self[i][1]])
       i += 1
     while j < jend:
-      p.append(other[j])
+      p.append([other[j][0], other[j][1]])
       j += 1
     assert p.assertValid()
     return p
@@ -111,7 +111,7 @@ class Poly(list):
 
   def __sub__(self, other):
     if other == S.Zero:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -121,7 +121,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append([self[i][0], self[i][1]])
         i += 1
       elif c < 0:
         p.append([other[j][0], -other[j][1]])
@@ -133,7 +133,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append([self[i][0], self[i][1]])
       i += 1
     while j < jend:
       p.append([other[j][0], -other[j][1]])
@@ -146,7 +146,7 @@ class Poly(list):
 
   def __mul__(self, other):
     if other == S.One:
-      return self
+      return self.__class__(self)
     if isinstance(other, int): 
       other = self.__class__(Integer(other))
     else:
@@ -181,7 +181,7 @@ class Poly(list):
     if other == 0:
       p = self.__class__(Integer(1))
     else:
-      p = self
+      p = self.__class__(self)
       for i in range(1, other):
         p = p*self
     return p
-- 
2.43.0


From e8d8845b6fa02bda87016faee042a46fc95aa01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 26/40] fix: pyginv Janet.setNonmut visits the last branch of
 every node

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index fdffb11..66eb468 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -270,7 +270,7 @@ class Janet:
         if isinstance(r[-1], Wrap):
           r[-1].nonmult[r[-1].lm.nonmult(m)] = True
         else:
-          setnm(n)
+          setnm(r[-1])
     setnm(self.root)
 
   def degMinProlong(self):
-- 
2.43.0


From 064e568e3b443d3cc8adf6f87dacbf9de9b24293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 27/40] fix: pyginv product criterion only applies to
 polynomials, not to vectors

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 66eb468..3aa36d0 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -79,7 +79,7 @@ class Wrap:
     return sum(0 if i else 1 for i in self.nonmult)
 
   def crit1(self, other):
-    return type(self.poly) == Poly and\
+    return type(self.poly) == Poly and self.lm.position() < 0 and\
         all(i == 0 or j == 0 for i, j in zip(self.ansector, other.ansector))
 
   def crit2(self, other):
-- 
2.43.0


From 3f8e61187b20ac14901e6447d8eef4a51fb9f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:42 +0000
Subject: [PATCH 28/40] fix: pyginv ginvMin prolongs whatever the verbosity

---
 pyginv/ginv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index f57d193..0a3188f 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -151,13 +151,14 @@ def ginvMin(pset, invdiv, level=0):
   q = Q(Wrap(p) for p in pset)
   while True:
     m = q[0].lm if q else None
-    if level > 0:
-      if m:
+    if m is not None:
+      if level > 0:
         print(f"prolong {m}")
-        q.push(invdiv.prolongMonom(m))
-      else:
+      q.push(invdiv.prolongMonom(m))
+    else:
+      if level > 0:
         print("prolongAll")
-        q.push(invdiv.prolongAll())
+      q.push(invdiv.prolongAll())
     if not q:
       break
     r = q.reduceAll(invdiv)
-- 
2.43.0


From a4a7179634b186d7b9621d6768f0669b99fdf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 29/40] fix: pyginv ginvBlockLow treats generators of degree
 zero

---
 pyginv/ginv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index 0a3188f..1a396dc 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -198,9 +198,9 @@ def ginvBlockLow(pset, invdiv, level=0):
     i = invdiv.degMinProlong()
     if level > 0:
       print(f"prolong {i}, Q {j}")
-    if i == 0 and j == 0:
+    if i == 0 and not q:
       break
-    if j == 0 or 0 < i < j:
+    if not q or 0 < i < j:
       q.push(invdiv.prolongDeg(i))
     res = q.reduceMinDegree(invdiv)
     if res:
-- 
2.43.0


From 98613d76b1d0b4e5b01a4119452fd5a72967f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 30/40] fix: cython: subtracting a number from a polynomial
 added it

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 73ed869..8fe8606 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -517,7 +517,7 @@ cdef class const_poly_int:
     if isinstance(other, const_poly_int):
       return -other.sub(self)
     else:
-      return self.add(other)
+      return self.sub(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
-- 
2.43.0


From f5d911a7b8fa994fef4d2b15a630a209ad1edb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 31/40] fix: cython: a number on the left of a polynomial was a
 TypeError under Cython 3

---
 cython/ginv.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 8fe8606..503f199 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -499,6 +499,9 @@ cdef class const_poly_int:
     else:
       return self.add(other)
 
+  def __radd__(self, other):
+    return self.add(other)
+
   def sub(const_poly_int self, other):
     assert self.ptr
     r = poly_int()
@@ -519,6 +522,9 @@ cdef class const_poly_int:
     else:
       return self.sub(other)
 
+  def __rsub__(self, other):
+    return -self.sub(other)
+
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
     r = poly_int()
@@ -539,6 +545,9 @@ cdef class const_poly_int:
     else:
       return self.mul(other)
 
+  def __rmul__(self, other):
+    return self.mul(other)
+
   def __pow__(const_poly_int self, int other, modulo):
     assert other >= 0
     r = poly_int()
-- 
2.43.0


From db16f45fdfda2fef6eb159d6083e340a3cc37de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 32/40] fix: cython: the timer of a basis answered the times of
 the garbage collector

---
 cython/ginv.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 503f199..a7521e5 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -74,13 +74,17 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
-    return allocator_timer().userTime()
+    assert self.ptr
+    return self.ptr.userTime()
   def sysTime(self):
-    return allocator_timer().sysTime()
+    assert self.ptr
+    return self.ptr.sysTime()
   def realTime(self):
-    return allocator_timer().realTime()
+    assert self.ptr
+    return self.ptr.realTime()
 
   def __str__(self):
+    assert self.ptr
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
         self.ptr.userTime(),\
         self.ptr.sysTime(),\
-- 
2.43.0


From 4d431e2c588e18c1eb2f01986cef91a5044ade25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 33/40] fix: cython: only monomials with an arena of their own
 could divide

---
 cython/ginv.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index a7521e5..4bc0e1e 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -309,7 +309,7 @@ cdef class const_monom:
     r = monom()
     r.ptr = new Monom(r.allocator, self.ptr[0], other)
     return r
-  def __truediv__(const_monom self, monom other):
+  def __truediv__(const_monom self, const_monom other):
     assert self.divisiable(other)
     r = monom()
     r.ptr = new Monom(r.allocator, self.ptr[0])
-- 
2.43.0


From 4a57d7a15c8e8db1464f595be29d3a5e9362750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 34/40] fix: cython: indexes and variables outside a monomial
 reached the library

---
 cython/ginv.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 4bc0e1e..542b122 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -132,6 +132,7 @@ cdef extern from "randpermutation.h" namespace "GInv":
 cdef class randpermutation:
   cdef RandPermutation_mt19937 *ptr
   def __cinit__(self, int n):
+    assert n > 0
     self.ptr = new RandPermutation_mt19937(n)
   def __dealloc__(self):
     del self.ptr
@@ -268,6 +269,7 @@ cdef class const_monom:
     return self.ptr.degree()
   def __getitem__(self, k):
     assert self.ptr
+    assert 0 <= k < self.ptr.size()
     return self.ptr.get(k)
   def __iter__(self):
     assert self.ptr
@@ -343,6 +345,7 @@ cdef class monom(const_monom):
   @staticmethod
   def variable(Variable v, int size, int pos):
     assert size > 1 and pos >= -1
+    assert 0 <= v < size
     r = monom()
     r.ptr = new Monom(r.allocator, v, size, pos)
     return r
@@ -629,8 +632,12 @@ cdef class wrap_poly_int:
     return self.ptr.isGB()
 
   def NM(self, int var):
+    assert self.ptr
+    assert 0 <= var < self.ptr.lm().size()
     return self.ptr.NM(var)
   def build(self, int var):
+    assert self.ptr
+    assert 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
     r = const_poly_int()
-- 
2.43.0


From ee7b08a91207d61b836f3daf47947bfeca6c6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 35/40] fix: cython: random monomials before rand_init
 dereferenced null

---
 cython/ginv.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 542b122..052b4a0 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -331,6 +331,8 @@ cdef class const_monom:
     assert self.ptr.size() == other.ptr.size()
     return self.ptr.alex(other.ptr[0])
 
+cdef bint monom_rand_ready = False
+
 cdef class monom(const_monom):
   cdef Allocator allocator[1]
   def __dealloc__(self):
@@ -353,9 +355,12 @@ cdef class monom(const_monom):
   @staticmethod
   def rand_init(int size, int deg1, int deg2):
     assert size > 1 and 0 < deg1 < deg2
+    global monom_rand_ready
     monom_rand_init(size, deg1, deg2)
+    monom_rand_ready = True
   @staticmethod
   def next():
+    assert monom_rand_ready
     r = monom()
     r.ptr = monom_next(r.allocator)
     return r
-- 
2.43.0


From 3e8073c3d077fd55b0a03d2b9f5d5e532763e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 36/40] fix: cython: objects without contents were dereferenced

---
 cython/ginv.pyx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 052b4a0..e7bdc75 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -465,10 +465,12 @@ cdef class const_poly_int:
     r.ptr = &self.ptr.lc()
     return r
   def comparable(self, const_poly_int other):
+    assert self.ptr and other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def order(self):
     cdef int c
+    assert self.ptr
     c = self.ptr.order()
     if c & 0x10:
       r = "TOP"
@@ -482,6 +484,7 @@ cdef class const_poly_int:
       r = (r, "alex")
     return r
   def size(self):
+    assert self.ptr
     return self.ptr.size()
 
   def __neg__(self):
@@ -561,6 +564,7 @@ cdef class const_poly_int:
     return self.mul(other)
 
   def __pow__(const_poly_int self, int other, modulo):
+    assert self.ptr
     assert other >= 0
     r = poly_int()
     r.ptr = new PolyInt(r.allocator, self.ptr[0])
@@ -626,14 +630,17 @@ cdef class wrap_poly_int:
     self.ptr = NULL
 
   def lm(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.lm()
     return r
   def ansector(self):
+    assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.ansector()
     return r
   def isGB(self):
+    assert self.ptr
     return self.ptr.isGB()
 
   def NM(self, int var):
@@ -645,11 +652,13 @@ cdef class wrap_poly_int:
     assert 0 <= var < self.ptr.lm().size()
     return self.ptr.build(var)
   def poly(self):
+    assert self.ptr
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
     return r
 
   def __str__(self):
+    assert self.ptr
     return "%s%s[%s]" % (self.lm(), self.ansector(),\
         "".join("*" if self.ptr.NM(var) else " " for 0 <= var < self.ptr.lm().size()))
 
@@ -741,9 +750,11 @@ cdef class janet_poly_int:
       yield r
 
   def comparable(self, const_poly_int other):
+    assert other.ptr
     return self.ptr.comparable(other.ptr[0])
 
   def push(self, const_poly_int other):
+    assert other.ptr
     assert self.ptr.comparable(other.ptr[0])
     self.ptr.push(other.ptr[0])
     return self
@@ -756,6 +767,7 @@ cdef class janet_poly_int:
 
   def find(self, const_monom m):
     cdef WrapPolyInt* w
+    assert m.ptr
     w = self.ptr.find(m.ptr[0])
     if w == NULL:
       return None
@@ -765,7 +777,7 @@ cdef class janet_poly_int:
       return r
 
   def nf(self, const_poly_int p):
-    self.ptr.comparable(p.ptr[0])
+    assert p.ptr and self.ptr.comparable(p.ptr[0])
     self.ptr.nf((<PolyInt *>p.ptr)[0])
     return p
 
-- 
2.43.0


From 4a24007271404ce52acab39beb4fc81ec39402ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 37/40] fix: cython: a zero polynomial has no degree, an empty
 tree no Hilbert polynomial and no picture

---
 cython/ginv.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index e7bdc75..afdae18 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -447,6 +447,7 @@ cdef class const_poly_int:
     return self.ptr.isZero()
   def degree(self):
     assert self.ptr
+    assert self
     return self.ptr.degree()
   def norm(self):
     assert self.ptr
@@ -687,6 +688,7 @@ cdef class const_janet:
     cdef HilbertPoly hp
     cdef int i
     assert self.ptr
+    assert self.ptr.size() > 0
     self.ptr.buildHP(hp)
     r = []
     for i in range(hp.dim()+1):
@@ -694,6 +696,7 @@ cdef class const_janet:
     return r
   def draw(self, format, filename):
     assert self.ptr
+    assert self.ptr.size() > 0
     self.ptr.draw(format.encode("utf-8"), filename.encode("utf-8"))
 
 cdef extern from "poly_int.h" namespace "GInv":
-- 
2.43.0


From baa5c72a024d2454284c51083848bf8997f1b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 38/40] fix: cython: objects handed out did not keep the one
 they point into alive

---
 cython/ginv.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index afdae18..09274a6 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -69,6 +69,7 @@ cdef class const_timer_GC:
       )
 
 cdef class const_timer:
+  cdef object owner
   cdef const Timer* ptr
   def __cinit__(self):
     self.ptr = NULL
@@ -176,6 +177,7 @@ cdef extern from "integer.h" namespace "GInv":
     int norm() const
 
 cdef class const_integer:
+  cdef object owner
   cdef const Integer *ptr
   def __cinit__(self, ):
     self.ptr = NULL
@@ -251,6 +253,7 @@ cdef extern from "monom.h" namespace "GInv":
 
 
 cdef class const_monom:
+  cdef object owner
   cdef const Monom *ptr
   def __cinit__(self):
     self.ptr = NULL
@@ -410,6 +413,7 @@ cdef extern from "poly_int.h" namespace "GInv":
     void pp()
 
 cdef class const_poly_int:
+  cdef object owner
   cdef const PolyInt *ptr
   def __cinit__(self, ):
     self.ptr = NULL
@@ -427,6 +431,7 @@ cdef class const_poly_int:
     while i.isNext():
       m, c = const_monom(), const_integer()
       m.ptr, c.ptr = &i.monom(), &i.coeff()
+      m.owner = c.owner = self
       i.next()
       yield (m, c)
   def __str__(self):
@@ -458,12 +463,14 @@ cdef class const_poly_int:
     assert self
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def lc(self):
     assert self.ptr
     assert self
     r = const_integer()
     r.ptr = &self.ptr.lc()
+    r.owner = self
     return r
   def comparable(self, const_poly_int other):
     assert self.ptr and other.ptr
@@ -626,6 +633,7 @@ cdef extern from "poly_int.h" namespace "GInv":
     const PolyInt& poly() const
 
 cdef class wrap_poly_int:
+  cdef object owner
   cdef const WrapPolyInt *ptr
   def __cinit__(self, ):
     self.ptr = NULL
@@ -634,11 +642,13 @@ cdef class wrap_poly_int:
     assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def ansector(self):
     assert self.ptr
     r = const_monom()
     r.ptr = &self.ptr.ansector()
+    r.owner = self
     return r
   def isGB(self):
     assert self.ptr
@@ -656,6 +666,7 @@ cdef class wrap_poly_int:
     assert self.ptr
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
+    r.owner = self
     return r
 
   def __str__(self):
@@ -677,6 +688,7 @@ cdef extern from "janet.h" namespace "GInv":
      void draw(const char* format, const char* filename) const
 
 cdef class const_janet:
+  cdef object owner
   cdef const Janet *ptr
   def __cinit__(self, ):
     self.ptr = NULL
@@ -749,6 +761,7 @@ cdef class janet_poly_int:
     while i.isNext():
       r = wrap_poly_int()
       r.ptr = i.data()
+      r.owner = self
       i.next()
       yield r
 
@@ -777,6 +790,7 @@ cdef class janet_poly_int:
     else:
       r = wrap_poly_int()
       r.ptr = w
+      r.owner = self
       return r
 
   def nf(self, const_poly_int p):
@@ -790,6 +804,7 @@ cdef class janet_poly_int:
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
+    r.owner = self
     return r
 
   def HilbertPoly(self):
@@ -807,6 +822,7 @@ cdef class janet_poly_int:
   def timer(self):
     r = const_timer()
     r.ptr = &self.ptr.timer()
+    r.owner = self
     return r
   def reduction(self):
     return self.ptr.reduction()
-- 
2.43.0


From 67848572f91706f02f12786d6716c334b03eda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 39/40] fix: cython: a monomial of another number of variables
 was looked for in a basis

---
 cython/ginv.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 09274a6..51cfebf 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -784,6 +784,9 @@ cdef class janet_poly_int:
   def find(self, const_monom m):
     cdef WrapPolyInt* w
     assert m.ptr
+    cdef GCListWrapPolyIntConstIterator i
+    i = self.ptr.begin()
+    assert not i.isNext() or i.data().lm().size() == m.ptr.size()
     w = self.ptr.find(m.ptr[0])
     if w == NULL:
       return None
-- 
2.43.0


From 3df8cb8683e794cbd5c989f655fd2b2f65a66992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 40/40] fix: cython: a normal form changed a polynomial that is
 not to be changed

---
 cython/ginv.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 51cfebf..3b66545 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -798,6 +798,10 @@ cdef class janet_poly_int:
 
   def nf(self, const_poly_int p):
     assert p.ptr and self.ptr.comparable(p.ptr[0])
+    if not isinstance(p, poly_int):
+      r = poly_int()
+      r.ptr = new PolyInt(r.allocator, p.ptr[0])
+      p = r
     self.ptr.nf((<PolyInt *>p.ptr)[0])
     return p
 
-- 
2.43.0

