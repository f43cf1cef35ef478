From 8c56a90b7be52285063331c8a2eaf83fd3d152b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 01/68] fix: membership test of a complemented MutBitSet
 ignored the complement

---
 src/sets/bitset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c282bc3..751602d 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1329,8 +1329,8 @@ NyMutBitSet_hasbit(NyMutBitSetObject *v, NyBit bit)
     bitno_to_field(bit, &f);
     fp = mutbitset_findpos(v, f.pos);
     if (!fp)
-        return 0;
-    return (fp->bits & f.bits) != 0;
+        return v->cpl != 0;
+    return ((fp->bits & f.bits) != 0) != (v->cpl != 0);
 }
 static int
 mutbitset_contains(NyMutBitSetObject *v, PyObject *w)
-- 
2.43.0


From c1f0370c6e71af77604537af2cb93a2c3e65bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 02/68] fix: hash of a complemented bitset could be -1, raising
 SystemError

---
 src/sets/bitset.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 751602d..ee46376 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3555,7 +3555,10 @@ cplbitset_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 static Py_hash_t
 cplbitset_hash(NyCplBitSetObject *v)
 {
-    return ~immbitset_hash(v->ob_val);
+    Py_hash_t h = ~immbitset_hash(v->ob_val);
+    if (h == -1)
+        h = -2;
+    return h;
 }
 
 static NyImmBitSetObject *
-- 
2.43.0


From 65a5a8d787945e163da091808429939f49f7ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:01 +0000
Subject: [PATCH 03/68] fix: in-place xor of a MutBitSet toggled repeated
 elements of an iterable twice

---
 src/sets/bitset.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index ee46376..2e7f9d9 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1800,7 +1800,9 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
 {
     PyObject *it = 0;      /* iter(v) */
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int iop = op;
+    /* An element may occur more than once in v, so xor has to collect first */
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1829,7 +1831,7 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, iop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1849,7 +1851,9 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyList_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int iop = op;
+    /* An element may occur more than once in v, so xor has to collect first */
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1864,7 +1868,7 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, iop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1883,7 +1887,9 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyTuple_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int iop = op;
+    /* An element may occur more than once in v, so xor has to collect first */
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
 
@@ -1899,7 +1905,7 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, iop, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
-- 
2.43.0


From 74ac07a1dca9d0509fc40a3a236e0895ebdcdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:24 +0000
Subject: [PATCH 04/68] fix: in-place xor of a MutNodeSet toggled repeated
 objects of an iterable twice

---
 src/sets/nodeset.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index de1c2a3..7b3c46a 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -1030,8 +1030,23 @@ nodeset_ixor(NyNodeSetObject *v, PyObject *w)
 {
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_xor((PyObject *)v, w);
-    else
-        return nodeset_iop_chk_iterable(v, w, NyNodeSet_invobj);
+    if (!NyNodeSet_Check(w)) {
+        /* An object may occur more than once in an iterable, so collect first */
+        PyObject *p, *r;
+        NyNodeSetObject *tmp = NyMutNodeSet_New();
+        if (!tmp)
+            return 0;
+        p = nodeset_iop_chk_iterable(tmp, w, NyNodeSet_setobj);
+        if (!p) {
+            Py_DECREF(tmp);
+            return 0;
+        }
+        Py_DECREF(p);
+        r = nodeset_iop_chk_iterable(v, (PyObject *)tmp, NyNodeSet_invobj);
+        Py_DECREF(tmp);
+        return r;
+    }
+    return nodeset_iop_chk_iterable(v, w, NyNodeSet_invobj);
 }
 
 static PyObject *
-- 
2.43.0


From 7f763cbe52f1360c5a722c015fab433b41a3f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:24 +0000
Subject: [PATCH 05/68] fix: bitset slices with non-integer or very large
 bounds raised SystemError or crashed

---
 src/sets/bitset.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 2e7f9d9..042e3f7 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2580,8 +2580,9 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->step == Py_None) {
             *step = 1;
     } else {
-        if (!PyLong_Check(r->step)) return -1;
-        *step = PyLong_AsSsize_t(r->step);
+        /* Without an exception argument, too large values are clipped */
+        *step = PyNumber_AsSsize_t(r->step, NULL);
+        if (*step == -1 && PyErr_Occurred()) return -1;
         if (*step != 1) {
             PyErr_SetString(PyExc_IndexError, "bitset slicing step must be 1");
             return -1;
@@ -2590,14 +2591,14 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->start == Py_None) {
         *start = 0;
     } else {
-        if (!PyLong_Check(r->start)) return -1;
-        *start = PyLong_AsSsize_t(r->start);
+        *start = PyNumber_AsSsize_t(r->start, NULL);
+        if (*start == -1 && PyErr_Occurred()) return -1;
     }
     if (r->stop == Py_None) {
         *stop = PY_SSIZE_T_MAX;
     } else {
-        if (!PyLong_Check(r->stop)) return -1;
-        *stop = PyLong_AsSsize_t(r->stop);
+        *stop = PyNumber_AsSsize_t(r->stop, NULL);
+        if (*stop == -1 && PyErr_Occurred()) return -1;
     }
     return 0;
 }
@@ -2988,7 +2989,7 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
         }
         return bs;
     } else if (ilow < 0 && ihigh == PY_SSIZE_T_MAX) {
-        nbitswanted = - ilow;
+        nbitswanted = ilow == PY_SSIZE_T_MIN ? PY_SSIZE_T_MAX : - ilow;
         for (s = se; --s >= ss;) {
             for (fs = sf_getrange(s, &f); --f >= fs; ) {
                 if (nbits >= nbitswanted)
-- 
2.43.0


From debce0ca1912a9cd5f37da8aa6afedbac7483266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:24 +0000
Subject: [PATCH 06/68] fix: an empty instance of an ImmBitSet subclass was
 true and crashed on indexing and shifting

---
 src/sets/bitset.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 042e3f7..657bcff 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2889,7 +2889,7 @@ immbitset_lshift(NyImmBitSetObject *v, NyBit w)
     NyBit n;
     NyBit lopos, hipos;
     NyBit i;
-    if (v == NyImmBitSet_Empty) {
+    if (Py_SIZE(v) == 0) {
         Py_INCREF(NyImmBitSet_Empty);
         return NyImmBitSet_Empty;
     }
@@ -3063,7 +3063,7 @@ immbitset_subscript(NyImmBitSetObject *v, PyObject *w)
     i = PyLong_AsSsize_t(w);
     if (i == -1 && PyErr_Occurred())
         return 0;
-    if (v == NyImmBitSet_Empty) {
+    if (Py_SIZE(v) == 0) {
         PyErr_SetString(PyExc_IndexError, "empty immbitset - index out of range");
         return 0;
     }
@@ -3180,7 +3180,7 @@ immbitset(PyTypeObject *unused, PyObject *args, PyObject *kwds)
 static int
 immbitset_nonzero(NyImmBitSetObject *v)
 {
-    return v != NyImmBitSet_Empty;
+    return Py_SIZE(v) != 0;
 }
 
 static int
-- 
2.43.0


From 494cf78405e2727cb586a49414295b34b809e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 07/68] fix: wrong assertion when inserting into a small
 exactly sized MutBitSet storage

---
 src/sets/bitset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 657bcff..47df647 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1038,7 +1038,7 @@ sf_ins1(NySetField *sf, NyBitField *f, NyBit pos)
         sf->hi += move;
         if (hi_size <= lo_size && sf->hi < hi_tot)      goto MOVE_HI;
         if (lo_size <= hi_size && sf->lo > lo_tot)      goto MOVE_LO;
-        assert(0);
+        /* A very small set may still lack room on the wanted side. */
     }
 
     if (sf_realloc(sf, sf->hi + 1 - lo_tot) == -1)
-- 
2.43.0


From 5489772a2d5677a98f8c96f89936497c5d415288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 08/68] fix: memory corruption when a MutBitSet was created
 from an ImmBitSet subclass instance

---
 src/sets/bitset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 47df647..42af682 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -785,8 +785,18 @@ mutbitset_initset(NyMutBitSetObject *v, NyImmBitSetObject *set)
     if (!sf)
         return -1;
     if (set) {
+        /* The storage may be reallocated later when it is no longer shared,
+           which can not be done with an instance of a subtype. */
+        if (Py_IS_TYPE(set, &NyImmBitSet_Type)) {
+            Py_INCREF(set);
+        } else {
+            set = NyImmBitSet_SubtypeNewArg(&NyImmBitSet_Type, (PyObject *)set);
+            if (!set) {
+                v->fst_root.cur_size = 0;
+                return -1;
+            }
+        }
         sf->set = set;
-        Py_INCREF(set);
         sf->lo = set->ob_field;
         sf->hi = set->ob_field + Py_SIZE(set);
     } else {
-- 
2.43.0


From a5f2973b3c75e4001d2a4e967988173a6c04fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 09/68] fix: clear() of a complemented MutBitSet left it
 containing everything

---
 src/sets/bitset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 42af682..5ea3d37 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1698,6 +1698,7 @@ mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
+    v->cpl = 0;
     return mutbitset_reset(v, 0);
 }
 
-- 
2.43.0


From 000853ff3f73eb025ef140a90298d557a75d4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 10/68] fix: comparisons of a MutBitSet stopped at an emptied
 storage segment

---
 src/sets/bitset.c | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 5ea3d37..5951b11 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3203,17 +3203,17 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
     if (op == NyBits_TRUE)
         return 1;
 
-    if (as < ase) {
+    af = afe = 0;
+    while (af == afe && as < ase) {
         af = sf_getrange(as, &afe);
         as++;
-    } else
-        af = afe = 0;
+    }
 
-    if (bs < bse) {
+    bf = bfe = 0;
+    while (bf == bfe && bs < bse) {
         bf = sf_getrange(bs, &bfe);
         bs++;
-    } else
-        bf = bfe = 0;
+    }
 
     for (;;) {
         if (af < afe) {
@@ -3228,31 +3228,25 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
                         a = 0;
                     }
                     b = bf++->bits;
-                    if (bf == bfe) {
-                        if (bs < bse) {
-                            bf = sf_getrange(bs, &bfe);
-                            bs++;
-                        }
+                    while (bf == bfe && bs < bse) {
+                        bf = sf_getrange(bs, &bfe);
+                        bs++;
                     }
                 }
             } else {
                 a = af++->bits;
                 b = 0;
             }
-            if (af == afe) {
-                if (as < ase) {
-                    af = sf_getrange(as, &afe);
-                    as++;
-                }
+            while (af == afe && as < ase) {
+                af = sf_getrange(as, &afe);
+                as++;
             }
         } else if (bf < bfe) {
             a = 0;
             b = bf++->bits;
-            if (bf == bfe) {
-                if (bs < bse) {
-                    bf = sf_getrange(bs, &bfe);
-                    bs++;
-                }
+            while (bf == bfe && bs < bse) {
+                bf = sf_getrange(bs, &bfe);
+                bs++;
             }
         } else
             return 0;
-- 
2.43.0


From c7003483308665cfe50983c3fa61ff8f65922b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 11/68] fix: copying a large complemented MutBitSet lost the
 complement

---
 src/sets/bitset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 5951b11..e6fa0ee 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2164,6 +2164,7 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     NyMutBitSetObject *ms;
     NyImmBitSetObject *set = 0;
     NyUnionObject *root = 0;
+    int cpl = 0;
     if (arg) {
         if (NyImmBitSet_Check(arg)) {
             set = (NyImmBitSetObject *)arg;
@@ -2171,6 +2172,7 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
         } else if (NyMutBitSet_Check(arg)) {
             NyMutBitSetObject *oms = (NyMutBitSetObject *)arg;
             if (oms->root != &oms->fst_root) {
+                cpl = oms->cpl;
                 root = oms->root;
                 Py_INCREF(root);
                 oms->cur_field = 0;
@@ -2181,6 +2183,7 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     Py_XDECREF(set);
     Py_XDECREF(root);
     if (!ms) return 0;
+    ms->cpl = cpl;
     if (!(set || root)) {
         if (arg) {
             void *r = mutbitset_ior(ms, arg);
-- 
2.43.0


From bf13cf0f776eab29e26e64b0ec97df8128f7de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:45 +0000
Subject: [PATCH 12/68] fix: iterating over a MutNodeSet returned dead objects
 removed from it meanwhile

---
 src/sets/nodeset.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 7b3c46a..17c5ed3 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -224,16 +224,20 @@ mutnsiter_getiter(PyObject *it)
 static PyObject *
 mutnsiter_iternext(NyMutNodeSetIterObject *hi)
 {
-    PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
     PyObject *ret;
-    NyBit bitno;
-    if (!bitobj)
-        return 0;
-    bitno = PyLong_AsSsize_t(bitobj);
-    if (bitno == -1 && PyErr_Occurred())
-        return 0;
-    ret = nodeset_bitno_to_obj(bitno);
-    Py_DECREF(bitobj);
+    /* Objects removed since the iteration began are skipped:
+       they may not even exist any more */
+    do {
+        PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+        NyBit bitno;
+        if (!bitobj)
+            return 0;
+        bitno = PyLong_AsSsize_t(bitobj);
+        Py_DECREF(bitobj);
+        if (bitno == -1 && PyErr_Occurred())
+            return 0;
+        ret = nodeset_bitno_to_obj(bitno);
+    } while (!NyNodeSet_hasobj(hi->nodeset, ret));
     if (hi->nodeset->flags & NS_HOLDOBJECTS) {
         Py_INCREF(ret);
     } else {
-- 
2.43.0


From 48a236886d84a6c278213df6e0b80feab2c00c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 13/68] fix: clearing a MutNodeSet released its objects while
 they were still members

---
 src/sets/nodeset.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 17c5ed3..63826cc 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -623,16 +623,29 @@ NyNodeSet_setobj(NyNodeSetObject *v, PyObject *obj)
     }
 }
 
+static int
+nodeset_clear_visit(NyBit bitno, void *notused)
+{
+    Py_DECREF(nodeset_bitno_to_obj(bitno));
+    return 0;
+}
+
 int
 NyNodeSet_clear(NyNodeSetObject *v)
 {
     if (NyMutNodeSet_Check(v) && v->u.bitset) {
-        if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
-        }
-        if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1)
+        /* Empty the set before releasing its objects,
+           since destructors may run and use it */
+        PyObject *old = v->u.bitset;
+        PyObject *bitset = (PyObject *)NyMutBitSet_New();
+        if (!bitset)
             return -1;
+        v->u.bitset = bitset;
         Py_SET_SIZE(v, 0);
+        if (v->flags & NS_HOLDOBJECTS) {
+            NyAnyBitSet_iterate(old, (NySetVisitor)nodeset_clear_visit, 0);
+        }
+        Py_DECREF(old);
     } else {
         PyErr_Format(PyExc_ValueError,
                      "mutable nodeset required");
-- 
2.43.0


From 998af6d99aa50acbc8ce45de4bae6dd0e5fd5811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 14/68] fix: assigning several targets to a NodeGraph item
 counted references of the wrong object

---
 src/heapy/nodegraph.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index a7ea193..f226cd8 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -915,6 +915,7 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
             Py_DECREF(old);
         }
     } else {
+        PyObject *olds;
         if (!PyTuple_Check(w)) {
             PyErr_SetString(PyExc_TypeError, "ng_ass_sub: value to assign must be a tuple");
             return -1;
@@ -926,12 +927,17 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 "consider using .add_edge() etc. instead.");
             return -1;
         }
+        /* Keep the old targets until all are replaced,
+           since destructors may run and change the graph */
+        olds = PyTuple_New(regsize);
+        if (!olds)
+            return -1;
         for (i = 0; i < regsize; i++) {
-            PyObject *old = lo[i].tgt;
+            PyTuple_SET_ITEM(olds, i, lo[i].tgt);
             lo[i].tgt = PyTuple_GET_ITEM(w, i);
-            Py_INCREF(lo->tgt);
-            Py_XDECREF(old);
+            Py_INCREF(lo[i].tgt);
         }
+        Py_DECREF(olds);
     }
     return 0;
 }
-- 
2.43.0


From 716232f1591d66359e459a4892b891e332ecca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 15/68] fix: a metaclass was not seen as referred to by its
 classes

A metaclass known only through its classes was missing from the heap.
---
 src/heapy/stdtypes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index ca20586..f1d8146 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -665,6 +665,10 @@ type_traverse(NyHeapTraverse *ta)
     Py_VISIT(((PyHeapTypeObject *)type)->ht_qualname);
 
     Py_VISIT(((PyHeapTypeObject *)type)->ht_module);
+
+    // Like any instance of a heap type, a class refers to its metaclass.
+    if (Py_TYPE(type)->tp_flags & Py_TPFLAGS_HEAPTYPE)
+        Py_VISIT(Py_TYPE(type));
     return 0;
 }
 
-- 
2.43.0


From 28423b0f57d3105ed148eeb501d2c06507fdd4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 16/68] fix: objects were reported reachable through hidden
 objects

The attribute dictionary of an object hidden by the hiding tag in that
dictionary was included in sets of reachable and dominated objects.
---
 src/heapy/hv.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 54eb8b5..921cab4 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1055,6 +1055,19 @@ typedef struct {
     PyObject *to_visit;
 } RATravArg;
 
+/* A hidden object is not passed on a path in the visible heap: nothing is
+   reached via it, unless it is one of the start objects. */
+static int
+hv_ra_follow(PyObject *obj, RATravArg *ta, visitproc visit)
+{
+    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type) {
+        int r = NyNodeSet_hasobj(ta->start, obj);
+        if (r <= 0)
+            return r;
+    }
+    return hv_std_traverse(ta->hv, obj, visit, ta);
+}
+
 static int
 hv_ra_rec(PyObject *obj, RATravArg *ta)
 {
@@ -1094,7 +1107,7 @@ hv_reachable(NyHeapViewObject *self, PyObject *args, PyObject *kwds)
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
         if (!obj)
             goto err;
-        if (hv_std_traverse(ta.hv, obj, (visitproc)hv_ra_rec, &ta) == -1) {
+        if (hv_ra_follow(obj, &ta, (visitproc)hv_ra_rec) == -1) {
             Py_DECREF(obj);
             goto err;
         }
@@ -1151,7 +1164,7 @@ hv_reachable_x(NyHeapViewObject *self, PyObject *args, PyObject *kwds)
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
         if (!obj)
             goto err;
-        if (hv_std_traverse(ta.hv, obj, (visitproc)hv_ra_rec_e, &ta) == -1) {
+        if (hv_ra_follow(obj, &ta, (visitproc)hv_ra_rec_e) == -1) {
             Py_DECREF(obj);
             goto err;
         }
-- 
2.43.0


From 6b72f801d2a9fa9adb1c472214d49ff4f521f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 17/68] fix: number of shortest paths did not match the paths
 listed

It was calculated from the number of references instead of the number of
relations that the paths are made of, and failed for long paths because of
the recursion limit.
---
 guppy/heapy/Path.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3cdf5d4..c489b9a 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -331,20 +331,23 @@ class ShortestPaths:
             for dst in self.Dst.nodes:
                 NP.add_edge(dst, 1)
             self.NP = NP
-        numedges = self.mod.hv.numedges
+        # The paths enumerated are one for each relation of each edge.
+        relations = self.mod.relations
         IG = self.IG
 
         def np(y):
-            n = NP[y]
-            if n is None:
-                n = 0
-                for z in IG[y]:
-                    sn = NP[z]
-                    if sn is None:
-                        sn = np(z)
-                    n += sn * numedges(y, z)
-                NP[y] = n
-            return n
+            # Not recursive, since the paths may be long.
+            stack = [y]
+            while stack:
+                x = stack[-1]
+                if NP[x] is None:
+                    unknown = [z for z in IG[x] if NP[z] is None]
+                    if unknown:
+                        stack.extend(unknown)
+                        continue
+                    NP[x] = sum([NP[z] * len(relations(x, z)) for z in IG[x]])
+                stack.pop()
+            return NP[y]
         num = 0
         for src in Src.nodes:
             num += np(src)
-- 
2.43.0


From 5acfb2d12ba3ea12fd1dc6ce99a69b2666154146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 18/68] fix: paths avoiding edges of found paths could pass the
 nodes to avoid

The nodes to avoid were not carried on by ShortestPaths.avoided().
---
 guppy/heapy/Path.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index c489b9a..71d1ef7 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -301,7 +301,9 @@ class ShortestPaths:
     def copy_but_avoid_edges_at_levels(self, *args):
         avoid = self.edges_at(*args).updated(self.sg.AvoidEdges)
         assert avoid._hiding_tag_ is self.mod._hiding_tag_
-        return self.mod.shpaths(self.Dst, self.Src, avoid_edges=avoid)
+        return self.mod.shpaths(self.Dst, self.Src,
+                                avoid_nodes=self.sg.AvoidNodes,
+                                avoid_edges=avoid)
         # return self.mod.shpaths(self.dst, self.src, avoid_edges=avoid)
 
     avoided = copy_but_avoid_edges_at_levels
@@ -386,12 +388,13 @@ class ShortestPaths:
 
 
 class ShortestGraph:
-    def __init__(self, mod, G, DstSets, Src, AvoidEdges,
+    def __init__(self, mod, G, DstSets, Src, AvoidNodes, AvoidEdges,
                  srcname=None, dstname=None):
         self.mod = mod
         self.G = G
         self.Src = Src
         self.DstSets = DstSets
+        self.AvoidNodes = AvoidNodes
         self.AvoidEdges = AvoidEdges
         if srcname is None:
             if Src.count == 1:
@@ -519,7 +522,7 @@ class _GLUECLAMP_:
         G, DstSets = self.shpgraph_algorithm(
             DstSets, Src, AvoidNodes, AvoidEdges)
 
-        return self.ShortestGraph(self, G, DstSets, Src, AvoidEdges,
+        return self.ShortestGraph(self, G, DstSets, Src, AvoidNodes, AvoidEdges,
                                   srcname, dstname)
 
     def shpgraph_algorithm(self, DstSets, Src, AvoidNodes, AvoidEdges):
-- 
2.43.0


From 96c089050059649112ada5676d4e235a1b52dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 19/68] fix: relating a set to its element leaked references
 and gave a wrong index

---
 src/heapy/stdtypes.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index f1d8146..7df0548 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -159,11 +159,14 @@ set_relate(NyHeapRelate *r)
 
     Py_ssize_t i = 0;
     while ((obj = PyIter_Next(it))) {
-        if (r->tgt == obj) {
-            r->visit(NYHR_INSET, PyLong_FromSsize_t(i++), r);
+        int found = r->tgt == obj;
+        Py_DECREF(obj);
+        if (found) {
+            r->visit(NYHR_INSET, PyLong_FromSsize_t(i), r);
+            Py_DECREF(it);
             return 1;
         }
-        Py_DECREF(obj);
+        i++;
     }
 
     Py_DECREF(it);
-- 
2.43.0


From 31a11c6bbe1c97794fdcd4b1427e286d2be1994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 20/68] fix: crash when relating a cleared frame with cell
 variables

---
 src/heapy/stdtypes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 7df0548..8e91cd7 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -311,7 +311,8 @@ frame_relate(NyHeapRelate *r)
         if (!(kind & CO_FAST_CELL) && !(kind & CO_FAST_FREE))
             continue;
 
-        if (PyCell_GET(val) == r->tgt) {
+        /* The cell may be not yet made, or already cleared */
+        if (val && PyCell_Check(val) && PyCell_GET(val) == r->tgt) {
             Py_INCREF(name);
             if (r->visit(NYHR_CELL, name, r))
                 return 1;
-- 
2.43.0


From 0f5b84677c973d8954e93b7924504a20bb0c25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 21/68] fix: f_back of a finished frame was named twice

---
 src/heapy/stdtypes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 8e91cd7..6bb77d2 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -260,8 +260,9 @@ frame_relate(NyHeapRelate *r)
         return 1;
     }
     Py_XDECREF(next_frame);
-#endif
+#else
     ATTR(f_back)
+#endif
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
     GATTR(PyStackRef_AsPyObjectBorrow(iv->f_funcobj), f_funcobj, NYHR_INTERATTR);
 #elif PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
-- 
2.43.0


From cf854c13c355eece84839bebb5c0a6f49d633350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 22/68] fix: the builtins and type parameters of a function had
 no relation

---
 src/heapy/stdtypes.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 6bb77d2..b3a8350 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -191,6 +191,12 @@ function_relate(NyHeapRelate *r)
     RENAMEATTR(func_closure, __closure__);
     RENAMEATTR(func_annotations, __annotations__);
     RENAMEATTR(func_qualname, __qualname__);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 10
+    RENAMEATTR(func_builtins, __builtins__);
+#endif
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
+    RENAMEATTR(func_typeparams, __type_params__);
+#endif
     return dict_relate_kv(r, v->func_dict, NYHR_HASATTR, NYHR_ATTRIBUTE);
 }
 
-- 
2.43.0


From 287c184a15e4b190f1b222de5e22722d82d8216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 23/68] fix: attribute dicts that are also members were named
 twice

---
 src/heapy/hv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 921cab4..498dc44 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -218,7 +218,9 @@ owht_relate(NyHeapRelate *r, PyTypeObject *type)
     PyMemberDef *mp = type->tp_members;
     if (mp) {
         while (mp->name) {
+            /* The attribute dict is found by its pointer elsewhere */
             if ((mp->type == T_OBJECT_EX || mp->type == T_OBJECT) &&
+                mp->offset != type->tp_dictoffset &&
                 *((PyObject **)((char *)v+mp->offset)) == r->tgt) {
                 if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString(mp->name), r))
                     return 1;
-- 
2.43.0


From cd484219a80a053390b3f791ef53006af62dfe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 24/68] fix: attributes of instances of subclasses of list,
 dict etc. had no relation

---
 src/heapy/hv.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 498dc44..49e67c0 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -248,13 +248,9 @@ xt_error_size(PyObject *obj)
 }
 
 static int
-xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+attrdict_relate(NyHeapRelate *r)
 {
-    PyTypeObject *type = xt->xt_type;
-    PyObject **dictptr;
-    if (owht_relate(r, type))
-        return 1;
-    dictptr = _PyObject_GetDictPtr(r->src);
+    PyObject **dictptr = _PyObject_GetDictPtr(r->src);
     if (dictptr) {
         if (*dictptr == r->tgt) {
             if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString("__dict__"), r))
@@ -267,6 +263,15 @@ xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
     return 0;
 }
 
+static int
+xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+{
+    PyTypeObject *type = xt->xt_type;
+    if (owht_relate(r, type))
+        return 1;
+    return attrdict_relate(r);
+}
+
 static int
 xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
@@ -278,6 +283,10 @@ xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
     if (owht_relate(r, xt->xt_type))
         return 1;
+    /* The attribute dict, if it is added to a type with its own relate */
+    if (xt->xt_hd->relate && xt->xt_type->tp_dictoffset &&
+            !xt->xt_base->xt_type->tp_dictoffset && attrdict_relate(r))
+        return 1;
     return xt->xt_base->xt_relate(xt->xt_base, r);
 }
 
-- 
2.43.0


From 52b49fc1438accaa8d24363edd2679020c6c200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 25/68] fix: objects referred to only from frames of other
 threads were missing from the heap

---
 src/heapy/rootstate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 238f1ba..82c02a1 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -353,8 +353,8 @@ rootstate_relate(NyHeapRelate *r)
         ts = is->tstate_head;
 #endif
         for (; ts; ts = ts->next) {
-            if ((ts == bts && r->tgt == hv->limitframe) ||
-                    (!hv->limitframe && isframe)) {
+            if (ts == bts && hv->limitframe ?
+                    r->tgt == hv->limitframe : isframe) {
                 int frameno = -1;
                 int numframes = 0;
                 PyFrameObject *frame;
@@ -490,7 +490,7 @@ rootstate_traverse(NyHeapTraverse *ta)
         for (; ts; ts = ts->next) {
             if (ts == bts && hv->limitframe) {
                 Py_VISIT(hv->limitframe);
-            } else if (!hv->limitframe) {
+            } else {
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
                 PyFrameObject *frame = PyThreadState_GetFrame(ts);
                 Py_VISIT(frame);
-- 
2.43.0


From d2a8ad63ea231f3172e67a8c2ae6cfba0a1351c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 26/68] fix: getting a numbered frame of RootState leaked the
 calling frame

---
 src/heapy/rootstate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 82c02a1..082280d 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -603,6 +603,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     PyFrameObject *next_frame = PyFrame_GetBack(frame);
                                     numframes--;
                                     if (numframes == frameno) {
+                                        Py_XDECREF(next_frame);
                                         Py_DECREF(current_frame);
                                         Py_DECREF(name);
                                         return (PyObject *)frame;
-- 
2.43.0


From dfb343312237b4562775df80cea4a30a47060a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 27/68] fix: crash when getting a numbered frame of a thread
 without frames

---
 src/heapy/rootstate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 082280d..dd4eee1 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -611,7 +611,7 @@ rootstate_getattr(PyObject *obj, PyObject *name)
                                     Py_DECREF(frame);
                                     frame = next_frame;
                                 }
-                                Py_DECREF(current_frame);
+                                Py_XDECREF(current_frame);
 #else
                                 for (frame = ts->frame; frame; frame = frame->f_back) {
                                     numframes++;
-- 
2.43.0


From c7a8bb38c9ab40c401241b8bcf097a280ba2ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 28/68] fix: deallocating an OrderedDict while a Horizon
 existed never ended

---
 src/heapy/horizon.c | 48 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index ebf53d1..647c631 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -27,9 +27,18 @@ typedef struct _NyHorizonObject {
    The struct rm must be a static/global singleton, since it is intimately bound to patching
  */
 
+/* An object whose dealloc is running and may call that of a base type */
+
+typedef struct _HorizonDealloc {
+    struct _HorizonDealloc *next;
+    PyObject *obj;
+    PyTypeObject *base;
+} HorizonDealloc;
+
 static struct {
     NyHorizonObject *horizons;
     PyObject *types;
+    HorizonDealloc *deallocs;
 } rm;
 
 static void horizon_patched_dealloc(PyObject *v);
@@ -95,11 +104,42 @@ static void
 horizon_patched_dealloc(PyObject *v)
 {
     NyHorizonObject *r;
-    for (r = rm.horizons; r; r = r->next) {
-        if (NyNodeSet_clrobj(r->hs, v) == -1)
-            Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
+    HorizonDealloc **p, d;
+    PyTypeObject *t, *b;
+    destructor org;
+    for (p = &rm.deallocs; *p; p = &((*p)->next)) {
+        if ((*p)->obj == v)
+            break;
+    }
+    if (*p) {
+        /* Called from the dealloc of a subtype */
+        t = (*p)->base;
+        *p = (*p)->next;
+    } else {
+        t = horizon_base(v);
+        for (r = rm.horizons; r; r = r->next) {
+            if (NyNodeSet_clrobj(r->hs, v) == -1)
+                Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
+        }
+    }
+    org = horizon_get_org_dealloc(t);
+    for (b = t->tp_base; b && b != &PyBaseObject_Type; b = b->tp_base) {
+        if (b->tp_dealloc == horizon_patched_dealloc && horizon_get_org_dealloc(b) != org) {
+            d.obj = v;
+            d.base = b;
+            d.next = rm.deallocs;
+            rm.deallocs = &d;
+            org(v);
+            for (p = &rm.deallocs; *p; p = &((*p)->next)) {
+                if (*p == &d) {
+                    *p = d.next;
+                    break;
+                }
+            }
+            return;
+        }
     }
-    horizon_get_org_dealloc(horizon_base(v))(v);
+    org(v);
 }
 
 static int
-- 
2.43.0


From 37ad166e1434216f0b3c559b5b90110479e3de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:11 +0000
Subject: [PATCH 29/68] fix: abort when an object was deallocated of a type
 made ready while a Horizon existed

---
 src/heapy/horizon.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 647c631..8376a9a 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -46,12 +46,15 @@ static void horizon_patched_dealloc(PyObject *v);
 static destructor
 horizon_get_org_dealloc(PyTypeObject *t)
 {
-    if (!rm.types && t->tp_dealloc != horizon_patched_dealloc)
-        return t->tp_dealloc;
-
-    PyObject *d = PyDict_GetItem(rm.types, (PyObject *)t);
-    if (d)
-        return (destructor)PyLong_AsSsize_t(d);
+    /* A type that was made ready meanwhile may have inherited the patch */
+    for (; t; t = t->tp_base) {
+        if (t->tp_dealloc != horizon_patched_dealloc)
+            return t->tp_dealloc;
+
+        PyObject *d = rm.types ? PyDict_GetItem(rm.types, (PyObject *)t) : 0;
+        if (d)
+            return (destructor)PyLong_AsSsize_t(d);
+    }
 
     Py_FatalError("horizon_get_org_dealloc: no original destructor found");
 }
-- 
2.43.0


From 2d4e7260c3349c1f0341763c1cb423f197722258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:16 +0000
Subject: [PATCH 30/68] fix: objects of extension types were not removed from a
 Horizon when deallocated

---
 src/heapy/horizon.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index 8376a9a..ca8e585 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -39,6 +39,7 @@ static struct {
     NyHorizonObject *horizons;
     PyObject *types;
     HorizonDealloc *deallocs;
+    destructor subtype_dealloc;
 } rm;
 
 static void horizon_patched_dealloc(PyObject *v);
@@ -89,11 +90,24 @@ horizon_dealloc(NyHorizonObject *rg)
 }
 
 
+/* The dealloc of classes, which calls that of the base type */
+
+static int
+horizon_find_subtype_dealloc(void)
+{
+    PyObject *t = PyObject_CallFunction((PyObject *)&PyType_Type, "s(){}", "T");
+    if (!t)
+        return -1;
+    rm.subtype_dealloc = ((PyTypeObject *)t)->tp_dealloc;
+    Py_DECREF(t);
+    return 0;
+}
+
 static PyTypeObject *
 horizon_base(PyObject *v)
 {
     PyTypeObject *t = Py_TYPE(v);
-    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
+    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE && t->tp_dealloc == rm.subtype_dealloc) {
         assert(t->tp_base);
         assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
             PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
@@ -193,6 +207,8 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
                                  kwlist,
                                  &X))
         goto err;
+    if (!rm.subtype_dealloc && horizon_find_subtype_dealloc() == -1)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
     if (!hz)
         goto err;
-- 
2.43.0


From adb4a7d84a425e3ca436dd3f220edc9c55772a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:42 +0000
Subject: [PATCH 31/68] fix: equivalence relations are hidden from heap
 listings like other kinds

---
 guppy/heapy/View.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/View.py b/guppy/heapy/View.py
index 02823b9..a13cabf 100644
--- a/guppy/heapy/View.py
+++ b/guppy/heapy/View.py
@@ -402,6 +402,8 @@ visible subobjects. See also: domisize."""
         hv.register_hidden_exact_type(gchook_type)
         # hv.register__hiding_tag__type(self._parent.UniSet.UniSet)
         hv.register__hiding_tag__type(self._parent.UniSet.Kind)
+        hv.register__hiding_tag__type(
+            self._parent.UniSet.EquivalenceRelation)
         hv.register__hiding_tag__type(self._parent.UniSet.IdentitySetMulti)
         hv.register__hiding_tag__type(self._parent.UniSet.IdentitySetSingleton)
 
-- 
2.43.0


From f06d345e2a1860ede148e420990a55904da3d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:42 +0000
Subject: [PATCH 32/68] fix: paths taken from a listing are hidden from heap
 listings like the listing itself

---
 guppy/heapy/Path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 71d1ef7..51abd51 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -129,6 +129,7 @@ class MultiRelation(RelationBase):
 class Path:
     def __init__(self, mod, path, index, srcname):
         self.mod = mod
+        self._hiding_tag_ = mod._hiding_tag_
         self.path = path[1:]
         self.index = index
         self.src = path[1]
@@ -176,6 +177,7 @@ class PathsIter:
     def __init__(self, paths, start=None, stop=None):
         self.paths = paths
         self.mod = paths.mod
+        self._hiding_tag_ = paths._hiding_tag_
         self.stop = stop
         self.reset(start)
 
-- 
2.43.0


From 26506aa12cb0cbe7b7c0692c2356e77f9db20d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:14 +0000
Subject: [PATCH 33/68] fix: hpy().heap() does not list its own frame

---
 guppy/heapy/Use.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 29f16b7..94750f1 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -185,7 +185,8 @@ References
     [2] heapy_Use.html#heapykinds.Use.setref
     [3] heapy_Use.html#heapykinds.Use.Clodo"""
 
-        h = self.View.heap()
+        # Exclude our own frame, too, by encapsulating in enter().
+        h = self.View.enter(lambda: self.View.heap())
         h |= self.gcobjs
         h -= self.relheap
         return h
-- 
2.43.0


From 77e8898e48c44c78387951e0e5801d2c138a8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:58 +0000
Subject: [PATCH 34/68] fix: relating instances of a class whose bases were
 assigned to does not use a freed type entry

---
 src/heapy/hv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 49e67c0..3ff35ea 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -278,16 +278,20 @@ xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
     return xt->xt_hd->relate(r);
 }
 
+static ExtraType *hv_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
+
 static int
 xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
+    /* Not xt->xt_base: __bases__ may have been assigned to */
+    ExtraType *base = hv_extra_type(xt->xt_hv, xt->xt_type->tp_base);
     if (owht_relate(r, xt->xt_type))
         return 1;
     /* The attribute dict, if it is added to a type with its own relate */
     if (xt->xt_hd->relate && xt->xt_type->tp_dictoffset &&
-            !xt->xt_base->xt_type->tp_dictoffset && attrdict_relate(r))
+            !xt->xt_type->tp_base->tp_dictoffset && attrdict_relate(r))
         return 1;
-    return xt->xt_base->xt_relate(xt->xt_base, r);
+    return base->xt_relate(base, r);
 }
 
 static int
-- 
2.43.0


From 58394b6a03ca218a684b586f472c5ace1a026088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:06 +0000
Subject: [PATCH 35/68] fix: registering a hiding type hides instances of
 subtypes that were seen before, too

---
 src/heapy/hv.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 3ff35ea..178d599 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -498,10 +498,10 @@ hv_new_extra_type(NyHeapViewObject *hv, PyTypeObject *type)
             return 0;
         xt->xt_base = base;
         xt->xt_hd = base->xt_hd;
-        if (base->xt_trav_code == XT_HE) {
+        if (base->xt_he_xt) {
             xt->xt_he_xt = base->xt_he_xt;
-            xt->xt_trav_code = base->xt_trav_code;
-            xt->xt_traverse = base->xt_traverse;
+            xt->xt_trav_code = XT_HE;
+            xt->xt_traverse = xt_he_traverse;
             xt->xt_he_traverse = base->xt_he_traverse;
             xt->xt_he_offs = base->xt_he_offs;
         } else {
@@ -1218,6 +1218,21 @@ hv_get_member_offset(PyTypeObject *type, char *member_name)
     return -1;
 }
 
+static void
+hv_xt_set_hiding(ExtraType *xt, ExtraType *he_xt, Py_ssize_t offs)
+{
+    xt->xt_he_xt = he_xt;
+    xt->xt_he_offs = offs;
+    if (xt->xt_trav_code == XT_HI) {
+        /* Stays hidden, with or without tag; this is for its subtypes */
+        xt->xt_he_traverse = he_xt->xt_he_traverse;
+        return;
+    }
+    xt->xt_he_traverse = xt->xt_traverse;
+    xt->xt_traverse = xt_he_traverse;
+    xt->xt_trav_code = XT_HE;
+}
+
 PyDoc_STRVAR(hv_register__hiding_tag__type_doc,
 "HV.register__hiding_tag__type(type)\n\
 \n\
@@ -1231,8 +1246,9 @@ hv_register__hiding_tag__type(NyHeapViewObject *hv, PyObject *args, PyObject *kw
 {
     static char *kwlist[] = {"type", 0};
     PyTypeObject *type;
-    ExtraType *xt;
+    ExtraType *xt, *sxt;
     Py_ssize_t offs;
+    size_t i;
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O!:register_hiding_type", kwlist,
                                      &PyType_Type, &type))
         return NULL;
@@ -1251,11 +1267,17 @@ hv_register__hiding_tag__type(NyHeapViewObject *hv, PyObject *args, PyObject *kw
                         "register__hiding_tag__type: type is already registered");
         return 0;
     }
-    xt->xt_he_traverse = xt->xt_traverse;
-    xt->xt_he_xt = xt;
-    xt->xt_he_offs = offs;
-    xt->xt_traverse = xt_he_traverse;
-    xt->xt_trav_code = XT_HE;
+    hv_xt_set_hiding(xt, xt, offs);
+    /* The subtypes that were seen already */
+    for (i = 0; i < hv->xt_size; i++) {
+        for (sxt = hv->xt_table[i]; sxt; sxt = sxt->xt_next) {
+            PyTypeObject *t = sxt->xt_type->tp_base;
+            while (t && t != type)
+                t = t->tp_base;
+            if (t && !sxt->xt_he_xt)
+                hv_xt_set_hiding(sxt, xt, offs);
+        }
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
-- 
2.43.0


From 7d325e8489e12ec5eba9cc9e232d98e654ae1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 36/68] fix: sets of complex numbers could not be printed

---
 guppy/heapy/Part.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index a154608..b562cde 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -628,7 +628,12 @@ class IdentityPartition(Partition):
                     else:
                         ks = [sortrender(x) for x in objects]
                     ks = [(kind, i) for i, kind in enumerate(ks)]
-                    ks.sort()
+                    try:
+                        ks.sort()
+                    except TypeError:
+                        # Not all types have an order, e.g. complex
+                        ks = [(repr(kind), i) for (kind, i) in ks]
+                        ks.sort()
                     clu.objects = objects = self.mod.observation_list(
                         [objects[i] for (kind, i) in ks])
                     clu.issorted = True
-- 
2.43.0


From 33a2f55b9c0a2bcc19775b1d0c7deeae543fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 37/68] fix: indexing a partition with a too negative index
 gave a wrong row

---
 guppy/heapy/Part.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index b562cde..3c13fe0 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -511,6 +511,8 @@ class Partition:
         else:
             if index < 0:
                 index += self.numrows
+                if index < 0:
+                    raise IndexError('Partition index out of range.')
             return self.get_rowset(index)
 
     def get_sets(self, index=None):
-- 
2.43.0


From 122597139b1fc97b99e96cbd5c9fc7e79bc78d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 38/68] fix: rows after the first ones were not found by
 get_rows_of_kinds

---
 guppy/heapy/Part.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 3c13fe0..728d7f3 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -395,9 +395,9 @@ class Stat:
             idx = kindtab.get(row.name)
             if idx is not None:
                 res[idx] = row
-            n += 1
-            if n >= N:
-                break
+                n += 1
+                if n >= N:
+                    break
         return res
 
     def get_rows_n_and_other(self, N, sortby='Size'):
-- 
2.43.0


From 8563d343a625e049b40aca1bc0a6241431c88bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 39/68] fix: equivalence relations derived from others with the
 same representation were mixed up

---
 guppy/heapy/Classifiers.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 35081e6..57217b8 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -48,7 +48,7 @@ class Classifier:
     def get_dictof(self, kind):
         name = '%s.dictof' % self.name
         er = self.mod.mker_memoized(
-            name,
+            name, (self,),
             lambda:
             self.mod._er_by_(ByDictOwner, self.mod, name, self))
 
@@ -1264,6 +1264,7 @@ class _GLUECLAMP_:
         '_root:inspect',
         '_root:re',
         '_root:types',
+        '_root:weakref',
         '_root:builtins',
     )
 
@@ -1298,30 +1299,39 @@ class _GLUECLAMP_:
             return self.Unity
         classifiers = [er.classifier for er in ers]
         name = None
-        return self.UniSet.fam_EquivalenceRelation(AndClassifier, self, name, classifiers)
+        return self.mker_memoized(
+            name, tuple(classifiers),
+            lambda:
+            self._er_by_(AndClassifier, self, name, classifiers))
 
     def mker_dictof(self, er, name=None):
         if name is None:
             name = '%s.dictof' % er.classifier.name
         return self.mker_memoized(
-            name,
+            name, (er.classifier,),
             lambda:
             self._er_by_(ByDictOwner, self, name, er.classifier))
 
     def _get_memo_er(self):
-        return {}
-
-    def mker_memoized(self, name, f):
-        v = self.memo_er.get(name)
-        if v is None:
-            self.memo_er[name] = v = f()
-        return v
+        return self.weakref.WeakValueDictionary()
+
+    def mker_memoized(self, name, classifiers, f):
+        # Different classifiers may have the same name, since it is
+        # made from the representation of their kinds. Memoizes the
+        # classifier rather than its er, which can't be weakly referred.
+        key = name, classifiers
+        cla = self.memo_er.get(key)
+        if cla is None:
+            er = f()
+            self.memo_er[key] = er.classifier
+            return er
+        return cla.er
 
     def mker_refdby(self, er, name=None):
         if name is None:
             name = '%s.refdby' % er.classifier.name
         return self.mker_memoized(
-            name,
+            name, (er.classifier,),
             lambda:
             self._er_by_(
                 ByRetClaSet,
-- 
2.43.0


From ff490fde863548c9e16cea0dd801bd616063e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 40/68] fix: equal intersections and unions of kinds had
 different hashes

---
 guppy/heapy/UniSet.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index d3b5874..d56dbec 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1063,6 +1063,13 @@ class AndFamily(Family):
             b = a & b
         return b
 
+    def c_hash(self, a):
+        # The order is not significant, nor are args that imply others
+        xs = minimals(a.arg)
+        if len(xs) == 1:
+            return hash(xs[0])
+        return hash(frozenset(xs))
+
     def c_le(self, a, b):
         return b.fam._ge_AND(b, a)
 
@@ -1276,6 +1283,10 @@ class OrFamily(Family):
         else:
             return self._ge_TERM(a, b)
 
+    def c_hash(self, a):
+        # The order is not significant
+        return hash(frozenset(a.arg))
+
     def c_le(self, a, b):
         for x in a.arg:
             if not x <= b:
-- 
2.43.0


From 7de9e9e30e09bea44c62c7cff17d99d6f6aa9f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 41/68] fix: kinds of dicts of overlapping kinds of owners were
 taken as disjoint

---
 guppy/heapy/Classifiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 57217b8..5041ce1 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -464,6 +464,12 @@ class OwnedDictFamily:
     def __init__(self, mod):
         self.defrefidis(mod.Use.Type(dict))
 
+    def _factordisjoint_ATOM(self, a, b):
+        if b.fam is self:
+            # Different kinds of owners may overlap
+            return a.arg.disjoint(b.arg)
+        return self.mod.AtomFamily._factordisjoint_ATOM(self, a, b)
+
     def _get_ownerkind(self, a):
         return a.arg
 
-- 
2.43.0


From e5cade8df132708ff11638ec39f01ec653e54972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 42/68] fix: some kinds could not be hashed or had hashes that
 differ when they are equal

---
 guppy/heapy/Classifiers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 5041ce1..7661197 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -147,7 +147,8 @@ class SoKind(object):
         return a == b
 
     def __hash__(self):
-        return hash(repr(self))
+        # The order is not significant
+        return hash(frozenset(self.kinds))
 
     def __repr__(self):
         return self.classifier.get_sokindrepr(self)
@@ -210,6 +211,9 @@ class IdentityFamily:
     def c_contains(self, a, b):
         return b is a.arg
 
+    def c_hash(self, a):
+        return id(a.arg)
+
     def _and_ID(self, a, b):
         # Just a possible optimization
         return self.mod.Use.idset(b.nodes & [a.arg])
@@ -855,6 +859,10 @@ class InRelFamily:
         b = dict([(x, ()) for x in b])
         return a == b
 
+    def c_hash(self, a):
+        # See _eq_args
+        return hash(frozenset(a.arg))
+
     def _ge_ATOM(self, a, b):
         # b is known to not be Nothing since its c_le doesn't call back
         if self is b.fam:
-- 
2.43.0


From 95494f92ac2187949f2a4be3ebf0d85cf6f77ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 43/68] fix: heaps with classes whose metaclass defines
 equality could not be shown

---
 guppy/heapy/Classifiers.py | 21 +++++++++++++++++++--
 guppy/heapy/UniSet.py      | 29 +++++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 7661197..631c39f 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -400,6 +400,23 @@ class TypeFamily:
             raise TypeError("Argument should be a type.")
         return self.Set(self, a)
 
+    # Types are compared by identity, the metaclass may define equality
+
+    def _ge_ATOM(self, a, b):
+        # b is known to not be Nothing since its c_le doesn't call back
+        if self is b.fam:
+            return a.arg is b.arg
+        return b.fam.supercl is not None and b.fam.supercl <= a
+
+    def _le_ATOM(self, a, b):
+        # b is known to not be Nothing since its c_ge doesn't call back
+        if self is b.fam:
+            return a.arg is b.arg
+        return self.supercl is not None and self.supercl <= b
+
+    def c_hash(self, a):
+        return id(a.arg)
+
     def c_alt(self, a, alt):
         return self.classifier.get_alt(a, alt)
 
@@ -692,7 +709,7 @@ The classification is performed as follows:
     def get_userkind(self, kind=None, dictof=None):
         try:
             if kind is None and dictof is not None:
-                if dictof == ():
+                if isinstance(dictof, tuple) and not dictof:
                     do = self.mod.UniSet.Nothing
                 else:
                     do = self.sup.get_userkind(dictof)
@@ -1471,7 +1488,7 @@ the object.
         return self.dictof(self.Use.Nothing)
 
     def _get_invtypemod(self):
-        invtypemod = {}
+        invtypemod = self.UniSet.TypeMap()
         for k, v in list(self.types._module.__dict__.items()):
             if k.endswith('Type'):
                 invtypemod[v] = k[:-4]
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index d56dbec..f41b20a 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1958,11 +1958,32 @@ class EquivalenceRelationFamily(AtomFamily):
         return a.classifier.get_reprname()
 
 
+class TypeMap:
+    # A mapping keyed by identity of types, since the metaclass of a
+    # type may define equality and hash otherwise, or make it unhashable.
+    def __init__(self, items=()):
+        self.items = {}
+        for k, v in items:
+            self[k] = v
+
+    def __contains__(self, t):
+        return id(t) in self.items
+
+    def __getitem__(self, t):
+        return self.items[id(t)][1]
+
+    def __setitem__(self, t, v):
+        self.items[id(t)] = t, v
+
+    def get(self, t):
+        return self.items.get(id(t), (t, None))[1]
+
+
 class Summary_str:
     def __init__(self, mod):
         self.mod = mod
         types = mod.types._module
-        self.invtypes = {}
+        self.invtypes = TypeMap()
         for k, v in sorted(types.__dict__.items()):
             if isinstance(v, type):
                 self.invtypes[v] = 'types.%s' % k
@@ -1973,12 +1994,12 @@ class Summary_str:
         # This is to make common printouts prettier / shorter (: and clearer ? :)
         # but may be disabled for clearer repr()
 
-        self.shorter_invtypes = {}
+        self.shorter_invtypes = TypeMap()
         for name in ('module', 'function'):
             t = getattr(types, name.capitalize()+'Type')
             self.shorter_invtypes[t] = name
 
-        self.table = {
+        self.table = TypeMap({
             mod.NodeSet: self.str_address_len,
             bool: self.str_repr,
             types.BuiltinFunctionType: self.str_builtin_function,
@@ -1998,7 +2019,7 @@ class Summary_str:
             str: self.str_limrepr,
             tuple: self.str_address_len,
             type: self.str_type,
-        }
+        }.items())
 
     def __call__(self, key, longer=False):
         x = self.table.get(key)
-- 
2.43.0


From ea82495262b2faf01a68549f86c5992c1e40f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 44/68] fix: selecting dicts not owned by dictof with some
 owner classifiers raised TypeError

---
 src/heapy/hv_cli_dictof.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 432f3ef..5d5f58e 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -171,7 +171,8 @@ hv_cli_dictof_classify(DictofObject *self, PyObject *obj)
 static PyObject *
 hv_cli_dictof_memoized_kind(DictofObject *self, PyObject *obj)
 {
-    if (self->ownerclassifier->def->memoized_kind)
+    if (self->ownerclassifier->def->memoized_kind &&
+            obj != self->notdictkind && obj != self->notownedkind)
         return self->ownerclassifier->def->memoized_kind(self->ownerclassifier->self, obj);
     else {
         Py_INCREF(obj);
-- 
2.43.0


From e18e52dfae7db00afbc823984cf0b42170f75717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 45/68] fix: equal complements of sets of objects, and
 intersections with them, had different hashes

---
 guppy/heapy/UniSet.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index f41b20a..b787115 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1064,12 +1064,19 @@ class AndFamily(Family):
         return b
 
     def c_hash(self, a):
-        # The order is not significant, nor are args that imply others
-        xs = minimals(a.arg)
+        # The order is not significant, nor are args that imply others,
+        # and what an excepted identity set was reduced to depends on the order
+        xs = [x for x in minimals(a.arg) if not self._is_exception(x)]
+        if not xs:
+            return hash(a.arg[0])
         if len(xs) == 1:
             return hash(xs[0])
         return hash(frozenset(xs))
 
+    def _is_exception(self, x):
+        return (x.fam is self.mod.fam_Invert and
+                x.arg.fam is self.mod.fam_IdentitySet)
+
     def c_le(self, a, b):
         return b.fam._ge_AND(b, a)
 
@@ -1411,6 +1418,12 @@ class InvertFamily(Family):
         else:
             return Family.__call__(self, a)
 
+    def c_hash(self, a):
+        # Cf. AndFamily.c_hash
+        if a.arg.fam is self.mod.fam_IdentitySet:
+            return hash(self.opname)
+        return hash(a.arg)
+
     def c_test_contains(self, a, b, env):
         return env.test_contains_not(a.arg, b, 'InvertFamily')
 
-- 
2.43.0


From 4dcde30ace2467a0a38acdbfb196656fff50875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 46/68] fix: equal unions of kinds had different hashes

---
 guppy/heapy/UniSet.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index b787115..2767585 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1291,8 +1291,8 @@ class OrFamily(Family):
             return self._ge_TERM(a, b)
 
     def c_hash(self, a):
-        # The order is not significant
-        return hash(frozenset(a.arg))
+        # Equal unions may be written with different args
+        return hash(self.opname)
 
     def c_le(self, a, b):
         for x in a.arg:
@@ -1308,22 +1308,27 @@ class OrFamily(Family):
     def _or_TERM(self, a, b):
         # a0 | a1 ... | b
         xs = []
-        lt = False
-        for a in a.arg:
-            if not b >= a:
-                xs.append(a)
-                if b <= a:
-                    lt = True
-        if not lt:
-            xs.append(b)
-        return self._cons(xs)
+        for ai in a.arg:
+            if not b >= ai:
+                xs.append(ai)
+                if b <= ai:
+                    return a
+        xs.append(b)
+        if len(xs) > len(a.arg):
+            return self._cons(xs)
+        # What remains may be possible to merge
+        r = self.mod.Nothing
+        for x in xs:
+            r |= x
+        return r
 
     _or_ATOM = _or_INVERT = _or_AND = _or_TERM
 
     def _or_OR(self, a, b):
         # (a0 | a1 ...) | (b0 | b1 ...)
-        xs = maximals(a.arg + b.arg)
-        return self._cons(xs)
+        for bi in b.arg:
+            a |= bi
+        return a
 
     def c_invert(self, a):
         # ~(a0 | a1 ...) = ~a0 & ~a1 ...
-- 
2.43.0


From 2077e1af13e8cfd14f543617d7fa5ab82706a6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 47/68] fix: .prev of the first continuation of a listing did
 not show the listing

---
 guppy/heapy/OutputHandling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/OutputHandling.py b/guppy/heapy/OutputHandling.py
index 369d470..9fa9676 100644
--- a/guppy/heapy/OutputHandling.py
+++ b/guppy/heapy/OutputHandling.py
@@ -248,7 +248,10 @@ class Printer:
         return next_lineno
 
     def _get_prev(self, mp):
-        return mp._oh_previous
+        prev = mp._oh_previous
+        if prev is self:
+            return self.client
+        return prev
 
     def _oh_get_start_lineno(self):
         return 0
-- 
2.43.0


From 336cb3508bc3674c3f26c77fa0ce3024c3d95df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 48/68] fix: loadall raised RuntimeError after the last
 statistics

---
 guppy/heapy/Use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 94750f1..b46e102 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -297,7 +297,11 @@ References
         if isinstance(f, str):
             f = open(f)
         while True:
-            yield self.load(f)
+            try:
+                stat = self.load(f)
+            except StopIteration:
+                return
+            yield stat
 
     def loadc(self, fn):
         f = open(fn, 'r', 1)
-- 
2.43.0


From 5a57c67f59b4271f6222309176b8b1cc04b20379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 49/68] fix: dumping statistics loaded by file name dumped all
 statistics in that file

---
 guppy/heapy/Use.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index b46e102..c487041 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -232,6 +232,7 @@ References
 
             def get_trows():
                 pos = 0
+                endline = None
                 while 1:
                     f.seek(pos)
                     line = f.readline()
@@ -239,6 +240,10 @@ References
                         break
                     pos = f.tell()
                     yield line
+                    if endline is None:
+                        endline = '.end: %s' % line
+                    elif line == endline:
+                        break
         elif hasattr(fn, '__iter__') and not hasattr(fn, '__next__'):
             # We got a sequence, that is not an iterator. Use it directly.
             def get_trows():
-- 
2.43.0


From 30818edf35f362559eb5ea54a106627492978d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 50/68] fix: get_rows_of_kinds missed rows when several rows
 had the same name

---
 guppy/heapy/Part.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 728d7f3..897b577 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -393,7 +393,7 @@ class Stat:
         n = 0
         for row in self.get_rows():
             idx = kindtab.get(row.name)
-            if idx is not None:
+            if idx is not None and res[idx] is None:
                 res[idx] = row
                 n += 1
                 if n >= N:
-- 
2.43.0


From 1edd3804f6d7b14d78b060caa61de9e530bdf1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 51/68] fix: loading statistics cut off within a row gave a row
 with wrong values

---
 guppy/heapy/Use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index c487041..e39222c 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -236,7 +236,8 @@ References
                 while 1:
                     f.seek(pos)
                     line = f.readline()
-                    if not line:
+                    if not line.endswith('\n'):
+                        # At end, or cut off within a line
                         break
                     pos = f.tell()
                     yield line
@@ -277,6 +278,9 @@ References
                 else:
                     raise StopIteration
             except StopIteration:
+                if trows[0].endswith('\n') and not trows[-1].endswith('\n'):
+                    # Cut off within a line
+                    trows.pop()
                 trows.append(endline)
 
             def get_trows():
-- 
2.43.0


From e34e06bebf117cbd68529ff3c3e8ffb3f58ec80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 52/68] fix: a set taken from a row was shown with the index
 and cumulative size of that row

---
 guppy/heapy/Part.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 897b577..f6b954c 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -725,8 +725,11 @@ class SetPartition(Partition):
 
 class FastPartition(SetPartition):
     def __init__(self, mod, parent, row):
-        Partition.__init__(self, mod, parent.set, parent.er)
+        Partition.__init__(self, mod, row.set, parent.er)
 
+        # The row is the first and only one here
+        row = PartRow(row.count, row.size, row.name, 0, row.size,
+                      row.set, row.kind)
         self.count = row.count
         self.kindheader = parent.kindheader
         self.kindname = ''
-- 
2.43.0


From 05daaa68ad654e59a83bd98877af6128858e5a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 53/68] fix: statistics loaded from a sequence of lines
 included those after them

---
 guppy/heapy/Use.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index e39222c..22a89dd 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -248,7 +248,13 @@ References
         elif hasattr(fn, '__iter__') and not hasattr(fn, '__next__'):
             # We got a sequence, that is not an iterator. Use it directly.
             def get_trows():
-                return fn
+                endline = None
+                for line in fn:
+                    yield line
+                    if endline is None:
+                        endline = '.end: %s' % line
+                    elif line == endline:
+                        break
         elif hasattr(fn, '__next__'):
             # We got an iterator or file object.
             # We 'have' to read all lines (at once)-
-- 
2.43.0


From 4b6af0976b30650cff07a7f37d950e5585898f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 54/68] fix: differences that cancel out in total were shown
 without headers

---
 guppy/heapy/Part.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index f6b954c..5e71366 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -46,7 +46,7 @@ class Format(object):
 
     def _oh_get_row_header(self):
         impl = self.impl
-        if not (impl.count or impl.size):
+        if not impl.numrows:
             return ''
         sh = self.get_stat_header()
         return self.mod.fill(
@@ -150,7 +150,7 @@ class DiffFormat(Format):
             '  B    %6d %8d\n' % (impl.b_count, impl.b_size) +
             '  A-B  %6d %8d  = %s %% of B\n' % (impl.count, impl.size, self._percent_of_b(impl.size)))
 
-        if impl.count or impl.size:
+        if impl.numrows:
             x += '\nDifferences by kind, largest absolute size diffs first.'
         return x
 
-- 
2.43.0


From 4c3865dfed830cf2c84d8dd62f1e8832ec4ac575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 55/68] fix: the profile reader lost or mangled samples that
 were partly written or not ASCII

---
 guppy/heapy/Prof.py | 58 ++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index a0babaf..b81b224 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -127,6 +127,7 @@ class Stats:
         self.mod = mod
         self.os = mod.os
         self.hashlib = mod.hashlib
+        self.io = mod.io
         self.fn = fn
 
     def clear_cache(self):
@@ -149,24 +150,19 @@ class Stats:
         if stat == self.laststat:
             return len(self), 0
 
-        with open(self.fn) as f:
-            str = f.read(self.lastfilesize)
-            md5 = self.hashlib.md5(str.encode('utf-8'))
-            digest = md5.digest()
-            if digest == self.lastdigest:
-                numoldstats = len(self)
-            else:
-                self.loadstr(str, reset=1)
-                numoldstats = 0
-
-            str = f.read()
-
-            self.laststat = self.os.fstat(f.fileno())
-        self.lastfilesize = self.laststat.st_size
+        data, laststat = self.read(self.fn)
+        digest = self.hashlib.md5(data[:self.lastfilesize]).digest()
+        if digest == self.lastdigest:
+            numoldstats = len(self)
+            self.loadstr(self.decode(data[self.lastfilesize:]))
+        else:
+            numoldstats = 0
+            self.loadstr(self.decode(data), reset=1)
 
-        md5.update(str.encode('utf-8'))
-        self.lastdigest = md5.digest()
-        self.loadstr(str)
+        # Update these only if there was no exception so far.
+        self.lastdigest = self.hashlib.md5(data).digest()
+        self.laststat = laststat
+        self.lastfilesize = len(data)
 
         numnewstats = len(self.stats)-numoldstats
 
@@ -180,17 +176,30 @@ class Stats:
             self.fn = fn
             return
 
-        with open(fn) as f:
-            str = f.read()
-            lastdigest = self.hashlib.md5(str.encode('utf-8')).digest()
-            laststat = self.os.fstat(f.fileno())
-        self.loadstr(str, reset=1)
+        data, laststat = self.read(fn)
+        self.loadstr(self.decode(data), reset=1)
 
         # Update these only if there was no exception so far.
         self.fn = fn
-        self.lastdigest = lastdigest
+        self.lastdigest = self.hashlib.md5(data).digest()
         self.laststat = laststat
-        self.lastfilesize = laststat.st_size
+        self.lastfilesize = len(data)
+
+    def read(self, fn):
+        with open(fn, 'rb') as f:
+            data = f.read()
+            stat = self.os.fstat(f.fileno())
+
+        # The last sample may be only partly written; leave it until later.
+        end = data.rfind(b'\n.end: ', 0, data.rfind(b'\n') + 1)
+        end = data.find(b'\n', end + 1) + 1 if end >= 0 else 0
+        tail = data[end:]
+        if tail.startswith(b'.loader:') or b'.loader:'.startswith(tail):
+            data = data[:end]
+        return data, stat
+
+    def decode(self, data):
+        return self.io.TextIOWrapper(self.io.BytesIO(data)).read()
 
     def loadstr(self, str, reset=0):
         stats = []
@@ -2972,6 +2981,7 @@ class _GLUECLAMP_:
         '_parent:pbhelp',
         '_root.guppy.etc:textView',
         '_root:hashlib',
+        '_root:io',
         '_root:os',
         '_root.os:path',
         '_root:time',
-- 
2.43.0


From 5f02eeee8d9f54cc0d5937a7cb3fa62f92aa2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 56/68] fix: the profile reader missed changes made while
 reading or within a second

---
 guppy/heapy/Prof.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index b81b224..a3e98a8 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -146,8 +146,7 @@ class Stats:
         if not self.fn:
             return 0, 0
 
-        stat = self.os.stat(self.fn)
-        if stat == self.laststat:
+        if self.filestate(self.os.stat(self.fn)) == self.laststat:
             return len(self), 0
 
         data, laststat = self.read(self.fn)
@@ -187,8 +186,9 @@ class Stats:
 
     def read(self, fn):
         with open(fn, 'rb') as f:
+            # Before reading, so that what is written after is noticed.
+            stat = self.filestate(self.os.fstat(f.fileno()))
             data = f.read()
-            stat = self.os.fstat(f.fileno())
 
         # The last sample may be only partly written; leave it until later.
         end = data.rfind(b'\n.end: ', 0, data.rfind(b'\n') + 1)
@@ -198,6 +198,9 @@ class Stats:
             data = data[:end]
         return data, stat
 
+    def filestate(self, stat):
+        return stat.st_dev, stat.st_ino, stat.st_size, stat.st_mtime_ns
+
     def decode(self, data):
         return self.io.TextIOWrapper(self.io.BytesIO(data)).read()
 
-- 
2.43.0


From 53cac381fae54aac65f202c4074e0d5ee69775cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 57/68] fix: the profile reader failed when collecting first,
 and repeated samples after clear_cache

---
 guppy/heapy/Prof.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index a3e98a8..210eb1f 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -123,6 +123,10 @@ class ClickButton(Button):
 
 
 class Stats:
+    # Nothing has been read yet
+    laststat = lastdigest = None
+    lastfilesize = 0
+
     def __init__(self, mod, fn=None):
         self.mod = mod
         self.os = mod.os
@@ -135,6 +139,7 @@ class Stats:
         # automagically reopened when needed.
         self.stats = None
         del self.stats
+        self.lastdigest = None
 
     def get_stats(self):
         self.open(self.fn)
-- 
2.43.0


From 0162d2c052764175600351d5b541c37b0485c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 58/68] fix: quote every line that begins with quotes and a dot
 in dotted trees

---
 guppy/gsl/DottedTree.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 1b4a229..80d4b00 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -115,8 +115,8 @@ class _GLUECLAMP_:
             else:
                 break
         for (i, t) in enumerate(tag):
-            if (t.startswith(quotechar+dotchar) or
-                    t.startswith(quotechar+quotechar+dotchar)):
+            if (t.startswith(quotechar) and
+                    t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
         if tag == ['']:
             tag = '\n'
@@ -173,8 +173,7 @@ class _GLUECLAMP_:
         dotchar, quotechar = self.dotchar, self.quotechar
         tag = tag.split('\n')
         for (i, t) in enumerate(tag):
-            if (t.startswith(dotchar) or
-                    t.startswith(quotechar + dotchar)):
+            if t.lstrip(quotechar).startswith(dotchar):
                 tag[i] = quotechar + t
         tag = '\n'.join(tag)
         tag = dotchar*depth+tag
-- 
2.43.0


From a4a8b1302f8659c46b37aa75f4efaac24a5bcc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 59/68] fix: keep empty tags in dotted trees

---
 guppy/gsl/DottedTree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 80d4b00..c9ecb21 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -118,7 +118,7 @@ class _GLUECLAMP_:
             if (t.startswith(quotechar) and
                     t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
-        if tag == ['']:
+        if tag == [''] and pos == 0:
             tag = '\n'
         else:
             tag = '\n'.join(tag)
@@ -162,7 +162,9 @@ class _GLUECLAMP_:
         li = []
 
         def unparse(depth, sexpr):
-            li.append(self.unparse_tag(depth, sexpr[0]))
+            # An empty line before the first node would be read as '\n'
+            if depth or sexpr[0]:
+                li.append(self.unparse_tag(depth, sexpr[0]))
             for x in sexpr[1:]:
                 unparse(depth+1, x)
 
-- 
2.43.0


From 851cbac7ae0a0766df5657103fd2ca6ba154b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 60/68] fix: reference patterns by size or module could not be
 shown

---
 guppy/heapy/Classifiers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 631c39f..90844f7 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -351,9 +351,6 @@ class IndiSizeFamily:
     def c_contains(self, a, b):
         return a.arg == self.classifier.cli.classify(b)
 
-    def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
-
     def c_get_brief(self, a):
         return '<size = %d>' % a.arg
 
@@ -1058,7 +1055,7 @@ class ModuleFamily:
         return b is a.arg
 
     def c_get_render(self, a):
-        return self.mod.summary_str(a.arg)
+        return self.mod.summary_str(type(a.arg))
 
     def c_get_brief(self, a):
         return self.mod.summary_str(type(a.arg))(a.arg)
-- 
2.43.0


From 2bfc17897a6d517cd4c9aa9a8522d9460a06f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 61/68] fix: the complement of a kind without a renderer could
 not be rendered

---
 guppy/heapy/UniSet.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 2767585..5a5ef2c 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1501,9 +1501,6 @@ class InvertFamily(Family):
         # ~(~a.arg) = a.arg
         return a.arg
 
-    def c_get_render(self, a):
-        return a.arg.get_render()
-
     def c_get_brief(self, a):
         n = a.arg.brief
         if (not (n.startswith('(') or n.startswith('<')) and
-- 
2.43.0


From 695bc58877b5d6df945957c5cc63686bfbbab6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 62/68] fix: the rows bf and lg of a reference pattern could
 not be named

---
 guppy/heapy/RefPat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 65c9c59..4fbeeb5 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -361,7 +361,7 @@ Methods
         self.set = set
         self.depth = depth
         self.er = er
-        self.bf = bf
+        self._bf = bf
         self.stopkind = stopkind
         self.nocyc = nocyc
         self.is_initialized = 0
@@ -420,7 +420,7 @@ Methods
     def generate(self, ix=None):
         while ix is None or ix < 0 or ix >= len(self.lines):
             try:
-                self.lines.append(next(self.lg))
+                self.lines.append(next(self._lg))
             except StopIteration:
                 self.isfullygenerated = 1
                 return
@@ -508,7 +508,7 @@ Methods
         self.isfullygenerated = 0
         self.seensets = {}
         self.lines = []
-        self.lg = self.linegenerator(self.kindset, [])
+        self._lg = self.linegenerator(self.kindset, [])
         self.lastindex = None
 
 
-- 
2.43.0


From 3ebc0217726df4e7c55497598551480138f3d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 63/68] fix: the equation '' = '' made the completion of rules
 fail

---
 guppy/etc/KnuthBendix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/etc/KnuthBendix.py b/guppy/etc/KnuthBendix.py
index 8c036b0..d72b448 100644
--- a/guppy/etc/KnuthBendix.py
+++ b/guppy/etc/KnuthBendix.py
@@ -72,6 +72,8 @@ class KnuthBendix:
             if delim:
                 a = self.wrap_delim(a)
                 b = self.wrap_delim(b)
+            if a == b:
+                continue
             if self.gt(b, a):
                 a, b = b, a
             self.reductions.append((a, b))
-- 
2.43.0


From ca055df81a1780c4fcb5c040d97e02a963d60db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 64/68] fix: a kind of producers of any file or any line has a
 printable name

---
 guppy/heapy/Classifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 90844f7..f1254b8 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1205,7 +1205,7 @@ class ProdFamily:
         if a.arg is None:
             return 'unknown'
         else:
-            return '%s:%d' % a.arg
+            return '%s:%s' % a.arg
 
     def c_repr(self, a):
         return '%s(%s)' % (self.classifier.get_reprname(),
-- 
2.43.0


From b9f0604744f9d480a76756cd962c24c3e5b6545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 65/68] fix: producers below a line number exclude that line,
 also for any file

---
 src/heapy/classifier.c  |  4 ++++
 src/heapy/classifier.h  |  2 ++
 src/heapy/hv_cli_prod.c | 33 +++++++++++++++++++++++----------
 3 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 0125d96..3b542de 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -14,6 +14,8 @@ NyObjectClassifier_Compare(NyObjectClassifierObject *cli, PyObject *a, PyObject
     */
     switch (cmp) {
     case CLI_LT:
+        if (cli->def->cmp_lt)
+            return cli->def->cmp_lt(cli->self, a, b);
         if (a == b)
             return 0;
         /* Fallin LE */
@@ -24,6 +26,8 @@ NyObjectClassifier_Compare(NyObjectClassifierObject *cli, PyObject *a, PyObject
     case CLI_NE:
         return (a != b);
     case CLI_GT:
+        if (cli->def->cmp_lt)
+            return cli->def->cmp_lt(cli->self, b, a);
         if (a == b)
             return 0;
         /* Fallin GE */
diff --git a/src/heapy/classifier.h b/src/heapy/classifier.h
index d228f90..60e80af 100644
--- a/src/heapy/classifier.h
+++ b/src/heapy/classifier.h
@@ -9,6 +9,8 @@ typedef struct {
     PyObject * (*classify)(PyObject *self, PyObject *arg);
     PyObject * (*memoized_kind)(PyObject *self, PyObject *kind);
     int (*cmp_le)(PyObject *self, PyObject *a, PyObject *b);
+    /* Optional; by default, a < b when a is not b and cmp_le(a, b). */
+    int (*cmp_lt)(PyObject *self, PyObject *a, PyObject *b);
 } NyObjectClassifierDef;
 
 typedef struct{
diff --git a/src/heapy/hv_cli_prod.c b/src/heapy/hv_cli_prod.c
index 01a8f57..6bff7b7 100644
--- a/src/heapy/hv_cli_prod.c
+++ b/src/heapy/hv_cli_prod.c
@@ -140,10 +140,10 @@ Err:
 }
 
 static int
-hv_cli_prod_le(PyObject * self, PyObject *a, PyObject *b)
+hv_cli_prod_compare(PyObject *a, PyObject *b, int op)
 {
     if (a == Py_None || b == Py_None)
-        return a == Py_None && b == Py_None;
+        return op == Py_LE && a == Py_None && b == Py_None;
 
     if (!PyTuple_Check(a) || !PyTuple_Check(b))
         return 0;
@@ -159,15 +159,15 @@ hv_cli_prod_le(PyObject * self, PyObject *a, PyObject *b)
         if (a_elem == Py_None || b_elem == Py_None)
             continue;
 
-        int k = PyObject_RichCompareBool(a_elem, b_elem, Py_EQ);
-        if (k < 0)
-            return k;
-        if (k)
-            continue;
-
+        int k;
         switch (i) {
         case 0:
             // filename: a.startswith(b)
+            k = PyObject_RichCompareBool(a_elem, b_elem, Py_EQ);
+            if (k < 0)
+                return k;
+            if (k)
+                continue;
             if (!PySequence_Check(a_elem) || !PySequence_Check(b_elem))
                 return 0;
 
@@ -182,7 +182,7 @@ hv_cli_prod_le(PyObject * self, PyObject *a, PyObject *b)
             break;
         case 1:
             // lineno
-            k = PyObject_RichCompareBool(a_elem, b_elem, Py_LE);
+            k = PyObject_RichCompareBool(a_elem, b_elem, op);
             break;
         }
 
@@ -193,6 +193,18 @@ hv_cli_prod_le(PyObject * self, PyObject *a, PyObject *b)
     return 1;
 }
 
+static int
+hv_cli_prod_le(PyObject * self, PyObject *a, PyObject *b)
+{
+    return hv_cli_prod_compare(a, b, Py_LE);
+}
+
+static int
+hv_cli_prod_lt(PyObject * self, PyObject *a, PyObject *b)
+{
+    return hv_cli_prod_compare(a, b, Py_LT);
+}
+
 static NyObjectClassifierDef hv_cli_prod_def = {
     0,
     sizeof(NyObjectClassifierDef),
@@ -200,7 +212,8 @@ static NyObjectClassifierDef hv_cli_prod_def = {
     "classifier returning object producer",
     (binaryfunc)hv_cli_prod_classify,
     (binaryfunc)hv_cli_prod_memoized_kind,
-    hv_cli_prod_le
+    hv_cli_prod_le,
+    hv_cli_prod_lt
 };
 
 static PyObject *
-- 
2.43.0


From 95f35e841651fc4dd555c2c7602212d87f5e050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 66/68] fix: the kind of objects referred to by nothing is one
 kind, however it is asked for

---
 guppy/heapy/Classifiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index f1254b8..9780426 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -850,6 +850,9 @@ class ByRetClaSet(Classifier):
                 # get_kindarg takes care of classifier error checking
                 clikinds.append(self.referrer_classifier.get_kindarg(arg))
 
+        if not args:
+            return self.mod.refdbynothing
+
         if len(args) > 1 or firstsok is None:
             sok = QuickSoKind(self.referrer_classifier,
                               self.mod.ImpSet.immnodeset(clikinds))
-- 
2.43.0


From 47705f8582672cf11740d03cda13af0882efdb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:50 +0000
Subject: [PATCH 67/68] fix: the text of a kind of a type is understood
 whatever the name of the type

---
 guppy/heapy/Classifiers.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 9780426..991009d 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1410,19 +1410,17 @@ the object.
         s = k
         if not (s.startswith('<') and s.endswith('>')):
             raise ValueError(err)
-        s = s.lstrip('<').rstrip('>')
-        s = s.split(' ')
-        if len(s) < 2:
-            raise ValueError(err)
-        t = s[0]
-        addr = self.str2int(s[-1])
+        # The name of a type may be any string
+        t, _, s = s[1:-1].partition(' ')
+        name, at, addr = s.rpartition(' at ')
+        addr = self.str2int(addr)
         kind = self.View.obj_at(addr)
         if t == 'at':
-            if len(s) != 2:
+            if at:
                 raise ValueError(err)
             ty = None
         else:
-            if len(s) != 4:
+            if not at:
                 raise ValueError(err)
             if t not in ('type', 'class'):
                 raise ValueError(err)
@@ -1432,19 +1430,14 @@ the object.
                 ty = getattr(self.builtins, t.lower())
             if not isinstance(kind, ty):
                 raise TypeError('%s object expected' % t)
-            if not s[2] == 'at':
-                raise ValueError(err)
-            names = s[1].split('.')
-            if len(names) < 2:
+            if '.' not in name:
                 raise ValueError(err)
-            modulename = '.'.join(names[:-1])
-            tcname = names[-1]
-            if kind.__module__ != modulename:
+            if not name.startswith('%s.' % (kind.__module__,)):
                 raise ValueError(
-                    'The %s %r has wrong __module__, expected %r.' % (t, kind, modulename))
-            if kind.__name__ != tcname:
+                    'The %s %r has wrong __module__, expected %r.' % (t, kind, name))
+            if name != '%s.%s' % (kind.__module__, kind.__name__):
                 raise ValueError(
-                    'The %s %r has wrong __name__, expected %r.' % (t, kind, tcname))
+                    'The %s %r has wrong __name__, expected %r.' % (t, kind, name))
 
         return kind
 
-- 
2.43.0


From f368431b891d61bf164990e92197f3d66611e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:16 +0000
Subject: [PATCH 68/68] fix: a classifier that has no order is not given to
 cli_findex with one

---
 src/heapy/hv_cli_findex.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index ea78882..71ed69a 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -87,6 +87,7 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
     FindexObject *s, tmp;
     Py_ssize_t numalts;
     Py_ssize_t i;
+    int cmp;
     if (!PyArg_ParseTuple(args, "O!O!:cli_findex",
                           &PyTuple_Type, &tmp.alts,
                           &PyDict_Type, &tmp.memo)) {
@@ -111,7 +112,13 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
             PyErr_SetString(PyExc_TypeError, "Tuple of triples with [2] a STRING expected.");
             return 0;
         }
-        if (cli_cmp_as_int(PyTuple_GET_ITEM(ckc, 2)) == -1) {
+        cmp = cli_cmp_as_int(PyTuple_GET_ITEM(ckc, 2));
+        if (cmp == -1) {
+            return 0;
+        }
+        if (!(cmp == CLI_EQ || cmp == CLI_NE ||
+              ((NyObjectClassifierObject *)PyTuple_GET_ITEM(ckc, 0))->def->cmp_le)) {
+            PyErr_SetString(PyExc_ValueError, "This classifier supports only equality selection.");
             return 0;
         }
     }
-- 
2.43.0

