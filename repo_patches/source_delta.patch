From 4e9c172f150dbc18bf8639308a32c74acb6cf916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 01/80] fix: membership in a complemented mutable bit set
 ignored the complement flag

---
 src/sets/bitset.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c282bc3..751602d 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1329,8 +1329,8 @@ NyMutBitSet_hasbit(NyMutBitSetObject *v, NyBit bit)
     bitno_to_field(bit, &f);
     fp = mutbitset_findpos(v, f.pos);
     if (!fp)
-        return 0;
-    return (fp->bits & f.bits) != 0;
+        return v->cpl != 0;
+    return ((fp->bits & f.bits) != 0) != (v->cpl != 0);
 }
 static int
 mutbitset_contains(NyMutBitSetObject *v, PyObject *w)
-- 
2.43.0


From 89f80920a88c7b135c53ada92df8937665293357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 02/80] fix: empty instances of ImmBitSet subclasses were true
 and read out of bounds

---
 src/sets/bitset.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 751602d..10f8224 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2882,11 +2882,11 @@ immbitset_lshift(NyImmBitSetObject *v, NyBit w)
     NyBit n;
     NyBit lopos, hipos;
     NyBit i;
-    if (v == NyImmBitSet_Empty) {
+    n = Py_SIZE(v);
+    if (!n) {
         Py_INCREF(NyImmBitSet_Empty);
         return NyImmBitSet_Empty;
     }
-    n = Py_SIZE(v);
     lopos = v->ob_field[0].pos;
     hipos = v->ob_field[n-1].pos;
     remshift = bitno_modiv(w, &posshift);
@@ -3056,7 +3056,7 @@ immbitset_subscript(NyImmBitSetObject *v, PyObject *w)
     i = PyLong_AsSsize_t(w);
     if (i == -1 && PyErr_Occurred())
         return 0;
-    if (v == NyImmBitSet_Empty) {
+    if (!Py_SIZE(v)) {
         PyErr_SetString(PyExc_IndexError, "empty immbitset - index out of range");
         return 0;
     }
@@ -3173,7 +3173,7 @@ immbitset(PyTypeObject *unused, PyObject *args, PyObject *kwds)
 static int
 immbitset_nonzero(NyImmBitSetObject *v)
 {
-    return v != NyImmBitSet_Empty;
+    return Py_SIZE(v) != 0;
 }
 
 static int
-- 
2.43.0


From 9c56f5854c1010dfeacc089bf737dc270c42a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:29 +0000
Subject: [PATCH 03/80] fix: in-place symmetric difference of a mutable bit set
 with an iterable let duplicates cancel

---
 src/sets/bitset.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 10f8224..40de029 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1800,7 +1800,8 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
 {
     PyObject *it = 0;      /* iter(v) */
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int top = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1829,7 +1830,7 @@ mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, top, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1849,7 +1850,8 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyList_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int top = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1864,7 +1866,7 @@ mutbitset_iop_PyListObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, top, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1883,10 +1885,10 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
     NyBit size = PyTuple_GET_SIZE(v);
     NyBit i;
     NyMutBitSetObject *tms;
-    if (op == NyBits_AND) {
+    int top = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
-
         op = NyBits_OR;
     }
     else
@@ -1899,7 +1901,7 @@ mutbitset_iop_PyTupleObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, top, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
@@ -1918,7 +1920,8 @@ mutbitset_iop_PyDictObject(NyMutBitSetObject *ms, int op, PyObject *v)
     Py_ssize_t i;
     NyMutBitSetObject *tms;
     PyObject *key, *value;
-    if (op == NyBits_AND) {
+    int top = op;
+    if (op == NyBits_AND || op == NyBits_XOR) {
         tms = NyMutBitSet_New();
         if (!tms) return -1;
         op = NyBits_OR;
@@ -1934,7 +1937,7 @@ mutbitset_iop_PyDictObject(NyMutBitSetObject *ms, int op, PyObject *v)
             goto Err;
     }
     if (tms != ms) {
-        if (mutbitset_iop_mutset(ms, NyBits_AND, tms) == -1)
+        if (mutbitset_iop_mutset(ms, top, tms) == -1)
             goto Err;
         Py_DECREF(tms);
     }
-- 
2.43.0


From da4de00b0bc180dfb88e656da372018e069c54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 04/80] fix: comparing mutable bit sets stopped at an empty
 segment

---
 src/sets/bitset.c | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 40de029..1b47fba 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -3188,19 +3188,20 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
     if (op == NyBits_TRUE)
         return 1;
 
-    if (as < ase) {
-        af = sf_getrange(as, &afe);
-        as++;
-    } else
-        af = afe = 0;
-
-    if (bs < bse) {
-        bf = sf_getrange(bs, &bfe);
-        bs++;
-    } else
-        bf = bfe = 0;
+    af = afe = 0;
+    bf = bfe = 0;
 
     for (;;) {
+        /* Go to the next segment; skip any that have become empty. */
+        while (af == afe && as < ase) {
+            af = sf_getrange(as, &afe);
+            as++;
+        }
+        while (bf == bfe && bs < bse) {
+            bf = sf_getrange(bs, &bfe);
+            bs++;
+        }
+
         if (af < afe) {
             if (bf < bfe) {
                 if (af->pos < bf->pos) {
@@ -3213,32 +3214,14 @@ sf_tst_sf(NySetField *as, NySetField *ase, int op, NySetField *bs, NySetField *b
                         a = 0;
                     }
                     b = bf++->bits;
-                    if (bf == bfe) {
-                        if (bs < bse) {
-                            bf = sf_getrange(bs, &bfe);
-                            bs++;
-                        }
-                    }
                 }
             } else {
                 a = af++->bits;
                 b = 0;
             }
-            if (af == afe) {
-                if (as < ase) {
-                    af = sf_getrange(as, &afe);
-                    as++;
-                }
-            }
         } else if (bf < bfe) {
             a = 0;
             b = bf++->bits;
-            if (bf == bfe) {
-                if (bs < bse) {
-                    bf = sf_getrange(bs, &bfe);
-                    bs++;
-                }
-            }
         } else
             return 0;
 
-- 
2.43.0


From 5207ed9364bb769fc459d54d50db8f1ee8276172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 05/80] fix: clear() of a complemented mutable bit set left it
 full instead of empty

---
 src/sets/bitset.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 1b47fba..b329297 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1688,6 +1688,7 @@ mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
+    v->cpl = 0;
     return mutbitset_reset(v, 0);
 }
 
-- 
2.43.0


From 748d7c542f7e890ae6f88a446a5efc974cc18381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 06/80] fix: copying a segmented complemented mutable bit set
 lost the complement flag

---
 src/sets/bitset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index b329297..bddbf70 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2168,6 +2168,8 @@ mutbitset_subtype_new_from_arg(PyTypeObject *type, PyObject *arg)
     Py_XDECREF(set);
     Py_XDECREF(root);
     if (!ms) return 0;
+    if (root)
+        ms->cpl = ((NyMutBitSetObject *)arg)->cpl;
     if (!(set || root)) {
         if (arg) {
             void *r = mutbitset_ior(ms, arg);
-- 
2.43.0


From 03015512903f9c9dc6791eb5922f8c273321f330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 07/80] fix: inserting into an almost full mutable bit set
 segment could fail an assertion

---
 src/sets/bitset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index bddbf70..d3f7e6b 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1038,7 +1038,7 @@ sf_ins1(NySetField *sf, NyBitField *f, NyBit pos)
         sf->hi += move;
         if (hi_size <= lo_size && sf->hi < hi_tot)      goto MOVE_HI;
         if (lo_size <= hi_size && sf->lo > lo_tot)      goto MOVE_LO;
-        assert(0);
+        /* The only free place was on the other side; make room below. */
     }
 
     if (sf_realloc(sf, sf->hi + 1 - lo_tot) == -1)
-- 
2.43.0


From c5d6176f63b9026bab83bd3836a456989b43b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 08/80] fix: immutable bit sets taken from a mutable one could
 report a stale length

---
 src/sets/bitset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index d3f7e6b..42519e8 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -1268,6 +1268,9 @@ mutbitset_as_noncomplemented_immbitset_subtype(NyMutBitSetObject *v, PyTypeObjec
          Py_SIZE(slo->set) == size)) {
         bs = slo->set;
         Py_INCREF(bs);
+        /* The length may have been calculated, when it was shared before,
+           and the bits been changed since. */
+        bs->ob_length = -1;
         v->cur_field = 0;
     } else {
         bs = NyImmBitSet_SubtypeNew(type, size);
-- 
2.43.0


From 2edc2224f2112f1321a2038e459b9b8a8623cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 09/80] fix: slicing a bit set from the lowest index read an
 empty field

---
 src/sets/bitset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 42519e8..6100ef4 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2991,7 +2991,7 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
         }
         return bs;
     } else if (ilow < 0 && ihigh == PY_SSIZE_T_MAX) {
-        nbitswanted = - ilow;
+        nbitswanted = ilow == PY_SSIZE_T_MIN ? PY_SSIZE_T_MAX : - ilow;
         for (s = se; --s >= ss;) {
             for (fs = sf_getrange(s, &f); --f >= fs; ) {
                 if (nbits >= nbitswanted)
-- 
2.43.0


From 9d12a4de0754e77cb8ed2dcf0eb510831a0ef9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 10/80] fix: unsuitable bit set slice bounds raised SystemError
 instead of TypeError or OverflowError

---
 src/sets/bitset.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 6100ef4..c72aade 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -2576,6 +2576,19 @@ mutbitset_slice(NyMutBitSetObject *a, NyBit ilow, NyBit ihigh)
    Notes per 5/6 -03 comment on why sq_slice didn't work.
 */
 
+static int
+slice_index(PyObject *arg, NyBit *index)
+{
+    if (!PyLong_Check(arg)) {
+        PyErr_SetString(PyExc_TypeError, "bitset slice indices must be integers or None");
+        return -1;
+    }
+    *index = PyLong_AsSsize_t(arg);
+    if (*index == -1 && PyErr_Occurred())
+        return -1;
+    return 0;
+}
+
 static int
 NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
 {
@@ -2583,8 +2596,8 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->step == Py_None) {
             *step = 1;
     } else {
-        if (!PyLong_Check(r->step)) return -1;
-        *step = PyLong_AsSsize_t(r->step);
+        if (slice_index(r->step, step) == -1)
+            return -1;
         if (*step != 1) {
             PyErr_SetString(PyExc_IndexError, "bitset slicing step must be 1");
             return -1;
@@ -2593,14 +2606,14 @@ NySlice_GetIndices(PySliceObject *r, NyBit *start, NyBit *stop)
     if (r->start == Py_None) {
         *start = 0;
     } else {
-        if (!PyLong_Check(r->start)) return -1;
-        *start = PyLong_AsSsize_t(r->start);
+        if (slice_index(r->start, start) == -1)
+            return -1;
     }
     if (r->stop == Py_None) {
         *stop = PY_SSIZE_T_MAX;
     } else {
-        if (!PyLong_Check(r->stop)) return -1;
-        *stop = PyLong_AsSsize_t(r->stop);
+        if (slice_index(r->stop, stop) == -1)
+            return -1;
     }
     return 0;
 }
-- 
2.43.0


From 832505524f317b2536017eee7d7ea1544e409dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 11/80] fix: bit set pickle helper crashed when called with a
 wrong number of arguments

---
 src/sets/bitset.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index c72aade..4206aa5 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -4381,7 +4381,7 @@ NyBitSet_Form(PyObject *args)
     char *s;
     Py_ssize_t len,sz;
     int flags;
-    if (!(args && PyTuple_Check(args)) && PyTuple_GET_SIZE(args) == 2) {
+    if (!(args && PyTuple_Check(args) && PyTuple_GET_SIZE(args) == 2)) {
         PyErr_SetString(PyExc_TypeError, "NyBitSet_Form() requires exactly 2 arguments");
         return 0;
     }
@@ -4390,6 +4390,8 @@ NyBitSet_Form(PyObject *args)
         return 0;
     }
     flags = PyLong_AsLong(PyTuple_GET_ITEM(args, 0));
+    if (flags == -1 && PyErr_Occurred())
+        return 0;
     str = PyTuple_GET_ITEM(args, 1);
     if (!PyBytes_Check(str)) {
         PyErr_SetString(PyExc_TypeError, "NyBitSet_Form(): 2nd arg must be bytes");
-- 
2.43.0


From cb7a1227f50edc2d6a5e8ca92a69bccedbd3547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 12/80] fix: iterating a mutable node set could yield an object
 that was removed and deallocated

---
 src/sets/nodeset.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index de1c2a3..af6bf6e 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -224,16 +224,20 @@ mutnsiter_getiter(PyObject *it)
 static PyObject *
 mutnsiter_iternext(NyMutNodeSetIterObject *hi)
 {
-    PyObject *bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+    PyObject *bitobj;
     PyObject *ret;
     NyBit bitno;
-    if (!bitobj)
-        return 0;
-    bitno = PyLong_AsSsize_t(bitobj);
-    if (bitno == -1 && PyErr_Occurred())
-        return 0;
-    ret = nodeset_bitno_to_obj(bitno);
-    Py_DECREF(bitobj);
+    do {
+        bitobj = Py_TYPE(hi->bitset_iter)->tp_iternext(hi->bitset_iter);
+        if (!bitobj)
+            return 0;
+        bitno = PyLong_AsSsize_t(bitobj);
+        Py_DECREF(bitobj);
+        if (bitno == -1 && PyErr_Occurred())
+            return 0;
+        ret = nodeset_bitno_to_obj(bitno);
+        /* An object that was removed since may be deallocated by now. */
+    } while (!NyNodeSet_hasobj(hi->nodeset, ret));
     if (hi->nodeset->flags & NS_HOLDOBJECTS) {
         Py_INCREF(ret);
     } else {
-- 
2.43.0


From 993084b2471a2912572a80caacc7689e77401b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 13/80] fix: clearing a mutable node set exposed already
 released objects to their finalizers

---
 src/sets/nodeset.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index af6bf6e..852e52d 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -365,9 +365,9 @@ nodeset_bitset(NyNodeSetObject *v) {
 
 
 static int
-nodeset_dealloc_iter(PyObject *obj, void *v)
+nodeset_dealloc_visit(NyBit bitno, void *arg)
 {
-    Py_DECREF(obj);
+    Py_DECREF(nodeset_bitno_to_obj(bitno));
     return 0;
 }
 
@@ -376,10 +376,10 @@ mutnodeset_gc_clear(NyNodeSetObject *v)
 {
     if (v->u.bitset) {
         PyObject *x = v->u.bitset;
+        v->u.bitset = 0;
         if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
+            NyAnyBitSet_iterate(x, nodeset_dealloc_visit, 0);
         }
-        v->u.bitset = 0;
         Py_DECREF(x);
     }
     if (v->_hiding_tag_) {
@@ -628,11 +628,21 @@ NyNodeSet_clear(NyNodeSetObject *v)
 {
     if (NyMutNodeSet_Check(v) && v->u.bitset) {
         if (v->flags & NS_HOLDOBJECTS) {
-            NyNodeSet_iterate(v, nodeset_dealloc_iter, v);
+            /* Releasing the objects may run arbitrary code,
+               so first let go of them all. */
+            PyObject *bitset = v->u.bitset;
+            PyObject *empty = (PyObject *)NyMutBitSet_New();
+            if (!empty)
+                return -1;
+            v->u.bitset = empty;
+            Py_SET_SIZE(v, 0);
+            NyAnyBitSet_iterate(bitset, nodeset_dealloc_visit, 0);
+            Py_DECREF(bitset);
+        } else {
+            if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1)
+                return -1;
+            Py_SET_SIZE(v, 0);
         }
-        if (NyMutBitSet_clear((NyMutBitSetObject *)v->u.bitset) == -1)
-            return -1;
-        Py_SET_SIZE(v, 0);
     } else {
         PyErr_Format(PyExc_ValueError,
                      "mutable nodeset required");
-- 
2.43.0


From c8dca1fb835ba4a708ea2b4ca69bf39855a17256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 14/80] fix: in-place node set operations could release objects
 while iterating over them, and ^= let duplicates cancel

---
 src/sets/nodeset.c | 65 ++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 852e52d..fb2b000 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -138,6 +138,8 @@ NyNodeSetObject *
 NyImmNodeSet_SubtypeOfNodeSetDecRef(PyTypeObject *type, NyNodeSetObject *v);
 NyNodeSetObject *
 NyImmNodeSet_New(NyBit size, PyObject *hiding_tag);
+NyNodeSetObject *
+NyImmNodeSet_SubtypeNewIterable(PyTypeObject *type, PyObject *iterable, PyObject *hiding_tag);
 
 static NyNodeSetObject *
 immnodeset_op(NyNodeSetObject *v, NyNodeSetObject *w, int op);
@@ -979,18 +981,36 @@ nodeset_iop_chk_iterable(NyNodeSetObject *v, PyObject *w,
 
 
 
-typedef struct {
-    NyNodeSetObject *v, *w;
-} IANDTravArg;
+/* Apply visit(v, x) to all x in w. Removing an object from v may run arbitrary
+   code, which may change v and w, so this goes by an immutable copy of w. */
 
+static PyObject *
+nodeset_iop_removing(NyNodeSetObject *v, PyObject *w,
+                     int (*visit)(NyNodeSetObject *, PyObject *))
+{
+    PyObject *ret;
+    NyNodeSetObject *ws;
+    if (NyNodeSet_Check(w))
+        ws = NyImmNodeSet_NewCopy((NyNodeSetObject *)w);
+    else
+        ws = NyImmNodeSet_SubtypeNewIterable(&NyImmNodeSet_Type, w, 0);
+    if (!ws)
+        return 0;
+    ret = nodeset_iop_chk_iterable(v, (PyObject *)ws, visit);
+    Py_DECREF(ws);
+    return ret;
+}
 
+typedef struct {
+    NyNodeSetObject *d, *w;
+} IANDTravArg;
 
 
 static int
 nodeset_iand_visit(PyObject *obj, IANDTravArg *ta)
 {
     if (!NyNodeSet_hasobj(ta->w, obj)) {
-        if (NyNodeSet_clrobj(ta->v, obj) == -1)
+        if (NyNodeSet_setobj(ta->d, obj) == -1)
             return -1;
     }
     return 0;
@@ -1001,33 +1021,26 @@ nodeset_iand(NyNodeSetObject *v, PyObject *w)
 
 {
     IANDTravArg ta;
+    PyObject *ret = 0;
     if (!(NyMutNodeSet_Check(v))) {
         return nodeset_and((PyObject *)v, w);
     }
-    ta.v = v;
-    ta.w = (NyNodeSetObject *)w;
-    if (!NyNodeSet_Check(w)) {
-        PyObject *p;
-        ta.w = NyMutNodeSet_New();
+    if (NyNodeSet_Check(w)) {
+        ta.w = (NyNodeSetObject *)w;
+        Py_INCREF(w);
+    } else {
+        ta.w = NyMutNodeSet_SubtypeNewIterable(&NyMutNodeSet_Type, w, 0);
         if (!ta.w)
             return 0;
-        p = nodeset_ior(ta.w, w);
-        if (!p)
-            goto err;
-        Py_DECREF(p);
     }
-    if (NyNodeSet_iterate(v, (NyIterableVisitor) nodeset_iand_visit, &ta) == -1)
-        goto err;
-    Py_INCREF(v);
-ret:
-    if (ta.w != (void *)w) {
-        Py_XDECREF(ta.w);
+    ta.d = NyMutNodeSet_New();
+    if (ta.d) {
+        if (NyNodeSet_iterate(v, (NyIterableVisitor) nodeset_iand_visit, &ta) != -1)
+            ret = nodeset_iop_removing(v, (PyObject *)ta.d, NyNodeSet_clrobj);
+        Py_DECREF(ta.d);
     }
-    return (PyObject *)v;
-err:
-    v = 0;
-    goto ret;
-
+    Py_DECREF(ta.w);
+    return ret;
 }
 
 static PyObject *
@@ -1035,6 +1048,8 @@ nodeset_isub(NyNodeSetObject *v, PyObject *w)
 {
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_sub((PyObject *)v, w);
+    else if (NyNodeSet_Check(w))
+        return nodeset_iop_removing(v, w, NyNodeSet_clrobj);
     else
         return nodeset_iop_chk_iterable(v, w, NyNodeSet_clrobj);
 }
@@ -1045,7 +1060,7 @@ nodeset_ixor(NyNodeSetObject *v, PyObject *w)
     if (!(NyMutNodeSet_Check(v)))
         return nodeset_xor((PyObject *)v, w);
     else
-        return nodeset_iop_chk_iterable(v, w, NyNodeSet_invobj);
+        return nodeset_iop_removing(v, w, NyNodeSet_invobj);
 }
 
 static PyObject *
-- 
2.43.0


From d49f83724a16a40822efb0ecc7b50247549638b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 15/80] fix: gc.get_referrers() did not find mutable node sets

---
 src/sets/nodeset.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index fb2b000..2a1a891 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -452,14 +452,32 @@ nodeset_relate(NyHeapRelate *r)
 }
 
 
+typedef struct {
+    visitproc visit;
+    void *arg;
+    int err;
+} GCTravArg;
+
+static int
+mutnodeset_gc_traverse_visit(NyBit bitno, GCTravArg *ta)
+{
+    ta->err = ta->visit(nodeset_bitno_to_obj(bitno), ta->arg);
+    return ta->err ? -1 : 0;
+}
+
 static int
 mutnodeset_gc_traverse(NyNodeSetObject *v, visitproc visit, void *arg)
 {
     int err = 0;
-    if (v->flags & NS_HOLDOBJECTS) {
-        err = NyNodeSet_iterate(v, visit, arg);
-        if (err)
-            return err;
+    if (v->flags & NS_HOLDOBJECTS && v->u.bitset) {
+        GCTravArg ta;
+        ta.visit = visit;
+        ta.arg = arg;
+        ta.err = 0;
+        if (NyAnyBitSet_iterate(v->u.bitset,
+                                (NySetVisitor)mutnodeset_gc_traverse_visit,
+                                &ta) == -1)
+            return ta.err ? ta.err : -1;
     }
     if (v->_hiding_tag_) {
         err = visit(v->_hiding_tag_, arg);
-- 
2.43.0


From 35b5d378ccc4c4c885d6f805ddfb9ec860d1a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 16/80] fix: a mutable node set in a reference cycle with its
 iterator was never collected

---
 src/sets/nodeset.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/sets/nodeset.c b/src/sets/nodeset.c
index 2a1a891..b25a26e 100644
--- a/src/sets/nodeset.c
+++ b/src/sets/nodeset.c
@@ -211,9 +211,21 @@ typedef struct {
 static void
 mutnsiter_dealloc(NyMutNodeSetIterObject *v)
 {
+    PyObject_GC_UnTrack(v);
+    Py_TRASHCAN_BEGIN(v, mutnsiter_dealloc)
     Py_DECREF(v->bitset_iter);
     Py_DECREF(v->nodeset);
-    PyObject_DEL(v);
+    PyObject_GC_Del(v);
+    Py_TRASHCAN_END
+}
+
+static int
+mutnsiter_traverse(NyMutNodeSetIterObject *v, visitproc visit, void *arg)
+{
+    int err = visit(v->bitset_iter, arg);
+    if (err)
+        return err;
+    return visit((PyObject *)v->nodeset, arg);
 }
 
 static PyObject *
@@ -254,7 +266,8 @@ PyTypeObject NyMutNodeSetIter_Type = {
     .tp_basicsize = sizeof(NyMutNodeSetIterObject),
     .tp_dealloc   = (destructor)mutnsiter_dealloc,
     .tp_getattro  = PyObject_GenericGetAttr,
-    .tp_flags     = Py_TPFLAGS_DEFAULT,
+    .tp_flags     = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_HAVE_GC,
+    .tp_traverse  = (traverseproc)mutnsiter_traverse,
     .tp_iter      = (getiterfunc)mutnsiter_getiter,
     .tp_iternext  = (iternextfunc)mutnsiter_iternext,
 };
@@ -545,7 +558,7 @@ mutnodeset_iter(NyNodeSetObject *v)
     bitset_iter = Py_TYPE(v->u.bitset)->tp_iter(v->u.bitset);
     if (!bitset_iter)
         return 0;
-    iter = PyObject_New(NyMutNodeSetIterObject, &NyMutNodeSetIter_Type);
+    iter = PyObject_GC_New(NyMutNodeSetIterObject, &NyMutNodeSetIter_Type);
     if (!iter) {
         Py_DECREF(bitset_iter);
         return 0;
@@ -553,6 +566,7 @@ mutnodeset_iter(NyNodeSetObject *v)
     iter->bitset_iter = bitset_iter;
     iter->nodeset = v;
     Py_INCREF(v);
+    PyObject_GC_Track(iter);
     return (PyObject *)iter;
 }
 
-- 
2.43.0


From 6406099b5f255833ba2ec971ea469f17082a9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 17/80] fix: internal types without a constructor could be
 instantiated and crashed on use

---
 src/include/guppy.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/include/guppy.h b/src/include/guppy.h
index 9aeb9e2..00c5ffd 100644
--- a/src/include/guppy.h
+++ b/src/include/guppy.h
@@ -1,9 +1,6 @@
 #ifndef GUPPY_H_INCLUDED
 
-#define NYFILL(t) {                      \
-    if (!t.tp_new) {                     \
-        t.tp_new = PyType_GenericNew;    \
-    }                                    \
+#define NYFILL(t) {                          \
     if (PyType_Ready(&t) < 0) return -1; \
 }
 
-- 
2.43.0


From 948fc697315c38464edaee3d8d6eccc65476e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 18/80] fix: assigning several targets in a node graph
 miscounted references

---
 src/heapy/nodegraph.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index a7ea193..694457b 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -892,6 +892,7 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 {
     NyNodeGraphEdge *lo, *hi;
     Py_ssize_t i, regsize, tupsize;
+    PyObject *olds;
     if (!w) {
         PyErr_SetString(PyExc_NotImplementedError,
                         "Item deletion is not implemented for nodegraphs.");
@@ -926,12 +927,18 @@ ng_ass_sub(NyNodeGraphObject *ng, PyObject *v, PyObject *w)
 "consider using .add_edge() etc. instead.");
             return -1;
         }
+        /* Releasing the old targets may run arbitrary code,
+           so keep them until all edges are updated. */
+        olds = PyTuple_New(regsize);
+        if (!olds)
+            return -1;
         for (i = 0; i < regsize; i++) {
             PyObject *old = lo[i].tgt;
             lo[i].tgt = PyTuple_GET_ITEM(w, i);
-            Py_INCREF(lo->tgt);
-            Py_XDECREF(old);
+            Py_INCREF(lo[i].tgt);
+            PyTuple_SET_ITEM(olds, i, old);
         }
+        Py_DECREF(olds);
     }
     return 0;
 }
-- 
2.43.0


From 2098eb5d91bdf3e139e7a379a0ec38bb52de55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 19/80] fix: an error in the truth value of NodeGraph's
 is_mapping argument raised SystemError

---
 src/heapy/nodegraph.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 694457b..41a1a43 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -967,8 +967,13 @@ ng_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     ng = NyNodeGraph_SubtypeNew(type);
     if (!ng)
         return 0;
-    if (is_mapping && PyObject_IsTrue(is_mapping)) {
-        ng->is_mapping = 1;
+    if (is_mapping) {
+        int r = PyObject_IsTrue(is_mapping);
+        if (r == -1) {
+            Py_DECREF(ng);
+            return 0;
+        }
+        ng->is_mapping = r;
     }
     if (iterable && iterable != Py_None && NyNodeGraph_Update(ng, iterable) == -1) {
         Py_DECREF(ng);
-- 
2.43.0


From 0fa72a8a009190c16c0a4777deeafe39ca37fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 20/80] fix: registering a hiding type did not hide instances
 of subtypes used before

---
 src/heapy/hv.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 54eb8b5..e86bc55 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1205,6 +1205,7 @@ hv_register__hiding_tag__type(NyHeapViewObject *hv, PyObject *args, PyObject *kw
     PyTypeObject *type;
     ExtraType *xt;
     Py_ssize_t offs;
+    size_t i;
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O!:register_hiding_type", kwlist,
                                      &PyType_Type, &type))
         return NULL;
@@ -1223,11 +1224,20 @@ hv_register__hiding_tag__type(NyHeapViewObject *hv, PyObject *args, PyObject *kw
                         "register__hiding_tag__type: type is already registered");
         return 0;
     }
-    xt->xt_he_traverse = xt->xt_traverse;
-    xt->xt_he_xt = xt;
-    xt->xt_he_offs = offs;
-    xt->xt_traverse = xt_he_traverse;
-    xt->xt_trav_code = XT_HE;
+    /* Subtypes may already be in the table, having been used before. */
+    for (i = 0; i < hv->xt_size; i++) {
+        ExtraType *sub;
+        for (sub = hv->xt_table[i]; sub; sub = sub->xt_next) {
+            if (sub->xt_trav_code == XT_HE || sub->xt_trav_code == XT_HI ||
+                    !PyType_IsSubtype(sub->xt_type, type))
+                continue;
+            sub->xt_he_traverse = sub->xt_traverse;
+            sub->xt_he_xt = xt;
+            sub->xt_he_offs = offs;
+            sub->xt_traverse = xt_he_traverse;
+            sub->xt_trav_code = XT_HE;
+        }
+    }
     Py_INCREF(Py_None);
     return Py_None;
 }
-- 
2.43.0


From 5ee68bb3b7573a590651c687902b704bda803348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 21/80] fix: referents of objects hidden via their dict were
 still traversed

---
 src/heapy/hv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index e86bc55..c188682 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -528,6 +528,11 @@ xt_size(ExtraType *xt, PyObject *obj)
 static int
 xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
 {
+    /* An object hidden via its dict may refer to others outside of the dict. */
+    PyObject **dp = _PyObject_GetDictPtr(obj);
+    if (dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) ==
+            ((NyHeapViewObject *)xt->xt_hv)->_hiding_tag_)
+        return 0;
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
     if (Py_TYPE(obj)->tp_flags & Py_TPFLAGS_MANAGED_DICT) {
         // FIXME: There's no way to distinguish between managed dict entries
-- 
2.43.0


From 4405a5f016ad47af10dbfb321ab4307134fbcd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 22/80] fix: describing references could use a freed type entry
 after __bases__ changed

---
 src/heapy/hv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index c188682..ff0eec7 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -94,6 +94,7 @@ PyDoc_STRVAR(hv_doc,
 static PyObject *hv_heap(NyHeapViewObject *self, PyObject *args, PyObject *kwds);
 
 static ExtraType *hv_new_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
+static ExtraType *hv_extra_type(NyHeapViewObject *hv, PyTypeObject *type);
 
 int cli_cmp_as_int(PyObject *cmp);
 
@@ -274,9 +275,12 @@ xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 static int
 xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
+    ExtraType *base;
     if (owht_relate(r, xt->xt_type))
         return 1;
-    return xt->xt_base->xt_relate(xt->xt_base, r);
+    /* The base type may have changed since xt was made. */
+    base = hv_extra_type((NyHeapViewObject *)xt->xt_hv, xt->xt_type->tp_base);
+    return base->xt_relate(base, r);
 }
 
 static int
-- 
2.43.0


From 234b0bf7271ac8bc819991f4c52f241d3cb6597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 23/80] fix: a heap view in a cycle with its hiding tag was
 never collected

---
 src/heapy/hv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index ff0eec7..273e1a4 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -126,6 +126,7 @@ hv_gc_traverse(NyHeapViewObject *hv, visitproc visit, void *arg)
 {
     Py_VISIT(hv->root);
     Py_VISIT(hv->limitframe);
+    Py_VISIT(hv->_hiding_tag_);
     Py_VISIT(hv->static_types);
     Py_VISIT(hv->weak_type_callback);
 
-- 
2.43.0


From da49a5464f12d12d80170bcc52aa214ac91c7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 24/80] fix: a heap view kept a freed entry of a type that
 could not be weakly referenced

---
 src/heapy/hv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 273e1a4..93310f4 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -406,6 +406,7 @@ hv_new_xt_for_type_at_xtp(NyHeapViewObject *hv, PyTypeObject *type, ExtraType **
     xt->xt_type = type;
     xt->xt_weak_type = PyWeakref_NewRef((PyObject *)type, hv->weak_type_callback);
     if (!xt->xt_weak_type) {
+        *xtp = 0;
         PyMem_Del(xt);
         return 0;
     }
-- 
2.43.0


From 6c3cf71f4ef655845bf27a82a6eebb83638826a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 25/80] fix: errors of __sizeof__ were lost or raised
 SystemError

---
 src/heapy/hv.c              | 5 ++++-
 src/heapy/hv_cli_indisize.c | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 93310f4..4f2f2fa 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -973,7 +973,10 @@ typedef struct {
 static int
 hv_indisize_sum_rec(PyObject *obj, SalArg *ta)
 {
-    ta->sum += hv_std_size(ta->hv, obj);
+    size_t size = hv_std_size(ta->hv, obj);
+    if (size == (size_t)-1 && PyErr_Occurred())
+        return -1;
+    ta->sum += size;
     return 0;
 }
 
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index 95b8401..ee3881e 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -25,8 +25,11 @@ hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 static PyObject *
 hv_cli_indisize_classify(IndisizeObject *self, PyObject *obj)
 {
-    PyObject *size = PyLong_FromSsize_t(hv_std_size(self->hv, obj));
-    PyObject *memoedsize;
+    PyObject *size, *memoedsize;
+    size_t z = hv_std_size(self->hv, obj);
+    if (z == (size_t)-1 && PyErr_Occurred())
+        return 0;
+    size = PyLong_FromSsize_t(z);
     if (!size)
         return size;
     memoedsize = hv_cli_indisize_memoized_kind(self, size);
-- 
2.43.0


From e7ce629e6843dabf77bd2fed778332fe38e745b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 26/80] fix: deleting the root of a heap view made it crash

---
 src/heapy/hv.c | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 4f2f2fa..cad422a 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1857,16 +1857,6 @@ interpreter(s). It would set is_hiding_calling_interpreter to True in\n\
 the HV it is using. Its own data will then be hidden from view, making\n\
 memory leak detection more practical."},
 
-    {"root",     T_OBJECT, OFF(root), 0,
-"HV.root\n\
-\n\
-An object that is used as the starting point when traversing the\n\
-heap. It is normally set to the special RootState object, which has\n\
-special functionality for finding the objects in the internals of the\n\
-Python interpreter structures. It can be set to any other object,\n\
-especially for test purposes.\n\
-\n\
-See also: RootState"},
     {"static_types",     T_OBJECT , OFF(static_types), READONLY,
 "HV.static_types : NodeSet, read only\n\
 \n\
@@ -1882,8 +1872,44 @@ reachable objects (at a suitable time or as needed)."},
 
 #undef OFF
 
+static int
+hv_set_root(NyHeapViewObject *self, PyObject *arg, void *unused)
+{
+    PyObject *oldroot = self->root;
+    if (!arg) {
+        PyErr_SetString(PyExc_TypeError, "the root attribute can not be deleted");
+        return -1;
+    }
+    Py_INCREF(arg);
+    self->root = arg;
+    Py_XDECREF(oldroot);
+    return 0;
+}
+
+static PyObject *
+hv_get_root(NyHeapViewObject *self, void *unused)
+{
+    PyObject *r = self->root;
+    if (!r)
+        r = Py_None;
+    Py_INCREF(r);
+    return r;
+}
+
+PyDoc_STRVAR(hv_root_doc,
+"HV.root\n\
+\n\
+An object that is used as the starting point when traversing the\n\
+heap. It is normally set to the special RootState object, which has\n\
+special functionality for finding the objects in the internals of the\n\
+Python interpreter structures. It can be set to any other object,\n\
+especially for test purposes.\n\
+\n\
+See also: RootState");
+
 static  PyGetSetDef hv_getset[] = {
     {"limitframe", (getter)hv_get_limitframe, (setter)hv_set_limitframe, hv_limitframe_doc},
+    {"root", (getter)hv_get_root, (setter)hv_set_root, hv_root_doc},
     {0}
 };
 
-- 
2.43.0


From 129548094736a137bab9911215f4262c840560d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 27/80] fix: deleting the limitframe of a heap view crashed

---
 src/heapy/hv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index cad422a..2525262 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -1505,7 +1505,7 @@ static int
 hv_set_limitframe(NyHeapViewObject *self, PyObject *arg, void *unused)
 {
     PyObject *orf = self->limitframe;
-    if (arg == Py_None) {
+    if (!arg || arg == Py_None) {
         self->limitframe = 0;
     } else if (PyFrame_Check(arg)) {
         self->limitframe = arg;
-- 
2.43.0


From 27b13ffb99373faf439d700896c6581eef946a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 28/80] fix: numpaths counted traversal edges although
 relations are enumerated

---
 guppy/heapy/Path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3cdf5d4..3af6823 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -331,7 +331,7 @@ class ShortestPaths:
             for dst in self.Dst.nodes:
                 NP.add_edge(dst, 1)
             self.NP = NP
-        numedges = self.mod.hv.numedges
+        relations = self.mod.relations
         IG = self.IG
 
         def np(y):
@@ -342,7 +342,7 @@ class ShortestPaths:
                     sn = NP[z]
                     if sn is None:
                         sn = np(z)
-                    n += sn * numedges(y, z)
+                    n += sn * len(relations(y, z))
                 NP[y] = n
             return n
         num = 0
-- 
2.43.0


From d74615378db345297f0a1c48718d8245d6776859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 29/80] fix: showing a path failed when an attribute name or
 key contained a percent sign

---
 guppy/heapy/Path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index 3af6823..ba1d203 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -149,9 +149,9 @@ class Path:
     def __len__(self):
         return int((len(self.path) - 1) / 2)
 
-    def stra(self, safe=True):
+    def stra(self, safe=True, prefix=None):
         if self.path:
-            s = self.strprefix
+            s = self.strprefix if prefix is None else prefix
             for i in range(1, len(self.path), 2):
                 r = self.path[i]
                 s = r.stra(s, safe=safe)
@@ -166,7 +166,7 @@ class Path:
         return repr(str(self))
 
     def _get_line_iter(self):
-        yield '%2d: %s' % (self.index, str(self) % self.srcname)
+        yield '%2d: %s' % (self.index, self.stra(prefix=self.srcname))
 
     def types(self):
         return [type(x) for x in self.path]
-- 
2.43.0


From 28b5471b136ac8ea742129708942cb9ed9b0bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 30/80] fix: the relation of a set to its element named a wrong
 index and leaked references

---
 src/heapy/stdtypes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index ca20586..1ac3016 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -159,11 +159,13 @@ set_relate(NyHeapRelate *r)
 
     Py_ssize_t i = 0;
     while ((obj = PyIter_Next(it))) {
+        Py_DECREF(obj);
         if (r->tgt == obj) {
-            r->visit(NYHR_INSET, PyLong_FromSsize_t(i++), r);
+            Py_DECREF(it);
+            r->visit(NYHR_INSET, PyLong_FromSsize_t(i), r);
             return 1;
         }
-        Py_DECREF(obj);
+        i++;
     }
 
     Py_DECREF(it);
-- 
2.43.0


From 50c9e9e803c1e5587bf7d825bf6f9264a39f8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:37 +0000
Subject: [PATCH 31/80] fix: avoided() forgot the nodes to be avoided

---
 guppy/heapy/Path.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/guppy/heapy/Path.py b/guppy/heapy/Path.py
index ba1d203..8466f89 100644
--- a/guppy/heapy/Path.py
+++ b/guppy/heapy/Path.py
@@ -301,7 +301,7 @@ class ShortestPaths:
     def copy_but_avoid_edges_at_levels(self, *args):
         avoid = self.edges_at(*args).updated(self.sg.AvoidEdges)
         assert avoid._hiding_tag_ is self.mod._hiding_tag_
-        return self.mod.shpaths(self.Dst, self.Src, avoid_edges=avoid)
+        return self.mod.shpaths(self.Dst, self.Src, self.sg.AvoidNodes, avoid)
         # return self.mod.shpaths(self.dst, self.src, avoid_edges=avoid)
 
     avoided = copy_but_avoid_edges_at_levels
@@ -384,12 +384,13 @@ class ShortestPaths:
 
 class ShortestGraph:
     def __init__(self, mod, G, DstSets, Src, AvoidEdges,
-                 srcname=None, dstname=None):
+                 srcname=None, dstname=None, AvoidNodes=None):
         self.mod = mod
         self.G = G
         self.Src = Src
         self.DstSets = DstSets
         self.AvoidEdges = AvoidEdges
+        self.AvoidNodes = AvoidNodes
         if srcname is None:
             if Src.count == 1:
                 srcname = mod.srcname_1
@@ -517,7 +518,7 @@ class _GLUECLAMP_:
             DstSets, Src, AvoidNodes, AvoidEdges)
 
         return self.ShortestGraph(self, G, DstSets, Src, AvoidEdges,
-                                  srcname, dstname)
+                                  srcname, dstname, AvoidNodes)
 
     def shpgraph_algorithm(self, DstSets, Src, AvoidNodes, AvoidEdges):
         U = (Src - AvoidNodes).nodes
-- 
2.43.0


From 5c23c1f3806e67742448811d28f5cb613bf0f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 32/80] fix: a too negative index into a partition gave some
 other row

---
 guppy/heapy/Part.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index a154608..45bdac8 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -511,6 +511,8 @@ class Partition:
         else:
             if index < 0:
                 index += self.numrows
+                if index < 0:
+                    raise IndexError('Partition index out of range.')
             return self.get_rowset(index)
 
     def get_sets(self, index=None):
-- 
2.43.0


From c1254149a8a4290606d7859439f2b55468a5fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 33/80] fix: a set of objects of size zero could not be shown

---
 guppy/heapy/Part.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 45bdac8..152437b 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -63,6 +63,11 @@ class Format(object):
             yield self.get_formatted_row(row)
 
 
+def percent(part, whole):
+    # Of nothing, everything is nothing
+    return part * 100.0 / whole if whole else 0.0
+
+
 class SetFormat(Format):
     __slots__ = ()
 
@@ -87,9 +92,9 @@ class SetFormat(Format):
         impl = self.impl
         fr = format % (
             row.index,
-            row.count, int('%.0f' % (row.count * 100.0/impl.count)),
-            row.size, int('%.0f' % (row.size * 100.0/impl.size)),
-            row.cumulsize, int('%.0f' % (row.cumulsize * 100.0/impl.size)),
+            row.count, int('%.0f' % percent(row.count, impl.count)),
+            row.size, int('%.0f' % percent(row.size, impl.size)),
+            row.cumulsize, int('%.0f' % percent(row.cumulsize, impl.size)),
         )
         return fr
 
@@ -123,8 +128,8 @@ class IdFormat(Format):
         format = '%6d %8d %5.1f %9d %5.1f '
         fr = format % (
             row.index,
-            row.size, (row.size * 100.0/impl.size),
-            row.cumulsize, row.cumulsize * 100.0/impl.size,
+            row.size, percent(row.size, impl.size),
+            row.cumulsize, percent(row.cumulsize, impl.size),
         )
         return fr
 
-- 
2.43.0


From 12fa87dfb95788671a99a371b5e9fd7ae619662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 34/80] fix: get_rows_of_kinds looked only at the first rows

---
 guppy/heapy/Part.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 152437b..30e5f37 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -398,11 +398,11 @@ class Stat:
         n = 0
         for row in self.get_rows():
             idx = kindtab.get(row.name)
-            if idx is not None:
+            if idx is not None and res[idx] is None:
                 res[idx] = row
-            n += 1
-            if n >= N:
-                break
+                n += 1
+                if n >= N:
+                    break
         return res
 
     def get_rows_n_and_other(self, N, sortby='Size'):
-- 
2.43.0


From 73ebd56d1c2f79b318663ccedbd49deb7995497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:09 +0000
Subject: [PATCH 35/80] fix: loadall raised RuntimeError at the end of the file

---
 guppy/heapy/Use.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 29f16b7..159226d 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -296,7 +296,11 @@ References
         if isinstance(f, str):
             f = open(f)
         while True:
-            yield self.load(f)
+            try:
+                stat = self.load(f)
+            except StopIteration:
+                return
+            yield stat
 
     def loadc(self, fn):
         f = open(fn, 'r', 1)
-- 
2.43.0


From 0fa2303a2b4c9b23a5da123c5a10268fcf23f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 36/80] fix: statistics cut short in a file were loaded with
 altered figures

---
 guppy/heapy/Use.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index 159226d..b29f923 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -218,6 +218,9 @@ Returns
 References
     [0] heapy_Use.html#heapykinds.Use.load"""
 
+        def truncated():
+            return ValueError('Format error in %r: truncated data.' % fn)
+
         if isinstance(fn, str):
             # We got a filename.
             # I want to read only what is being requested
@@ -231,13 +234,18 @@ References
 
             def get_trows():
                 pos = 0
+                endline = None
                 while 1:
                     f.seek(pos)
                     line = f.readline()
-                    if not line:
-                        break
+                    if not line.endswith('\n'):
+                        raise truncated()
                     pos = f.tell()
                     yield line
+                    if endline is None:
+                        endline = '.end: %s' % line
+                    elif line == endline:
+                        break
         elif hasattr(fn, '__iter__') and not hasattr(fn, '__next__'):
             # We got a sequence, that is not an iterator. Use it directly.
             def get_trows():
@@ -271,6 +279,9 @@ References
                 else:
                     raise StopIteration
             except StopIteration:
+                if trows[0].endswith('\n'):
+                    # Lines read from a file, whose end is missing
+                    raise truncated() from None
                 trows.append(endline)
 
             def get_trows():
-- 
2.43.0


From 1cc9d604183e84bf4bcec5565271464f40f7d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 37/80] fix: kind names of several lines broke dumped
 statistics

---
 guppy/heapy/Part.py | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 30e5f37..29839df 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -63,6 +63,20 @@ class Format(object):
             yield self.get_formatted_row(row)
 
 
+# The continuation lines of a name get a prefix telling how they were
+# separated, to be distinguished from the other lines of a dumped Stat.
+CONT_NL = '.: '
+CONT_CR = '.cr: '
+
+
+def quote_name(name):
+    return name.replace('\n', '\n' + CONT_NL).replace('\r', '\n' + CONT_CR)
+
+
+def unquote_name(name):
+    return name.replace('\n' + CONT_CR, '\r').replace('\n' + CONT_NL, '\n')
+
+
 def percent(part, whole):
     # Of nothing, everything is nothing
     return part * 100.0 / whole if whole else 0.0
@@ -81,7 +95,7 @@ class SetFormat(Format):
             impl.count, s, impl.size)
 
     def get_rowdata(self, row):
-        return '%d %d %s' % (row.count, row.size, row.name)
+        return '%d %d %s' % (row.count, row.size, quote_name(row.name))
 
     def get_stat_header(self):
         return (
@@ -117,7 +131,7 @@ class IdFormat(Format):
         return part
 
     def get_rowdata(self, row):
-        return '%d %s' % (row.size, row.name)
+        return '%d %s' % (row.size, quote_name(row.name))
 
     def get_stat_header(self):
         return (
@@ -160,7 +174,7 @@ class DiffFormat(Format):
         return x
 
     def get_rowdata(self, row):
-        return '%d %d %s' % (row.count, row.size, row.name)
+        return '%d %d %s' % (row.count, row.size, quote_name(row.name))
 
     def get_stat_header(self):
         return (
@@ -214,6 +228,7 @@ class Stat:
         self.firstheader = firstheader
 
         self.it = iter(get_trows())
+        self.ahead = None
 
         self.cur_index = 0
         self.cum_size = 0
@@ -339,7 +354,7 @@ class Stat:
             '.numrows: %d' % len(rows),
         ]
         for r in rows:
-            trows.append('.r: %d %d %s' % (r.count, r.size, r.name))
+            trows.append('.r: %d %d %s' % (r.count, r.size, quote_name(r.name)))
         return self.mod.load(trows)
 
     def dump(self, fn, mode='a'):
@@ -360,13 +375,26 @@ class Stat:
                 f.close()
 
     def get_next(self):
+        r = self.ahead
+        if r is None:
+            r = self.get_line()
+        if r is not None:
+            self.ahead = self.get_line() if r.startswith('.r:') else None
+            while (self.ahead is not None and
+                    self.ahead.startswith((CONT_NL, CONT_CR))):
+                r += '\n' + self.ahead
+                self.ahead = self.get_line()
+            r = unquote_name(r)
+        self.last = r
+        return r
+
+    def get_line(self):
         try:
             r = next(self.it)
         except StopIteration:
-            r = None
-        else:
-            r = r.rstrip('\n')
-        self.last = r
+            return None
+        if r.endswith('\n'):
+            r = r[:-1]
         return r
 
     def get_row(self, idx):
-- 
2.43.0


From 868a3a1846ff95366bd0a3ea75759da5eb62af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 38/80] fix: complex numbers could not be shown by identity

---
 guppy/heapy/Part.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 29839df..13b9c79 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -663,7 +663,11 @@ class IdentityPartition(Partition):
                     else:
                         ks = [sortrender(x) for x in objects]
                     ks = [(kind, i) for i, kind in enumerate(ks)]
-                    ks.sort()
+                    try:
+                        ks.sort()
+                    except TypeError:
+                        # No order is defined, for example for complex
+                        ks.sort(key=lambda k: (self.render(objects[k[1]]), k[1]))
                     clu.objects = objects = self.mod.observation_list(
                         [objects[i] for (kind, i) in ks])
                     clu.issorted = True
-- 
2.43.0


From 58d2e370ac141b31a5b87c3d7f5264d05a7ff8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 39/80] fix: .prev of the second page was not the first page

---
 guppy/heapy/OutputHandling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/OutputHandling.py b/guppy/heapy/OutputHandling.py
index 369d470..9feb191 100644
--- a/guppy/heapy/OutputHandling.py
+++ b/guppy/heapy/OutputHandling.py
@@ -248,7 +248,8 @@ class Printer:
         return next_lineno
 
     def _get_prev(self, mp):
-        return mp._oh_previous
+        prev = mp._oh_previous
+        return self.client if prev is self else prev
 
     def _oh_get_start_lineno(self):
         return 0
-- 
2.43.0


From 0295b1c4051400d90a84cef270a68b5d60058c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:32 +0000
Subject: [PATCH 40/80] fix: difference with an empty set failed for other
 classifications than the default

---
 guppy/heapy/Part.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index 13b9c79..d2af2fa 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -296,9 +296,11 @@ class Stat:
         if not isinstance(other, Stat):
             raise TypeError(
                 'Can only take difference with other Stat instance.')
-        if self.kindheader != other.kindheader:
+        if (self.kindheader != other.kindheader and
+                self.numrows and other.numrows):
             raise ValueError('Mismatching table kind header, %r vs %r.' % (
                 self.kindheader, other.kindheader))
+        kindheader = (self if self.numrows else other).kindheader
         rows = []
         otab = {}
         stab = {}
@@ -349,7 +351,7 @@ class Stat:
             '.b_size: %d' % other.size,
             '.count: %d' % cumulcount,
             '.size: %d' % cumulsize,
-            '.kindheader: %s' % self.kindheader,
+            '.kindheader: %s' % kindheader,
             '.kindname: %s' % self.kindname,
             '.numrows: %d' % len(rows),
         ]
-- 
2.43.0


From 5954093b8258bd37fe46f1d53244da5412cf8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 41/80] fix: statistics cut short were shown with a repeated
 row after an error

---
 guppy/heapy/Part.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/guppy/heapy/Part.py b/guppy/heapy/Part.py
index d2af2fa..e99a136 100644
--- a/guppy/heapy/Part.py
+++ b/guppy/heapy/Part.py
@@ -378,6 +378,7 @@ class Stat:
 
     def get_next(self):
         r = self.ahead
+        self.last = self.ahead = None
         if r is None:
             r = self.get_line()
         if r is not None:
@@ -496,6 +497,8 @@ class Stat:
     def parse_next_row(self):
         r = self.last
         if not r:
+            if len(self.rows) < self.numrows:
+                raise ValueError('Format error: truncated data.')
             raise IndexError('Row index out of range.')
         if r.startswith('.r: '):
             r = r[4:]
-- 
2.43.0


From 45f8ed50dc8a53786789387fbe1c39c8f4cd18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 42/80] fix: tell types apart by identity in kinds and their
 rendering

A metaclass may define __eq__ (and so be unhashable). Kinds of types used ==
and hash, and the rendering tables were keyed by the type itself, so a set
with an instance of such a class could not be printed, or lost kinds.
---
 guppy/heapy/Classifiers.py | 23 ++++++++++++++++++++---
 guppy/heapy/UniSet.py      | 27 +++++++++++++++------------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 35081e6..2e2e3f2 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -396,6 +396,23 @@ class TypeFamily:
             raise TypeError("Argument should be a type.")
         return self.Set(self, a)
 
+    # Types are told apart by identity: a metaclass may define comparison.
+
+    def _ge_ATOM(self, a, b):
+        # b is known to not be Nothing since its c_le doesn't call back
+        if self is b.fam:
+            return a.arg is b.arg
+        return b.fam.supercl is not None and b.fam.supercl <= a
+
+    def _le_ATOM(self, a, b):
+        # b is known to not be Nothing since its c_ge doesn't call back
+        if self is b.fam:
+            return a.arg is b.arg
+        return self.supercl is not None and self.supercl <= b
+
+    def c_hash(self, a):
+        return hash(id(a.arg))
+
     def c_alt(self, a, alt):
         return self.classifier.get_alt(a, alt)
 
@@ -443,8 +460,8 @@ The classification will be the type of the object."""
     def get_repr(self, kind):
         t = kind.arg
         rn = self.get_reprname()
-        if t in self.mod.invtypemod:
-            return '%s.%s' % (rn, self.mod.invtypemod[t])
+        if id(t) in self.mod.invtypemod:
+            return '%s.%s' % (rn, self.mod.invtypemod[id(t)])
         else:
             return '%s(%r)' % (rn, self.get_userkindarg(kind))
 
@@ -1450,7 +1467,7 @@ the object.
         invtypemod = {}
         for k, v in list(self.types._module.__dict__.items()):
             if k.endswith('Type'):
-                invtypemod[v] = k[:-4]
+                invtypemod[id(v)] = k[:-4]
         return invtypemod
 
     def _get_notdict(self):
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index d3b5874..ff0a81a 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1954,10 +1954,10 @@ class Summary_str:
         self.invtypes = {}
         for k, v in sorted(types.__dict__.items()):
             if isinstance(v, type):
-                self.invtypes[v] = 'types.%s' % k
+                self.invtypes[id(v)] = 'types.%s' % k
         for k, v in sorted(types.__builtins__.items()):
             if isinstance(v, type):
-                self.invtypes[v] = k
+                self.invtypes[id(v)] = k
 
         # This is to make common printouts prettier / shorter (: and clearer ? :)
         # but may be disabled for clearer repr()
@@ -1965,9 +1965,9 @@ class Summary_str:
         self.shorter_invtypes = {}
         for name in ('module', 'function'):
             t = getattr(types, name.capitalize()+'Type')
-            self.shorter_invtypes[t] = name
+            self.shorter_invtypes[id(t)] = name
 
-        self.table = {
+        table = {
             mod.NodeSet: self.str_address_len,
             bool: self.str_repr,
             types.BuiltinFunctionType: self.str_builtin_function,
@@ -1988,9 +1988,12 @@ class Summary_str:
             tuple: self.str_address_len,
             type: self.str_type,
         }
+        # The tables are keyed by address: a metaclass may define comparison.
+        # The type is kept in the value so that its address stays its own.
+        self.table = {id(t): (t, f) for t, f in table.items()}
 
     def __call__(self, key, longer=False):
-        x = self.table.get(key)
+        t, x = self.table.get(id(key), (None, None))
         if x is None:
             if issubclass(key, type):
                 x = self.str_type
@@ -2002,7 +2005,7 @@ class Summary_str:
             return x
 
     def set_function(self, type, func):
-        self.table[type] = func
+        self.table[id(type)] = type, func
 
     def str_address(self, x):
         return hex(id(x))
@@ -2067,18 +2070,18 @@ class Summary_str:
     str_traceback._idpart_header = 'Frame at Address'
 
     def str_type(self, x, longer=False):
-        if x in self.shorter_invtypes and not longer:
-            return self.shorter_invtypes[x]
-        if x in self.invtypes:
-            return self.invtypes[x]
+        if id(x) in self.shorter_invtypes and not longer:
+            return self.shorter_invtypes[id(x)]
+        if id(x) in self.invtypes:
+            return self.invtypes[id(x)]
         if not hasattr(x, '__module__'):
             return f'<unknown module>.{x.__name__}'
         return f'{x.__module__}.{x.__name__}'
     str_type._idpart_header = 'Name'
 
     def str_type_longer(self, x):
-        if x in self.invtypes:
-            return self.invtypes[x]
+        if id(x) in self.invtypes:
+            return self.invtypes[id(x)]
         return '%s.%s' % (x.__module__, x.__name__)
     str_type._longer_method = lambda x: str_type
 
-- 
2.43.0


From f930f5c11597a983fb476c0fb3b428ef7478ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 43/80] fix: give equal kinds equal hashes

The hash of kinds made of several parts depended on the order of the parts,
that of referrer kinds on the order in which their kinds were found, and the
kind of an unhashable object by identity had none.
---
 guppy/heapy/Classifiers.py | 10 +++++++++-
 guppy/heapy/UniSet.py      |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 2e2e3f2..31ed67e 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -147,7 +147,8 @@ class SoKind(object):
         return a == b
 
     def __hash__(self):
-        return hash(repr(self))
+        # Must not depend on the order of the kinds
+        return hash(frozenset(self.kinds))
 
     def __repr__(self):
         return self.classifier.get_sokindrepr(self)
@@ -214,6 +215,9 @@ class IdentityFamily:
         # Just a possible optimization
         return self.mod.Use.idset(b.nodes & [a.arg])
 
+    def c_hash(self, a):
+        return hash(id(a.arg))
+
     def c_get_brief(self, a):
         return '<id %s>' % hex(id(a.arg))
 
@@ -881,6 +885,10 @@ class InRelFamily:
     def c_alt(self, a, alt):
         return self.classifier.get_alt(a, alt)
 
+    def c_hash(self, a):
+        # As compared by _eq_args
+        return hash(frozenset(a.arg))
+
     def c_get_brief(self, a):
         return '<via %s>' % self.classifier.get_tabrendering(a, None)
 
diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index ff0a81a..e15647c 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1162,6 +1162,10 @@ class AndFamily(Family):
             return hex(id(o))
         return r
 
+    def c_hash(self, a):
+        # Equality does not depend on the order
+        return hash(frozenset(a.arg))
+
     def c_get_brief(self, c):
         names = [kind.brief for kind in c.arg]
         # names.sort() ?? I think now I want them in given order.
@@ -1325,6 +1329,10 @@ class OrFamily(Family):
             r._idpart_sortrender = lambda x: id(x)
             return r
 
+    def c_hash(self, a):
+        # Equality does not depend on the order
+        return hash(frozenset(a.arg))
+
     def c_get_brief(self, c):
         names = [kind.brief for kind in c.arg]
         names.sort()
-- 
2.43.0


From 920a3ffc87ccb0d1a033eb6832f1e02f1ee07549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:18 +0000
Subject: [PATCH 44/80] fix: a class did not refer to its metaclass

---
 src/heapy/stdtypes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 1ac3016..196f453 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -660,6 +660,11 @@ type_traverse(NyHeapTraverse *ta)
     Py_VISIT(type->tp_cache);
     Py_VISIT(type->tp_base);
 
+    /* The metaclass, when it is itself a heap type, is kept alive by its
+       instances just as any other heap type is. */
+    if (Py_TYPE(type)->tp_flags & Py_TPFLAGS_HEAPTYPE)
+        Py_VISIT(Py_TYPE(type));
+
     if (!(type->tp_flags & Py_TPFLAGS_HEAPTYPE))
         return 0;
     Py_VISIT(((PyHeapTypeObject *)type)->ht_name);
-- 
2.43.0


From ce55779a32718bc79415e2b949885ba999e77f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 45/80] fix: dicts of kinds from different classifiers were
 taken as disjoint

---
 guppy/heapy/Classifiers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 31ed67e..be52d54 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -488,6 +488,13 @@ class OwnedDictFamily:
     def _get_ownerkind(self, a):
         return a.arg
 
+    def _factordisjoint_ATOM(self, a, b):
+        # The owner kinds may be from different classifiers,
+        # so different kinds of dicts are not necessarily disjoint.
+        if self is b.fam:
+            return a.arg.disjoint(b.arg)
+        return self.mod.AtomFamily._factordisjoint_ATOM(self, a, b)
+
     def c_alt(self, a, alt):
         return self(a.arg.alt(alt))
 
-- 
2.43.0


From 865833923c3d456349308ebe730bd521090bc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 46/80] fix: equal kinds made by excluding object sets had
 different hashes

---
 guppy/heapy/UniSet.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index e15647c..1aebe76 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1428,7 +1428,15 @@ class InvertFamily(Family):
             a = self(x)
         return self.mod.fam_And(a, b)
 
-    _and_ATOM = _and_INVERT = _and_FACTOR
+    _and_ATOM = _and_FACTOR
+
+    def _and_INVERT(self, a, b):
+        # ~a.arg & ~b.arg
+        ids = self.mod.fam_IdentitySet
+        if a.arg.fam is ids and b.arg.fam is ids:
+            # Two sets of objects make one
+            return ~(a.arg | b.arg)
+        return self._and_FACTOR(a, b)
 
     def _and_ID(self, a, b):
         return b - (b & a.arg)
-- 
2.43.0


From 851b131e398991da51e3c41dbcb642abdaa77e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 47/80] fix: deallocation with a horizon crashed when a
 destructor called that of its base

---
 src/heapy/horizon.c | 48 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index ebf53d1..b5ca457 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -27,9 +27,20 @@ typedef struct _NyHorizonObject {
    The struct rm must be a static/global singleton, since it is intimately bound to patching
  */
 
+/* An object being deallocated by the original destructor of a patched type.
+   Such a destructor may in turn call that of a base type, for the same object.
+   (OrderedDict, for example, calls that of dict.) */
+
+typedef struct _HorizonDealloc {
+    PyObject *obj;
+    PyTypeObject *type;
+    struct _HorizonDealloc *prev, *next;
+} HorizonDealloc;
+
 static struct {
     NyHorizonObject *horizons;
     PyObject *types;
+    HorizonDealloc *deallocs;
 } rm;
 
 static void horizon_patched_dealloc(PyObject *v);
@@ -91,15 +102,50 @@ horizon_base(PyObject *v)
 }
 
 
+static PyTypeObject *
+horizon_next_patched(PyTypeObject *t)
+{
+    while (t && t->tp_dealloc != horizon_patched_dealloc)
+        t = t->tp_base;
+    return t;
+}
+
+
 static void
 horizon_patched_dealloc(PyObject *v)
 {
     NyHorizonObject *r;
+    HorizonDealloc d, *p;
+    PyTypeObject *t;
+    destructor org;
+
     for (r = rm.horizons; r; r = r->next) {
         if (NyNodeSet_clrobj(r->hs, v) == -1)
             Py_FatalError("horizon_patched_dealloc: could not clear object in nodeset");
     }
-    horizon_get_org_dealloc(horizon_base(v))(v);
+
+    for (p = rm.deallocs; p && p->obj != v; p = p->next)
+        ;
+    if (!p || !(t = horizon_next_patched(p->type->tp_base)) || t == &PyBaseObject_Type)
+        t = horizon_next_patched(Py_TYPE(v));
+    if (!t) /* The last horizon was removed during the deallocation */
+        t = horizon_base(v);
+    org = horizon_get_org_dealloc(t);
+
+    d.obj = v;
+    d.type = t;
+    d.prev = 0;
+    d.next = rm.deallocs;
+    if (d.next)
+        d.next->prev = &d;
+    rm.deallocs = &d;
+    org(v);
+    if (d.next)
+        d.next->prev = d.prev;
+    if (d.prev)
+        d.prev->next = d.next;
+    else
+        rm.deallocs = d.next;
 }
 
 static int
-- 
2.43.0


From b9e62ceddfe5cc40def2e472c1a286d85dfa082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:17 +0000
Subject: [PATCH 48/80] fix: a horizon missed the deallocation of instances of
 extension heap types

---
 src/heapy/horizon.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/heapy/horizon.c b/src/heapy/horizon.c
index b5ca457..8bb0549 100644
--- a/src/heapy/horizon.c
+++ b/src/heapy/horizon.c
@@ -41,6 +41,7 @@ static struct {
     NyHorizonObject *horizons;
     PyObject *types;
     HorizonDealloc *deallocs;
+    destructor subtype_dealloc;
 } rm;
 
 static void horizon_patched_dealloc(PyObject *v);
@@ -88,11 +89,15 @@ horizon_dealloc(NyHorizonObject *rg)
 }
 
 
+/* The type whose destructor is finally called: heap types normally
+   share one that calls the destructor of the nearest other base type,
+   but those defined by extension modules may have their own. */
+
 static PyTypeObject *
 horizon_base(PyObject *v)
 {
     PyTypeObject *t = Py_TYPE(v);
-    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE) {
+    while (t->tp_flags & Py_TPFLAGS_HEAPTYPE && t->tp_dealloc == rm.subtype_dealloc) {
         assert(t->tp_base);
         assert(Py_TYPE(t) == Py_TYPE(t->tp_base) ||
             PyObject_IsSubclass((PyObject *)Py_TYPE(t), (PyObject *)Py_TYPE(t->tp_base)));
@@ -185,6 +190,25 @@ horizon_update_trav(PyObject *obj, NyHorizonObject *ta) {
     return 0;
 }
 
+/* Find the destructor of ordinary heap types */
+
+static int
+horizon_init_subtype_dealloc(void)
+{
+    PyType_Slot slots[] = {{0, 0}};
+    PyType_Spec spec = {
+        .name  = "guppy.heapy.heapyc._HorizonProbe",
+        .flags = Py_TPFLAGS_DEFAULT,
+        .slots = slots,
+    };
+    PyObject *t = PyType_FromSpec(&spec);
+    if (!t)
+        return -1;
+    rm.subtype_dealloc = ((PyTypeObject *)t)->tp_dealloc;
+    Py_DECREF(t);
+    return 0;
+}
+
 PyObject *
 horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
@@ -196,6 +220,8 @@ horizon_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
                                  kwlist,
                                  &X))
         goto err;
+    if (!rm.subtype_dealloc && horizon_init_subtype_dealloc() == -1)
+        goto err;
     hz = (NyHorizonObject *)type->tp_alloc(type, 1);
     if (!hz)
         goto err;
-- 
2.43.0


From cd26b0952bc57d4655866174e0141072971922fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 49/80] fix: heap() after setref() reported objects of heapy
 itself

The frame of Use.heap was visible to the traversal, and the summary of
unreachable objects taken by setref() created objects only once, after
the reference had been taken.
---
 guppy/heapy/Use.py  | 12 ++++++++----
 guppy/heapy/View.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/guppy/heapy/Use.py b/guppy/heapy/Use.py
index b29f923..ae0cea0 100644
--- a/guppy/heapy/Use.py
+++ b/guppy/heapy/Use.py
@@ -185,10 +185,14 @@ References
     [2] heapy_Use.html#heapykinds.Use.setref
     [3] heapy_Use.html#heapykinds.Use.Clodo"""
 
-        h = self.View.heap()
-        h |= self.gcobjs
-        h -= self.relheap
-        return h
+        def heap():
+            h = self.View.heap()
+            h |= self.gcobjs
+            h -= self.relheap
+            return h
+
+        # Exclude the current frame
+        return self.View.enter(heap)
 
     def load(self, fn, use_readline=0):
         """\
diff --git a/guppy/heapy/View.py b/guppy/heapy/View.py
index 02823b9..fc9876f 100644
--- a/guppy/heapy/View.py
+++ b/guppy/heapy/View.py
@@ -354,6 +354,7 @@ Return the set of objects in the visible heap.
             self.root = objs
             try:
                 repr(self.idset(objs))
+                repr(self.idset(objs).stat)
                 repr(self.iso(objs[0]).shpaths)
                 repr(self.iso(objs[0]).rp)
             finally:
-- 
2.43.0


From 28e0cbf4eade930d45d95d54252d2668c2485502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:06 +0000
Subject: [PATCH 50/80] fix: a file that is writable but not readable was
 overwritten without backup

---
 guppy/gsl/Filer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/gsl/Filer.py b/guppy/gsl/Filer.py
index 954ffcc..9c8a12c 100644
--- a/guppy/gsl/Filer.py
+++ b/guppy/gsl/Filer.py
@@ -74,7 +74,7 @@ class WriteFile:
         IO = self.mod.IO
         if self.mod.backup_suffix:
             backup_name = self.file_name + self.mod.backup_suffix
-            if IO.access(self.file_name, IO.R_OK | IO.W_OK):
+            if IO.access(self.file_name, IO.W_OK):
                 IO.rename(self.file_name, backup_name)
 
         IO.write_file(self.file_name, self.data)
-- 
2.43.0


From 76935459067ad4d476e093e3786f3ac0765d217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:41 +0000
Subject: [PATCH 51/80] fix: dotted trees with empty tags or quoted dots were
 changed by unparsing and parsing

---
 guppy/gsl/DottedTree.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/guppy/gsl/DottedTree.py b/guppy/gsl/DottedTree.py
index 1b4a229..5488196 100644
--- a/guppy/gsl/DottedTree.py
+++ b/guppy/gsl/DottedTree.py
@@ -115,10 +115,10 @@ class _GLUECLAMP_:
             else:
                 break
         for (i, t) in enumerate(tag):
-            if (t.startswith(quotechar+dotchar) or
-                    t.startswith(quotechar+quotechar+dotchar)):
+            if (t.startswith(quotechar) and
+                    t.lstrip(quotechar).startswith(dotchar)):
                 tag[i] = t[len(quotechar):]
-        if tag == ['']:
+        if tag == [''] and not pos:
             tag = '\n'
         else:
             tag = '\n'.join(tag)
@@ -167,14 +167,16 @@ class _GLUECLAMP_:
                 unparse(depth+1, x)
 
         unparse(0, sexpr)
+        if len(li) > 1 and not sexpr[0]:
+            # An empty first line would be a newline in the tag
+            del li[0]
         return '\n'.join(li)
 
     def unparse_tag(self, depth, tag):
         dotchar, quotechar = self.dotchar, self.quotechar
         tag = tag.split('\n')
         for (i, t) in enumerate(tag):
-            if (t.startswith(dotchar) or
-                    t.startswith(quotechar + dotchar)):
+            if t.lstrip(quotechar).startswith(dotchar):
                 tag[i] = quotechar + t
         tag = '\n'.join(tag)
         tag = dotchar*depth+tag
-- 
2.43.0


From b1c47f4e17ac7ee78bf32e96d9bd52622231ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 52/80] fix: simplifying unions of words used the removed
 function cmp

---
 guppy/etc/RE_Rect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/RE_Rect.py b/guppy/etc/RE_Rect.py
index d2f62e9..ff73d4f 100644
--- a/guppy/etc/RE_Rect.py
+++ b/guppy/etc/RE_Rect.py
@@ -104,7 +104,7 @@ def cmp_gauged(xs, ys, gauges):
     for gauge in gauges:
         gx = sum_gauge(gauge, xs)
         gy = sum_gauge(gauge, ys)
-        c = cmp(gx, gy)
+        c = (gx > gy) - (gx < gy)
         if c:
             return c
     return 0
-- 
2.43.0


From a87cb569f0c247cebc691671a27418575d68a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 53/80] fix: FiniteAutomaton.get_all_input_symbols failed

---
 guppy/etc/FSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/FSA.py b/guppy/etc/FSA.py
index deb2847..d0f5afa 100644
--- a/guppy/etc/FSA.py
+++ b/guppy/etc/FSA.py
@@ -63,7 +63,7 @@ class FiniteAutomaton:
     def get_all_input_symbols(self):
         syms = {}
         for state, trans in list(self.table.items()):
-            for k, v in trans:
+            for k in trans:
                 syms[k] = 1
         return syms
 
-- 
2.43.0


From 952617f653cfd2efc1a03acd572e2132ba1e0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 54/80] fix: regular expressions changed their language when
 simplified or solved

A union inside a concatenation was taken for the concatenation of its
members; expressions that differed only in the closure operator compared
both equal and unequal; an automaton with no accepted word could not be
solved, and a loop at its start state was ignored.
---
 guppy/etc/RE.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/guppy/etc/RE.py b/guppy/etc/RE.py
index 8b113e7..47dbb2f 100644
--- a/guppy/etc/RE.py
+++ b/guppy/etc/RE.py
@@ -83,9 +83,13 @@ class RE(REBASE):
         return hash((self._name, tuple(self)))
 
     def __eq__(a, b):
-        return (a._name == b._name and
+        return (isinstance(b, RE) and
+                a._name == b._name and
                 tuple(a) == tuple(b))
 
+    def __ne__(a, b):
+        return not a == b
+
     def __lt__(a, b):
         if a._name == b._name:
             return tuple(a) < tuple(b)
@@ -527,8 +531,7 @@ class Union(RE):
             c.apseq(ap)
 
     def apseqatoms(self, ap):
-        for x in self:
-            x.apseqatoms(ap)
+        ap(self)
 
     def get_words_of_length_memoized(self, N, memo):
         xs = []
@@ -561,6 +564,9 @@ class Union(RE):
             args = [x.simplified() for x in self.unionsplitted()]
             #args = [x for x in self.unionsplitted()]
 
+        if not args:
+            return Nothing
+
         # Create a simplfied union
         # Assuming args are simplified, non-unions
 
@@ -926,7 +932,12 @@ class RegularSystem:
         # The equation system is now solved
         # The result is in Final term of Start equation
 
-        return X[Start][Final]
+        T = X[Start]
+        if Final not in T:
+            return Nothing
+        if Start in T:
+            return T[Start]('*') + T[Final]
+        return T[Final]
 
 
 Nothing = Union()
-- 
2.43.0


From 4a58eff3edac99bc5d44b912ce62ec7d811fe1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 55/80] fix: an automaton without transitions could not be
 reduced

---
 guppy/etc/FSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/FSA.py b/guppy/etc/FSA.py
index d0f5afa..5174718 100644
--- a/guppy/etc/FSA.py
+++ b/guppy/etc/FSA.py
@@ -2,7 +2,7 @@ class FiniteAutomaton:
     def __init__(self, start_state, dump_state=''):
         self.start_state = start_state
         self.dump_state = dump_state
-        self.table = {self.dump_state: {}}
+        self.table = {self.dump_state: {}, self.start_state: {}}
         self.unresolved_composites = []
         self.resolved_composites = []
         self.composite_memo = {}
-- 
2.43.0


From a1df17d08b2764c9bd75f1207a095d1446ba120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 56/80] fix: Cat.Identity could not be created

---
 guppy/etc/Cat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/etc/Cat.py b/guppy/etc/Cat.py
index 3eb2c69..3d4acad 100644
--- a/guppy/etc/Cat.py
+++ b/guppy/etc/Cat.py
@@ -78,7 +78,7 @@ class Function:
 
 class Identity(Function):
     def __init__(self, src):
-        Function.__init__(lambda x: x, src, src)
+        Function.__init__(self, lambda x: x, src, src)
 
 
 def check_graph(G):
-- 
2.43.0


From 1465c1a39de1e69a19d0f0a9411320b9fc60b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 57/80] fix: import from the modules that Python 3 has in gsl

Accessing the attributes Gsml.entitydefs, XHTML.name2codepoint,
XHTML.codepoint2name and Text.md5 raised ModuleNotFoundError; the
digest is written to a binary file.
---
 guppy/gsl/Gsml.py  | 2 +-
 guppy/gsl/Text.py  | 6 +++---
 guppy/gsl/XHTML.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/guppy/gsl/Gsml.py b/guppy/gsl/Gsml.py
index 99b8f23..b56dcc0 100644
--- a/guppy/gsl/Gsml.py
+++ b/guppy/gsl/Gsml.py
@@ -55,7 +55,7 @@ class _GLUECLAMP_:
         '_root.html.parser:HTMLParser',
         '_parent.SpecNodes:node_of_taci',
         '_parent.SpecNodes:nodes_of_text',
-        '_root.htmlentitydefs:entitydefs',
+        '_root.html.entities:entitydefs',
     )
 
     encoding = "iso-8859-1"
diff --git a/guppy/gsl/Text.py b/guppy/gsl/Text.py
index 7ebd13a..87c6ae9 100644
--- a/guppy/gsl/Text.py
+++ b/guppy/gsl/Text.py
@@ -961,7 +961,7 @@ class _GLUECLAMP_:
         '_parent.Main:ReportedError',
         '_parent:Html',
         '_root:pickle',
-        '_root.md5:md5',
+        '_root.hashlib:md5',
         '_root:os',
         '_root:re',
         '_root:string',
@@ -1048,7 +1048,7 @@ class _GLUECLAMP_:
                 r = None
                 textdigest = self.md5(text.encode('utf-8')).digest()
                 try:
-                    f = open(cache)
+                    f = open(cache, 'rb')
                 except IOError:
                     pass
                 else:
@@ -1060,7 +1060,7 @@ class _GLUECLAMP_:
                     r = RecordingInter()
                     self.node2inter(node, r)
                     r.prepare_for_pickle()
-                    f = open(cache, 'w')
+                    f = open(cache, 'wb')
                     try:
                         try:
                             f.write(textdigest)
diff --git a/guppy/gsl/XHTML.py b/guppy/gsl/XHTML.py
index 25cb6b8..f4be3bc 100644
--- a/guppy/gsl/XHTML.py
+++ b/guppy/gsl/XHTML.py
@@ -388,8 +388,8 @@ class _GLUECLAMP_:
         '_parent.Gsml:is_not_ascii',
         '_parent.Main:tgt_prefix',
         '_parent.Main:ReportedError',
-        '_root.htmlentitydefs:name2codepoint',
-        '_root.htmlentitydefs:codepoint2name',
+        '_root.html.entities:name2codepoint',
+        '_root.html.entities:codepoint2name',
         '_root:re',
         '_root:time',
     )
-- 
2.43.0


From 21ae038bf17c460421592d00a357b854a8f809be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 58/80] fix: follow a profile file that is being written

Prof.Stats took a sample that was only partly written for a complete
one, or raised an error, and could not go on after that; it took the
size of the file for the number of characters it had read; it missed
what was written between reading the file and looking at its time; and
it took the samples twice that were appended after clear_cache.
---
 guppy/heapy/Prof.py | 58 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/guppy/heapy/Prof.py b/guppy/heapy/Prof.py
index a0babaf..bda0c8f 100644
--- a/guppy/heapy/Prof.py
+++ b/guppy/heapy/Prof.py
@@ -127,6 +127,7 @@ class Stats:
         self.mod = mod
         self.os = mod.os
         self.hashlib = mod.hashlib
+        self.io = mod.io
         self.fn = fn
 
     def clear_cache(self):
@@ -145,33 +146,55 @@ class Stats:
         if not self.fn:
             return 0, 0
 
+        self.stats  # Reopened, if the cache was cleared
+
         stat = self.os.stat(self.fn)
         if stat == self.laststat:
             return len(self), 0
 
-        with open(self.fn) as f:
-            str = f.read(self.lastfilesize)
-            md5 = self.hashlib.md5(str.encode('utf-8'))
-            digest = md5.digest()
-            if digest == self.lastdigest:
+        with open(self.fn, 'rb') as f:
+            # Before reading, not to miss what is written meanwhile
+            laststat = self.os.fstat(f.fileno())
+            data = f.read(self.lastfilesize)
+            md5 = self.hashlib.md5(data)
+            if md5.digest() == self.lastdigest:
                 numoldstats = len(self)
+                data = self.complete(f.read())
+                md5.update(data)
             else:
-                self.loadstr(str, reset=1)
                 numoldstats = 0
+                data = self.complete(data + f.read())
+                md5 = self.hashlib.md5(data)
 
-            str = f.read()
+        self.loadstr(self.decode(data), reset=not numoldstats)
+        if not numoldstats:
+            self.lastfilesize = 0
 
-            self.laststat = self.os.fstat(f.fileno())
-        self.lastfilesize = self.laststat.st_size
-
-        md5.update(str.encode('utf-8'))
+        self.laststat = laststat
+        self.lastfilesize += len(data)
         self.lastdigest = md5.digest()
-        self.loadstr(str)
 
         numnewstats = len(self.stats)-numoldstats
 
         return numoldstats, numnewstats
 
+    def complete(self, data):
+        # The packages of data that are completely written so far.
+        end = data.rfind(b'\n') + 1
+        while end:
+            start = data.rfind(b'\n', 0, end - 1) + 1
+            if data.startswith(b'.end: ', start):
+                break
+            end = start
+        if not end and not data.startswith(b'.loader:'[:len(data)]):
+            # Not the beginning of a package: let it be reported.
+            end = len(data)
+        return data[:end]
+
+    def decode(self, data):
+        # As if read from a file opened in text mode.
+        return self.io.TextIOWrapper(self.io.BytesIO(data)).read()
+
     def open(self, fn):
         if not fn:
             self.len_stats = 0
@@ -180,17 +203,17 @@ class Stats:
             self.fn = fn
             return
 
-        with open(fn) as f:
-            str = f.read()
-            lastdigest = self.hashlib.md5(str.encode('utf-8')).digest()
+        with open(fn, 'rb') as f:
             laststat = self.os.fstat(f.fileno())
-        self.loadstr(str, reset=1)
+            data = self.complete(f.read())
+            lastdigest = self.hashlib.md5(data).digest()
+        self.loadstr(self.decode(data), reset=1)
 
         # Update these only if there was no exception so far.
         self.fn = fn
         self.lastdigest = lastdigest
         self.laststat = laststat
-        self.lastfilesize = laststat.st_size
+        self.lastfilesize = len(data)
 
     def loadstr(self, str, reset=0):
         stats = []
@@ -2972,6 +2995,7 @@ class _GLUECLAMP_:
         '_parent:pbhelp',
         '_root.guppy.etc:textView',
         '_root:hashlib',
+        '_root:io',
         '_root:os',
         '_root.os:path',
         '_root:time',
-- 
2.43.0


From fd5c5568bafe6f761ddae52c5f9149395628f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 59/80] fix: owners of the dicts of static types

The dicts of static types that were imported after the first look at the
heap, and of the builtin types of Python 3.12, were said to have no owner.
---
 src/heapy/hv_cli_dictof.c | 92 +++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 432f3ef..4997012 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -45,17 +45,6 @@ typedef struct {
 
 /* Code for new dict-owner update method. Notes Apr 7 2005. */
 
-static PyObject *
-hv_cli_dictof_get_static_types_list(NyHeapViewObject *hv) {
-    if (PyObject_Length(hv->static_types) == 0) {
-        PyObject *h = hv_heap(hv, Py_None, Py_None); /* It updates static_types */
-        if (!h)
-            return 0;
-        Py_DECREF(h);
-    }
-    return PySequence_List(hv->static_types);
-}
-
 typedef struct {
     NyHeapViewObject *hv;
     NyNodeSetObject *dictsowned;
@@ -75,6 +64,75 @@ hv_cli_dictof_update_rec(PyObject *obj, DictofTravArg *ta) {
     return 0;
 }
 
+/* Add to types the static type obj, if it is one, and the static types it
+   inherits from. */
+
+static int
+hv_cli_dictof_static_types_rec(PyObject *obj, NyNodeSetObject *types)
+{
+    PyTypeObject *type;
+    if (!PyType_Check(obj))
+        return 0;
+    for (type = (PyTypeObject *)obj; type; type = type->tp_base) {
+        if (type->tp_flags & Py_TPFLAGS_HEAPTYPE)
+            continue;
+        if (NyNodeSet_setobj(types, (PyObject *)type) == -1)
+            return -1;
+    }
+    return 0;
+}
+
+/* The static types are not among the gc objects. Those that have come into
+   view since hv->static_types was made are found from the objects. */
+
+static PyObject *
+hv_cli_dictof_get_static_types_list(NyHeapViewObject *hv, PyObject *objects) {
+    Py_ssize_t i;
+    NyNodeSetObject *types;
+    PyObject *list = NULL;
+    if (PyObject_Length(hv->static_types) == 0) {
+        PyObject *h = hv_heap(hv, Py_None, Py_None); /* It updates static_types */
+        if (!h)
+            return 0;
+        Py_DECREF(h);
+    }
+    if (!(types = NyMutNodeSet_New()))
+        return 0;
+    if (iterable_iterate(hv->static_types,
+                         (visitproc)hv_cli_dictof_static_types_rec, types) == -1)
+        goto err;
+    for (i = 0; i < PyList_GET_SIZE(objects); i++) {
+        PyObject *obj = PyList_GET_ITEM(objects, i);
+        if (hv_cli_dictof_static_types_rec((PyObject *)Py_TYPE(obj), types) == -1)
+            goto err;
+        if (Py_TYPE(obj)->tp_traverse(
+                obj, (visitproc)hv_cli_dictof_static_types_rec, types) == -1)
+            goto err;
+    }
+    list = PySequence_List((PyObject *)types);
+err:
+    Py_DECREF(types);
+    return list;
+}
+
+/* The dict owned by obj or NULL; a borrowed reference. */
+
+static PyObject *
+hv_cli_dictof_get_dict(PyObject *obj)
+{
+    PyObject **dp;
+#if PY_VERSION_HEX >= 0x030C0000
+    /* The dict of a static builtin type is not found in the type. */
+    if (PyType_Check(obj)) {
+        PyObject *dict = PyType_GetDict((PyTypeObject *)obj);
+        Py_XDECREF(dict);
+        return dict;
+    }
+#endif
+    dp = _PyObject_GetDictPtr(obj);
+    return dp ? *dp : NULL;
+}
+
 static int
 hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
 {
@@ -82,15 +140,15 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
     ta.hv = hv;
     ta.rg = rg;
 
-    PyObject **dp;
     Py_ssize_t i, len;
     int k;
     int result = -1;
     PyObject *lists[2] = {0, 0};
 
     if (!(ta.dictsowned = NyMutNodeSet_New())) goto err;
-    if (!(lists[0] = hv_cli_dictof_get_static_types_list(hv))) goto err;
     if (!(lists[1] = gc_get_objects())) goto err;
+    if (!(lists[0] = hv_cli_dictof_get_static_types_list(hv, lists[1])))
+        goto err;
     for (k = 0; k < 2; k++) {
         PyObject *objects = lists[k];
         len = PyList_Size(objects);
@@ -98,11 +156,11 @@ hv_cli_dictof_update(NyHeapViewObject *hv, NyNodeGraphObject *rg)
             goto err;
         for (i = 0; i < len; i++) {
             PyObject *obj = PyList_GET_ITEM(objects, i);
-            dp = _PyObject_GetDictPtr(obj);
-            if (dp && *dp) {
-                if (NyNodeGraph_AddEdge(ta.rg, *dp, obj) == -1)
+            PyObject *dict = hv_cli_dictof_get_dict(obj);
+            if (dict) {
+                if (NyNodeGraph_AddEdge(ta.rg, dict, obj) == -1)
                     goto err;
-                if (NyNodeSet_setobj(ta.dictsowned, *dp) == -1)
+                if (NyNodeSet_setobj(ta.dictsowned, dict) == -1)
                     goto err;
             }
         }
-- 
2.43.0


From 527fff46d1d70912c748cc80de80735c16ff0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 60/80] fix: node graphs keep their edges when memory runs out

---
 src/heapy/nodegraph.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/heapy/nodegraph.c b/src/heapy/nodegraph.c
index 41a1a43..f097855 100644
--- a/src/heapy/nodegraph.c
+++ b/src/heapy/nodegraph.c
@@ -168,12 +168,13 @@ NyNodeGraph_AddEdge(NyNodeGraphObject *ng, PyObject *src, PyObject *tgt)
 
     if (ng->used_size >= ng->allo_size) {
         Py_ssize_t allo = roundupsize(ng->used_size + 1);
-        PyMem_RESIZE(ng->edges, NyNodeGraphEdge, allo);
-        if (!ng->edges) {
-            ng->used_size = ng->allo_size = 0;
+        NyNodeGraphEdge *edges = ng->edges;
+        PyMem_RESIZE(edges, NyNodeGraphEdge, allo);
+        if (!edges) {
             PyErr_NoMemory();
             return -1;
         }
+        ng->edges = edges;
         ng->allo_size = allo;
     }
     Py_INCREF(src);
@@ -235,7 +236,11 @@ ng_remove_dups(NyNodeGraphObject *ng)
 static void
 ng_trim(NyNodeGraphObject *ng)
 {
-    PyMem_RESIZE(ng->edges, NyNodeGraphEdge, ng->used_size);
+    NyNodeGraphEdge *edges = ng->edges;
+    PyMem_RESIZE(edges, NyNodeGraphEdge, ng->used_size);
+    if (!edges)
+        return; /* No memory to trim: keep what we have */
+    ng->edges = edges;
     ng->allo_size = ng->used_size;
 }
 
@@ -579,7 +584,7 @@ PyObject *
 ng_iter(NyNodeGraphObject *v)
 {
     NyNodeGraphIterObject *iter = PyObject_GC_New(NyNodeGraphIterObject, &NyNodeGraphIter_Type);
-    if (!v)
+    if (!iter)
         return 0;
     iter->nodegraph = v;
     Py_INCREF(v);
-- 
2.43.0


From 47b12ae269307a306da97580591f9a26bcabba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 61/80] fix: bit sets survive running out of memory

---
 src/sets/bitset.c | 162 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 131 insertions(+), 31 deletions(-)

diff --git a/src/sets/bitset.c b/src/sets/bitset.c
index 4206aa5..984c51f 100644
--- a/src/sets/bitset.c
+++ b/src/sets/bitset.c
@@ -378,6 +378,7 @@ static NyBitField *mutbitset_findpos(NyMutBitSetObject *v, NyBit pos);
 static int mutbitset_getrange_mut(NyMutBitSetObject *v, NySetField **slo, NySetField **shi);
 static int mutbitset_iop_iterable(NyMutBitSetObject *ms, int op, PyObject *v);
 static NyMutBitSetObject *mutbitset_new_from_arg(PyObject *arg);
+static int mutbitset_clear(NyMutBitSetObject *v);
 static int mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set);
 
 static NySetField *root_ins1(NyMutBitSetObject *v, NySetField *sf, NyBit pos);
@@ -724,6 +725,8 @@ NyImmBitSet_SubtypeNewArg(PyTypeObject *type, PyObject *v)
     if (vt == BITSET) {
         NyImmBitSetObject *bs = (NyImmBitSetObject *)v;
         NyImmBitSetObject *ret = NyImmBitSet_SubtypeNew(type, Py_SIZE(bs));
+        if (!ret)
+            return 0;
         memcpy(ret->ob_field, bs->ob_field, sizeof(NyBitField) * Py_SIZE(bs));
         return ret;
     }
@@ -779,22 +782,25 @@ NyImmBitSet_FromPyLongObject(PyObject  *v)
 static int
 mutbitset_initset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 {
-    /* Requires state to be as after mutset_clear() */
+    /* Clears v to contain set, or nothing if set is 0.
+       Allocates before it changes anything. */
 
-    NySetField *sf = root_ins1(v, &v->fst_root.ob_field[0], NyPos_MIN);
-    if (!sf)
-        return -1;
+    NySetField *sf;
+    NyBit size = 0;
     if (set) {
-        sf->set = set;
+        size = Py_SIZE(set);
         Py_INCREF(set);
-        sf->lo = set->ob_field;
-        sf->hi = set->ob_field + Py_SIZE(set);
     } else {
-        sf->set = immbitset_realloc(0, 1);
-        sf->lo = sf->hi = sf->set->ob_field;
-        if (!sf->set)
+        set = immbitset_realloc(0, 1);
+        if (!set)
             return -1;
     }
+    mutbitset_clear(v);
+    /* This has room in fst_root. */
+    sf = root_ins1(v, &v->fst_root.ob_field[0], NyPos_MIN);
+    sf->set = set;
+    sf->lo = set->ob_field;
+    sf->hi = set->ob_field + size;
     return 0;
 }
 
@@ -811,6 +817,7 @@ NyMutBitSet_SubtypeNew(PyTypeObject *type, NyImmBitSetObject *set, NyUnionObject
         Py_SET_SIZE(&v->fst_root, 0);
 
         v->fst_root.cur_size = 0;
+        n_mutbitset++;
         if (!root) {
             v->root = &v->fst_root;
             if (mutbitset_initset(v, set) == -1) {
@@ -822,7 +829,6 @@ NyMutBitSet_SubtypeNew(PyTypeObject *type, NyImmBitSetObject *set, NyUnionObject
             v->root = root;
             Py_INCREF(root);
         }
-        n_mutbitset++;
     }
     return v;
 }
@@ -902,6 +908,10 @@ union_realloc(NyUnionObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * size);
+        if (!ret) {
+            PyErr_NoMemory();
+            return 0;
+        }
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), size);
         return ret;
     }
@@ -959,6 +969,10 @@ immbitset_realloc(NyImmBitSetObject *self, NyBit size)
         _Py_DEC_REFTOTAL;
         ret = PyObject_Realloc(self,
             Py_TYPE(self)->tp_basicsize + Py_TYPE(self)->tp_itemsize * upsize);
+        if (!ret) {
+            PyErr_NoMemory();
+            return 0;
+        }
         ret = (void *) PyObject_InitVar((void *)ret, Py_TYPE(ret), upsize);
         return ret;
     }
@@ -1075,21 +1089,26 @@ mutbitset_split_ins1(NyMutBitSetObject *v, NySetField *sf, NyBitField *f, NyBit
     NyBit sfpos = sf - v->root->ob_field;
     NyBit a_size = f - sf->lo;
     NyBit b_size = sf->hi - f;
-    NySetField *nsf = root_ins1(v, sf+1, pos);
+    NySetField *nsf;
+    NyImmBitSetObject *set = immbitset_realloc(0, b_size);
     assert(a_size >= 0);
     assert(b_size >= 0);
-    if (!nsf)
+    if (!set)
         return 0;
-    sf = v->root->ob_field + sfpos;
-    if (sf_realloc(nsf, b_size) == -1)
+    nsf = root_ins1(v, sf+1, pos);
+    if (!nsf) {
+        Py_DECREF(set);
         return 0;
+    }
+    sf = v->root->ob_field + sfpos;
+    nsf->set = set;
     nsf->lo = nsf->set->ob_field + (Py_SIZE(nsf->set) - b_size) / 2;
     nsf->hi = nsf->lo + b_size;
     fp_move(nsf->lo, f, b_size);
     nsf->pos = nsf->lo->pos;
     sf->hi = f;
     if (sf_realloc(sf, f + 1 - sf->set->ob_field) == -1)
-        return 0;
+        PyErr_Clear(); /* There is room for f in what it has. */
     f = sf->lo + a_size;
     sf->hi = f + 1;
     assert(sf->hi <= sf->set->ob_field+Py_SIZE(sf->set));
@@ -1136,14 +1155,18 @@ mutbitset_findpos(NyMutBitSetObject *v, NyBit pos)
 }
 
 
-static NyBitField *
-mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
+/* Finds the field at pos, to be changed in place, if there is any.
+   Returns -1 on error. */
+
+static int
+mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos, NyBitField **fp)
 {
     NyBitField *f = v->cur_field;
     NyUnionObject *root;
     NySetField *sf;
+    *fp = f;
     if (f && f->pos == pos)
-        return f;
+        return 0;
     root = v->root;
     {
         NySetField *lo = &root->ob_field[0];
@@ -1163,10 +1186,13 @@ mutbitset_findpos_mut(NyMutBitSetObject *v, NyBit pos)
                 /* It was found but some struct needs to be copied.
                    Just research in ins mode. */
                 f = mutbitset_findpos_ins(v, pos);
+                if (!f)
+                    return -1;
             }
         }
+        *fp = f;
+        return 0;
     }
-    return f;
 }
 
 
@@ -1438,7 +1464,8 @@ mutbitset_iop_field(NyMutBitSetObject *v, int op, NyBitField *w)
         break;
     case NyBits_SUB:
         if (w->bits) {
-            f = mutbitset_findpos_mut(v, w->pos);
+            if (mutbitset_findpos_mut(v, w->pos, &f) == -1)
+                return -1;
             if (!f)  return 0;
             f->bits &= ~ w->bits;
         }
@@ -1508,10 +1535,42 @@ cpl_conv_right(int op, int *cplp)
     return op;
 }
 
+/* Make v ready to be changed by op with a field at pos, without
+   changing its value, so that the change itself will not fail. */
+
 static int
-mutbitset_iop_convert(NyMutBitSetObject *v, int op)
+mutbitset_iop_prepare(NyMutBitSetObject *v, int op, NyBit pos)
 {
-    return cpl_conv_left(&v->cpl, op);
+    NyBitField *f;
+    switch(op) {
+    case NyBits_OR:
+    case NyBits_XOR:
+    case NyBits_SUBR:
+        return mutbitset_findpos_ins(v, pos) ? 0 : -1;
+    case NyBits_SUB:
+        return mutbitset_findpos_mut(v, pos, &f);
+    default:
+        return 0;
+    }
+}
+
+/* Likewise, for those of its fields that op may change anyway. */
+
+static int
+mutbitset_iop_prepared(NyMutBitSetObject *v, int op)
+{
+    NySetField *s, *end_s;
+    NyBitField *f, *end_f;
+    end_s = 0; /* avoid warning */
+    if (op == NyBits_AND || op == NyBits_SUBR) {
+        if (mutbitset_getrange_mut(v, &s, &end_s) < 0)
+            return -1;
+        for (; s < end_s; s++) {
+            if (sf_getrange_mut(s, &f, &end_f) < 0)
+                return -1;
+        }
+    }
+    return 0;
 }
 
 static int
@@ -1519,8 +1578,17 @@ mutbitset_iop_fields(NyMutBitSetObject *v, int op, NyBitField *w, NyBit n)
 {
     NySetField *s, *end_s;
     NyBitField *f, *end_w, *end_f;
+    NyBit j;
+    int cpl = v->cpl;
     end_s = 0; /* avoid warning */
-    op = mutbitset_iop_convert(v, op);
+    op = cpl_conv_left(&cpl, op);
+    for (j = 0; j < n; j++) {
+        if (w[j].bits && mutbitset_iop_prepare(v, op, w[j].pos) == -1)
+            return -1;
+    }
+    if (mutbitset_iop_prepared(v, op) == -1)
+        return -1;
+    v->cpl = cpl;
     switch(op) {
     case NyBits_OR:
     case NyBits_XOR:
@@ -1599,8 +1667,17 @@ mutbitset_iop_bits(NyMutBitSetObject *v, int op, NyBit pos, NyBits *bits, NyBit
 {
     NySetField *s, *end_s;
     NyBitField *f, *end_f;
+    NyBit j;
+    int cpl = v->cpl;
     end_s = 0; /* avoid warning */
-    op = mutbitset_iop_convert(v, op);
+    op = cpl_conv_left(&cpl, op);
+    for (j = 0; j < n; j++) {
+        if (bits[j] && mutbitset_iop_prepare(v, op, pos + j) == -1)
+            return -1;
+    }
+    if (mutbitset_iop_prepared(v, op) == -1)
+        return -1;
+    v->cpl = cpl;
     switch(op) {
     case NyBits_OR:
     case NyBits_XOR:
@@ -1685,14 +1762,15 @@ mutbitset_iop_immbitset(NyMutBitSetObject *v, int op, NyImmBitSetObject *w)
 static int
 mutbitset_reset(NyMutBitSetObject *v, NyImmBitSetObject *set)
 {
-    mutbitset_clear(v);
     return mutbitset_initset(v, set);
 }
 
 int NyMutBitSet_clear(NyMutBitSetObject *v)
 {
+    if (mutbitset_reset(v, 0) == -1)
+        return -1;
     v->cpl = 0;
-    return mutbitset_reset(v, 0);
+    return 0;
 }
 
 
@@ -1719,11 +1797,22 @@ static int
 mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
 {
     int cpl = w->cpl;
+    int vcpl = v->cpl;
     NySetField *s, *end_s;
     NyBitField *f, *end_f, *wf;
     end_s = 0; /* avoid warning */
     op = cpl_conv_right(op, &cpl);
-    op = mutbitset_iop_convert(v, op);
+    op = cpl_conv_left(&vcpl, op);
+    if (v != w) {
+        for (s = mutbitset_getrange(w, &end_s); s < end_s; s++)
+            for (f = sf_getrange(s, &end_f); f < end_f; f++)
+                if ((f->bits || op == NyBits_SUBR) &&
+                    mutbitset_iop_prepare(v, op, f->pos) == -1)
+                    return -1;
+        if (mutbitset_iop_prepared(v, op) == -1)
+            return -1;
+        v->cpl = vcpl;
+    }
     if (v == w) {
         /* Special caseing this because:
            - may be problems updating the same we iterate on
@@ -1745,6 +1834,7 @@ mutbitset_iop_mutset(NyMutBitSetObject *v, int op, NyMutBitSetObject *w)
                             "Invalid mutbitset_iop_fields() operation");
             return -1;
         }
+        v->cpl = vcpl;
     } else
         switch(op) {
     case NyBits_OR:
@@ -2281,7 +2371,8 @@ mutbitset_set_or_clr(NyMutBitSetObject *v, NyBit bitno, int set_or_clr)
             return set_or_clr;
         fp->bits |= f.bits;
     } else {
-        fp = mutbitset_findpos_mut(v, f.pos);
+        if (mutbitset_findpos_mut(v, f.pos, &fp) == -1)
+            return -1;
         if (!(fp && (fp->bits & f.bits))) {
             return set_or_clr;
         }
@@ -2417,7 +2508,8 @@ mutbitset_append_or_remove(NyMutBitSetObject *v, PyObject *w, int ap, char *errm
         }
         fp->bits |= f.bits;
     } else {
-        fp = mutbitset_findpos_mut(v, f.pos);
+        if (mutbitset_findpos_mut(v, f.pos, &fp) == -1)
+            return 0;
         if (!(fp && (fp->bits & f.bits))) {
             PyErr_Format(PyExc_ValueError,
                          errmsg, bitno);
@@ -2544,12 +2636,16 @@ mutbitset_pop(NyMutBitSetObject *v, PyObject *args)
 {
     NyBit i = -1;
     NyBit bit;
+    PyObject *ret;
     if (!PyArg_ParseTuple(args, "|n:pop", &i))
         return NULL;
     bit = NyMutBitSet_pop(v, i);
     if (bit == -1 && PyErr_Occurred())
         return 0;
-    return PyLong_FromSsize_t(bit); /// xxx from ...
+    ret = PyLong_FromSsize_t(bit); /// xxx from ...
+    if (!ret)
+        NyMutBitSet_setbit(v, bit); /* This takes the room left by it. */
+    return ret;
 }
 
 static PyObject *
@@ -2978,6 +3074,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return 0;
         g = bs->ob_field;
         i = 0;
         for (s = ss; s < se; s++) {
@@ -3018,6 +3116,8 @@ sf_slice(NySetField *ss, NySetField *se, NyBit ilow, NyBit ihigh)
                 break;
         }
         bs = NyImmBitSet_New(nfields);
+        if (!bs)
+            return 0;
         g = bs->ob_field + nfields - 1;
         i = 0;
         for (s = se; --s >= ss;) {
-- 
2.43.0


From 2c124d98d604170ed45c0d860212221bba5b3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 62/80] fix: heap views survive running out of memory

---
 src/heapy/hv.c            | 38 +++++++++++++++++++++++++++++---------
 src/heapy/hv_cli_findex.c |  2 +-
 src/heapy/hv_cli_rcs.c    |  2 +-
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 2525262..06a71c1 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -108,8 +108,10 @@ hv_PyList_Pop(PyObject *list)
         PyObject *r = PyList_GetItem(list, size - 1);
         Py_XINCREF(r);
         if (r)
-            if (PyList_SetSlice(list, size - 1, size, 0) < 0)
+            if (PyList_SetSlice(list, size - 1, size, 0) < 0) {
+                Py_DECREF(r);
                 return 0;
+            }
 
         return r;
     } else {
@@ -535,7 +537,10 @@ static int
 xt_traverse(ExtraType *xt, PyObject *obj, visitproc visit, void *arg)
 {
     /* An object hidden via its dict may refer to others outside of the dict. */
-    PyObject **dp = _PyObject_GetDictPtr(obj);
+    PyObject **dp;
+    if (xt == &xt_error)
+        return -1;
+    dp = _PyObject_GetDictPtr(obj);
     if (dp && *dp && PyDict_GetItem(*dp, _hiding_tag__name) ==
             ((NyHeapViewObject *)xt->xt_hv)->_hiding_tag_)
         return 0;
@@ -610,6 +615,8 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 {
     PyTypeObject *type = Py_TYPE(obj);
     ExtraType *xt = hv_extra_type(hv, type);
+    if (xt == &xt_error)
+        return -1;
     if (xt->xt_trav_code == XT_HE) {
         Py_ssize_t offs = xt->xt_he_offs;
         PyObject **phe = (PyObject **)((char *)obj + offs);
@@ -634,7 +641,10 @@ hv_is_obj_hidden(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cms_rec(PyObject *obj, CMSTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj)) {
+    int r = hv_is_obj_hidden(ta->hv, obj);
+    if (r == -1)
+        return -1;
+    if (r) {
         if (PyList_Append(ta->rm, obj) == -1)
             return -1;
     }
@@ -743,8 +753,10 @@ NyHeapView_SubTypeNew(PyTypeObject *type, PyObject *root, PyTupleObject *heapdef
         goto err;
 
     hv->xt_table = PyMem_New(ExtraType *, hv->xt_size);
-    if (!hv->xt_table)
+    if (!hv->xt_table) {
+        PyErr_NoMemory();
         goto err;
+    }
     for (i = 0; i < hv->xt_size; i++)
         hv->xt_table[i] = 0;
 
@@ -870,6 +882,8 @@ NyHeapView_iterate(NyHeapViewObject *hv, int (*visit)(PyObject *, void *),
     if (!(ta.hs && ta.to_visit))
         goto err;
     r = iter_rec(ta.hv->root, &ta);
+    if (r == -1)
+        goto err;
     while (PyList_Size(ta.to_visit)) {
         PyObject *obj = hv_PyList_Pop(ta.to_visit);
         if (!obj)
@@ -905,8 +919,10 @@ typedef struct {
 
 static int
 hv_heap_rec(PyObject *obj, HeapTravArg *ta) {
-    int r;
-    if (hv_is_obj_hidden(ta->hv, obj) && Py_TYPE(obj) != &NyRootState_Type)
+    int r = hv_is_obj_hidden(ta->hv, obj);
+    if (r == -1)
+        return -1;
+    if (r && Py_TYPE(obj) != &NyRootState_Type)
         return 0;
     r = NyNodeSet_setobj(ta->visited, obj);
     if (r)
@@ -1615,8 +1631,11 @@ hv_update_referrers(NyHeapViewObject *self, PyObject *args)
             // Recurse out
             PyObject *last_obj = hv_PyList_Pop(ta.trace_stack);
             PyObject *last_res = hv_PyList_Pop(ta.trace_res);
-            if (!(last_obj && last_res))
+            if (!(last_obj && last_res)) {
+                Py_XDECREF(last_obj);
+                Py_XDECREF(last_res);
                 goto err_inner;
+            }
             if (NyNodeSet_clrobj(ta.trace_set, last_obj) == -1)
                 goto err_inner_inner;
             if (last_res == Py_True) {
@@ -1742,8 +1761,9 @@ int dummy;
 static int
 urco_traverse(PyObject *obj, URCOTravArg *ta)
 {
-    if (hv_is_obj_hidden(ta->hv, obj))
-        return 0;
+    int r = hv_is_obj_hidden(ta->hv, obj);
+    if (r)
+        return r == -1 ? -1 : 0;
     if (NyNodeGraph_AddEdge(ta->rg, obj, ta->retainer) == -1)
         return -1;
     ta->num++;
diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index ea78882..bbd2d3d 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -124,7 +124,7 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
     Py_INCREF(tmp.memo);
     s->kinds = PyTuple_New(numalts);
     s->cmps = PyTuple_New(numalts);
-    if (!s->kinds)
+    if (!(s->kinds && s->cmps))
         goto Err;
     for (i = 0; i < numalts; i++) {
         PyObject *ckc = PyTuple_GET_ITEM(tmp.alts, i);
diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 133ae99..eee57e2 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -118,7 +118,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
             goto Err;
         if (NyNodeSet_setobj(Ri, kind) == -1)
             goto Err;
-        Py_DECREF(kind);
+        Py_CLEAR(kind);
     }
     if (NyNodeSet_be_immutable(&Ri) == -1)
       goto Err;
-- 
2.43.0


From 29b30c743ef0e8216e26488aa624da3f3df61698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 63/80] fix: a partition that fails does not release its lists
 twice

---
 src/heapy/classifier.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 0125d96..773f76f 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -105,6 +105,7 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
         if (!sp)
             goto Err;
         if (PyObject_SetItem(ta->map, kind, sp) == -1) {
+            Py_DECREF(sp);
             goto Err;
         };
         Py_DECREF(sp);
@@ -114,8 +115,7 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     Py_DECREF(kind);
     return 0;
 Err:
-    Py_XDECREF(sp);
-    Py_XDECREF(kind);
+    Py_DECREF(kind);
     return -1;
 }
 
-- 
2.43.0


From ae13df692345fe6f20080a9247341f5fe91ae891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 64/80] fix: classifiers do not ignore errors when they look up
 kinds

---
 src/heapy/classifier.c      | 4 +++-
 src/heapy/hv_cli_and.c      | 2 +-
 src/heapy/hv_cli_findex.c   | 2 +-
 src/heapy/hv_cli_indisize.c | 4 +++-
 src/heapy/hv_cli_prod.c     | 2 +-
 src/heapy/hv_cli_rcs.c      | 2 +-
 src/heapy/hv_cli_rel.c      | 8 +++++---
 7 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index 773f76f..a261e48 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -99,8 +99,10 @@ cli_partition_iter(PyObject *obj, PATravArg *ta)
     if (!kind)
         return -1;
 
-    sp = PyDict_GetItem(ta->map, kind);
+    sp = PyDict_GetItemWithError(ta->map, kind);
     if (!sp) {
+        if (PyErr_Occurred())
+            goto Err;
         sp = PyList_New(0);
         if (!sp)
             goto Err;
diff --git a/src/heapy/hv_cli_and.c b/src/heapy/hv_cli_and.c
index fc43cf4..2298c72 100644
--- a/src/heapy/hv_cli_and.c
+++ b/src/heapy/hv_cli_and.c
@@ -39,7 +39,7 @@ NyNodeTuple_New(Py_ssize_t size)
 static PyObject *
 hv_cli_and_fast_memoized_kind(CliAndObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index bbd2d3d..c21c88c 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -20,7 +20,7 @@ typedef struct {
 static PyObject *
 hv_cli_findex_memoized_kind(FindexObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_indisize.c b/src/heapy/hv_cli_indisize.c
index ee3881e..a9af5ea 100644
--- a/src/heapy/hv_cli_indisize.c
+++ b/src/heapy/hv_cli_indisize.c
@@ -11,8 +11,10 @@ typedef struct {
 static PyObject *
 hv_cli_indisize_memoized_kind(IndisizeObject *self, PyObject *size)
 {
-    PyObject *memoedsize = PyDict_GetItem(self->memo, size);
+    PyObject *memoedsize = PyDict_GetItemWithError(self->memo, size);
     if (!memoedsize) {
+        if (PyErr_Occurred())
+            return 0;
         if (PyDict_SetItem(self->memo, size, size) == -1) {
             return 0;
         }
diff --git a/src/heapy/hv_cli_prod.c b/src/heapy/hv_cli_prod.c
index 01a8f57..a19d406 100644
--- a/src/heapy/hv_cli_prod.c
+++ b/src/heapy/hv_cli_prod.c
@@ -76,7 +76,7 @@ typedef struct {
 static PyObject *
 hv_cli_prod_memoized_kind(ProdObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index eee57e2..760d004 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -32,7 +32,7 @@ typedef struct {
 static PyObject *
 hv_cli_rcs_fast_memoized_kind(RetclasetObject * self, PyObject *kind)
 {
-    PyObject *result = PyDict_GetItem(self->memo, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memo, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 8e67f94..90ec158 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -191,7 +191,7 @@ inrel_visit_memoize_relation(PyObject *obj, MemoRelArg *arg)
                Py_TYPE(obj)->tp_name);
         return -1;
     }
-    mrel = PyDict_GetItem(arg->memorel, obj);
+    mrel = PyDict_GetItemWithError(arg->memorel, obj);
     if (!mrel) {
         if (PyErr_Occurred())
             return -1;
@@ -208,7 +208,7 @@ static PyObject *
 inrel_fast_memoized_kind(InRelObject * self, PyObject *kind)
      /* When the elements are already memoized */
 {
-    PyObject *result = PyDict_GetItem(self->memokind, kind);
+    PyObject *result = PyDict_GetItemWithError(self->memokind, kind);
     if (!result) {
         if (PyErr_Occurred())
             goto Err;
@@ -270,8 +270,10 @@ hv_cli_inrel_visit(unsigned int kind, PyObject *relator, NyHeapRelate *arg_)
     arg->rel->kind = kind;
     arg->rel->relator = relator;
 
-    rel = PyDict_GetItem(arg->memorel, (PyObject *)arg->rel);
+    rel = PyDict_GetItemWithError(arg->memorel, (PyObject *)arg->rel);
     if (!rel) {
+        if (PyErr_Occurred())
+            goto ret;
         rel = (PyObject *)NyRelation_New(kind, relator);
         if (!rel)
             goto ret;
-- 
2.43.0


From c312c69c3e866a0e0f5cb70e3a72c5deedc0a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 65/80] fix: instances of subclasses of containers have
 relations to their attributes

---
 src/heapy/hv.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/heapy/hv.c b/src/heapy/hv.c
index 06a71c1..38e8dbd 100644
--- a/src/heapy/hv.c
+++ b/src/heapy/hv.c
@@ -250,13 +250,9 @@ xt_error_size(PyObject *obj)
 }
 
 static int
-xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+instance_dict_relate(NyHeapRelate *r)
 {
-    PyTypeObject *type = xt->xt_type;
-    PyObject **dictptr;
-    if (owht_relate(r, type))
-        return 1;
-    dictptr = _PyObject_GetDictPtr(r->src);
+    PyObject **dictptr = _PyObject_GetDictPtr(r->src);
     if (dictptr) {
         if (*dictptr == r->tgt) {
             if (r->visit(NYHR_ATTRIBUTE, PyUnicode_FromString("__dict__"), r))
@@ -269,6 +265,15 @@ xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
     return 0;
 }
 
+static int
+xt_default_relate(struct ExtraType *xt, NyHeapRelate *r)
+{
+    PyTypeObject *type = xt->xt_type;
+    if (owht_relate(r, type))
+        return 1;
+    return instance_dict_relate(r);
+}
+
 static int
 xt_hd_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
@@ -279,8 +284,16 @@ static int
 xt_inherited_relate(struct ExtraType *xt, NyHeapRelate *r)
 {
     ExtraType *base;
-    if (owht_relate(r, xt->xt_type))
+    PyTypeObject *type = xt->xt_type;
+    if (owht_relate(r, type))
         return 1;
+    /* A relate function of the base type does not know about a dict that
+       its subtypes add. */
+    if (xt->xt_hd->relate && type->tp_dictoffset &&
+            !type->tp_base->tp_dictoffset) {
+        if (instance_dict_relate(r))
+            return 1;
+    }
     /* The base type may have changed since xt was made. */
     base = hv_extra_type((NyHeapViewObject *)xt->xt_hv, xt->xt_type->tp_base);
     return base->xt_relate(base, r);
-- 
2.43.0


From 5fa9c0b51c9ac4b645b9758990239ef8dcc1ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 66/80] fix: functions have relations to their builtins and
 type parameters

And the tuple that annotations are before they are asked for is not
what __annotations__ gives.
---
 src/heapy/stdtypes.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 196f453..1795b6d 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -188,8 +188,19 @@ function_relate(NyHeapRelate *r)
     RENAMEATTR(func_name, __name__);
     RENAMEATTR(func_dict, __dict__);
     RENAMEATTR(func_closure, __closure__);
-    RENAMEATTR(func_annotations, __annotations__);
+    /* A tuple until the dict is made, when it is asked for. */
+    if (v->func_annotations && PyTuple_Check(v->func_annotations)) {
+        INTERATTR(func_annotations);
+    } else {
+        RENAMEATTR(func_annotations, __annotations__);
+    }
     RENAMEATTR(func_qualname, __qualname__);
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 10
+    RENAMEATTR(func_builtins, __builtins__);
+#endif
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
+    RENAMEATTR(func_typeparams, __type_params__);
+#endif
     return dict_relate_kv(r, v->func_dict, NYHR_HASATTR, NYHR_ATTRIBUTE);
 }
 
-- 
2.43.0


From 6c2a5314f8c4bb17336b4832bf47cf39edd06065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 67/80] fix: frames have one relation to the frame that called
 them

---
 src/heapy/stdtypes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 1795b6d..6620a93 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -270,8 +270,9 @@ frame_relate(NyHeapRelate *r)
         return 1;
     }
     Py_XDECREF(next_frame);
-#endif
+#else
     ATTR(f_back)
+#endif
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 12
     GATTR(PyStackRef_AsPyObjectBorrow(iv->f_funcobj), f_funcobj, NYHR_INTERATTR);
 #elif PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
-- 
2.43.0


From 162ee1701d9aeed83408797aecabd99c29f8e2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 68/80] fix: looking for relations of a cleared frame does not
 crash

---
 src/heapy/stdtypes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 6620a93..40ad8dc 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -322,7 +322,9 @@ frame_relate(NyHeapRelate *r)
         if (!(kind & CO_FAST_CELL) && !(kind & CO_FAST_FREE))
             continue;
 
-        if (PyCell_GET(val) == r->tgt) {
+        /* There is no cell when the frame is cleared, or where the variable
+           is a cell in an inlined comprehension only. */
+        if (val && PyCell_Check(val) && PyCell_GET(val) == r->tgt) {
             Py_INCREF(name);
             if (r->visit(NYHR_CELL, name, r))
                 return 1;
-- 
2.43.0


From 84eafb5337d961f237a1d2e28dbca8178902780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 69/80] fix: the slots a type keeps are not what its __slots__
 gives

---
 src/heapy/stdtypes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 40ad8dc..1ba0e5f 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -724,7 +724,7 @@ type_relate(NyHeapRelate *r)
     et = (PyHeapTypeObject *)type;
 #define v et
     RENAMEATTR(ht_name, __name__);
-    RENAMEATTR(ht_slots, __slots__);
+    INTERATTR(ht_slots);
     RENAMEATTR(ht_qualname, __qualname__);
 
     INTERATTR(ht_module);
-- 
2.43.0


From 443125c204c6e70dace5154b796db946f4b1eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 70/80] fix: a comparison that is no valid string is an error,
 not a crash

---
 src/heapy/classifier.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/heapy/classifier.c b/src/heapy/classifier.c
index a261e48..c96dfae 100644
--- a/src/heapy/classifier.c
+++ b/src/heapy/classifier.c
@@ -251,6 +251,8 @@ cli_cmp_as_int(PyObject *cmp)
         return -1;
     }
     s = PyUnicode_AsUTF8(cmp);
+    if (!s)
+        return -1;
     for (i = 0; (c = cmp_strings[i]); i++) {
         if (strcmp(c, s) == 0)
             return i;
-- 
2.43.0


From 16c57a5b4cec6dc98a0a0ff855b37cc7ceaab7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 71/80] fix: the type classifier does not take other objects
 for types

---
 src/heapy/hv_cli.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/heapy/hv_cli.c b/src/heapy/hv_cli.c
index 665f63f..636f7b1 100644
--- a/src/heapy/hv_cli.c
+++ b/src/heapy/hv_cli.c
@@ -59,8 +59,13 @@ hv_cli_type_classify(NyHeapViewObject *hv, PyObject *obj)
 static int
 hv_cli_type_le(PyObject * self, PyObject *a, PyObject *b)
 {
-    return (a == b) || PyType_IsSubtype((PyTypeObject *)a, (PyTypeObject *)b);
-
+    if (a == b)
+        return 1;
+    if (!PyType_Check(a) || !PyType_Check(b)) {
+        PyErr_SetString(PyExc_TypeError, "cli_type: the kind must be a type to be ordered.");
+        return -1;
+    }
+    return PyType_IsSubtype((PyTypeObject *)a, (PyTypeObject *)b);
 }
 
 static NyObjectClassifierDef hv_cli_type_def = {
-- 
2.43.0


From 428a2b7599ae58686ff0f3079a139a1e408ba0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 72/80] fix: findex rejects orderings that its classifiers do
 not support

---
 src/heapy/hv_cli_findex.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/heapy/hv_cli_findex.c b/src/heapy/hv_cli_findex.c
index c21c88c..73007a5 100644
--- a/src/heapy/hv_cli_findex.c
+++ b/src/heapy/hv_cli_findex.c
@@ -87,6 +87,7 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
     FindexObject *s, tmp;
     Py_ssize_t numalts;
     Py_ssize_t i;
+    int cmp;
     if (!PyArg_ParseTuple(args, "O!O!:cli_findex",
                           &PyTuple_Type, &tmp.alts,
                           &PyDict_Type, &tmp.memo)) {
@@ -111,7 +112,13 @@ hv_cli_findex(NyHeapViewObject *hv, PyObject *args)
             PyErr_SetString(PyExc_TypeError, "Tuple of triples with [2] a STRING expected.");
             return 0;
         }
-        if (cli_cmp_as_int(PyTuple_GET_ITEM(ckc, 2)) == -1) {
+        cmp = cli_cmp_as_int(PyTuple_GET_ITEM(ckc, 2));
+        if (cmp == -1) {
+            return 0;
+        }
+        if (!(cmp == CLI_EQ || cmp == CLI_NE ||
+              ((NyObjectClassifierObject *)PyTuple_GET_ITEM(ckc, 0))->def->cmp_le)) {
+            PyErr_SetString(PyExc_ValueError, "This classifier supports only equality selection.");
             return 0;
         }
     }
-- 
2.43.0


From 68ff20beb13ffdd00a3a0cdbcc1e3c52428299c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 73/80] fix: classifiers keep the nodes they look at while user
 code runs

---
 src/heapy/hv_cli_dictof.c |  9 +++++++--
 src/heapy/hv_cli_rcs.c    | 22 ++++++++++++++++++----
 src/heapy/hv_cli_rel.c    | 22 ++++++++++++++++++----
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/heapy/hv_cli_dictof.c b/src/heapy/hv_cli_dictof.c
index 4997012..899987e 100644
--- a/src/heapy/hv_cli_dictof.c
+++ b/src/heapy/hv_cli_dictof.c
@@ -215,8 +215,13 @@ hv_cli_dictof_classify(DictofObject *self, PyObject *obj)
             }
         }
         if (lo < hi && lo->tgt != Py_None) {
-            PyObject *ownerkind = self->ownerclassifier->def->classify
-                (self->ownerclassifier->self, lo->tgt);
+            /* The classifier may run arbitrary code that changes owners. */
+            PyObject *owner = lo->tgt;
+            PyObject *ownerkind;
+            Py_INCREF(owner);
+            ownerkind = self->ownerclassifier->def->classify
+                (self->ownerclassifier->self, owner);
+            Py_DECREF(owner);
             return ownerkind;
         } else {
             Py_INCREF(self->notownedkind);
diff --git a/src/heapy/hv_cli_rcs.c b/src/heapy/hv_cli_rcs.c
index 760d004..77b8204 100644
--- a/src/heapy/hv_cli_rcs.c
+++ b/src/heapy/hv_cli_rcs.c
@@ -102,24 +102,37 @@ Err:
 static PyObject *
 hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
 {
-    NyNodeGraphEdge *lo, *hi, *cur;
+    NyNodeGraphEdge *lo, *hi;
     PyObject *kind = 0;
+    PyObject *referrers = 0;
+    Py_ssize_t i, size;
     NyNodeSetObject *Ri = hv_mutnodeset_new(self->hv);
     if (!Ri)
       goto Err;
     if (NyNodeGraph_Region(self->rg, obj, &lo, &hi) == -1) {
        goto Err;
     }
-    for (cur = lo; cur < hi; cur++) {
-        if (cur->tgt == Py_None)
+    /* The classifier may run arbitrary code that changes the graph. */
+    size = hi - lo;
+    referrers = PyTuple_New(size);
+    if (!referrers)
+        goto Err;
+    for (i = 0; i < size; i++) {
+        Py_INCREF(lo[i].tgt);
+        PyTuple_SET_ITEM(referrers, i, lo[i].tgt);
+    }
+    for (i = 0; i < size; i++) {
+        PyObject *tgt = PyTuple_GET_ITEM(referrers, i);
+        if (tgt == Py_None)
             continue;
-        kind = self->cli->def->classify(self->cli->self, cur->tgt);
+        kind = self->cli->def->classify(self->cli->self, tgt);
         if (!kind)
             goto Err;
         if (NyNodeSet_setobj(Ri, kind) == -1)
             goto Err;
         Py_CLEAR(kind);
     }
+    Py_CLEAR(referrers);
     if (NyNodeSet_be_immutable(&Ri) == -1)
       goto Err;
     kind = hv_cli_rcs_fast_memoized_kind(self, (PyObject *)Ri);
@@ -128,6 +141,7 @@ hv_cli_rcs_classify(RetclasetObject * self, PyObject *obj)
 
 Err:
     Py_XDECREF(kind);
+    Py_XDECREF(referrers);
     Py_XDECREF(Ri);
     return 0;
 }
diff --git a/src/heapy/hv_cli_rel.c b/src/heapy/hv_cli_rel.c
index 90ec158..9943b0e 100644
--- a/src/heapy/hv_cli_rel.c
+++ b/src/heapy/hv_cli_rel.c
@@ -295,8 +295,10 @@ ret:
 static PyObject *
 hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
 {
-    NyNodeGraphEdge *lo, *hi, *cur;
+    NyNodeGraphEdge *lo, *hi;
     PyObject *result;
+    PyObject *referrers = 0;
+    Py_ssize_t i, size;
     ExtraType *xt;
     hv_cli_inrel_visit_arg crva;
     crva.hr.flags = 0;
@@ -315,10 +317,21 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
         goto Err;
     }
 
-    for (cur = lo; cur < hi; cur++) {
-        if (cur->tgt == Py_None)
+    /* The relators may be hashed and compared by arbitrary code that
+       changes the graph. */
+    size = hi - lo;
+    referrers = PyTuple_New(size);
+    if (!referrers)
+        goto Err;
+    for (i = 0; i < size; i++) {
+        Py_INCREF(lo[i].tgt);
+        PyTuple_SET_ITEM(referrers, i, lo[i].tgt);
+    }
+
+    for (i = 0; i < size; i++) {
+        crva.hr.src = PyTuple_GET_ITEM(referrers, i);
+        if (crva.hr.src == Py_None)
             continue;
-        crva.hr.src = cur->tgt;
         xt = hv_extra_type(self->hv, Py_TYPE(crva.hr.src));
         assert (xt->xt_hv == self->hv);
         assert(self->hv == (void *)crva.hr.hv);
@@ -333,6 +346,7 @@ hv_cli_inrel_classify(InRelObject * self, PyObject *obj)
         goto Err;
     result = inrel_fast_memoized_kind(self, (PyObject *)crva.relset);
 Ret:
+    Py_XDECREF(referrers);
     Py_DECREF(crva.relset);
     self->rel->relator = Py_None;
     return result;
-- 
2.43.0


From 2af501d7f647610fee6c5e8497eb64a46376fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 74/80] fix: traversing a frame finds what is on its evaluation
 stack

frame_relate names it already.  (A frame that waits in a call from Python
code to Python code has its stack saved; it was not traversed.)
---
 src/heapy/stdtypes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/heapy/stdtypes.c b/src/heapy/stdtypes.c
index 1ba0e5f..a4ecd9c 100644
--- a/src/heapy/stdtypes.c
+++ b/src/heapy/stdtypes.c
@@ -471,6 +471,11 @@ frame_traverse(NyHeapTraverse *ta) {
     } else {
         for (i = 0; i < co->co_nlocalsplus; i++)
             Py_VISIT(PyStackRef_AsPyObjectBorrow(iv->localsplus[i]));
+#if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION < 14
+        /* The stack; stacktop is -1 where it is not known. */
+        for (i = co->co_nlocalsplus; i < iv->stacktop; i++)
+            Py_VISIT(PyStackRef_AsPyObjectBorrow(iv->localsplus[i]));
+#endif
     }
 
     return 0;
-- 
2.43.0


From 995e337cee2734b6e148c16eb715bd6b0811c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 75/80] fix: a limit frame does not hide the frames of other
 threads

hp.heap() has a limit frame always, so what only the frames of other
threads held was never in the heap.
---
 src/heapy/rootstate.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/heapy/rootstate.c b/src/heapy/rootstate.c
index 238f1ba..85cead6 100644
--- a/src/heapy/rootstate.c
+++ b/src/heapy/rootstate.c
@@ -353,8 +353,7 @@ rootstate_relate(NyHeapRelate *r)
         ts = is->tstate_head;
 #endif
         for (; ts; ts = ts->next) {
-            if ((ts == bts && r->tgt == hv->limitframe) ||
-                    (!hv->limitframe && isframe)) {
+            if (ts == bts && hv->limitframe ? r->tgt == hv->limitframe : isframe) {
                 int frameno = -1;
                 int numframes = 0;
                 PyFrameObject *frame;
@@ -490,7 +489,7 @@ rootstate_traverse(NyHeapTraverse *ta)
         for (; ts; ts = ts->next) {
             if (ts == bts && hv->limitframe) {
                 Py_VISIT(hv->limitframe);
-            } else if (!hv->limitframe) {
+            } else {
 #if PY_MAJOR_VERSION >= 3 && PY_MINOR_VERSION >= 11
                 PyFrameObject *frame = PyThreadState_GetFrame(ts);
                 Py_VISIT(frame);
-- 
2.43.0


From ec7aa559f31832dd69479d52af0214b6a1c8e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 76/80] fix: names of rows in a reference pattern may have
 non-ASCII digits

A row with more than 81 children has one that is called '\u00b2', and one that
is called '\u00b9'; what was below other rows of that name could not be reached.
---
 guppy/heapy/RefPat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/guppy/heapy/RefPat.py b/guppy/heapy/RefPat.py
index 65c9c59..890ae01 100644
--- a/guppy/heapy/RefPat.py
+++ b/guppy/heapy/RefPat.py
@@ -1,3 +1,7 @@
+# Counts are in these digits; others, such as '\u00b2', may stand for a row
+DIGITS = '0123456789'
+
+
 def str_as_atr(s):
     if s == '_':
         return []
@@ -5,10 +9,10 @@ def str_as_atr(s):
     i = 0
     while i < len(s):
         v = s[i]
-        if i + 1 < len(s) and s[i+1].isdigit():
+        if i + 1 < len(s) and s[i+1] in DIGITS:
             n = 0
             i = i + 1
-            while i < len(s) and s[i].isdigit():
+            while i < len(s) and s[i] in DIGITS:
                 n = n * 10 + int(s[i])
                 i += 1
         else:
-- 
2.43.0


From 3f6d412d96b29ed8ab080cf67207dad4857e3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 77/80] fix: brief form of a conjunction had a parenthesis too
 many

---
 guppy/heapy/UniSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/UniSet.py b/guppy/heapy/UniSet.py
index 1aebe76..c630992 100644
--- a/guppy/heapy/UniSet.py
+++ b/guppy/heapy/UniSet.py
@@ -1169,7 +1169,7 @@ class AndFamily(Family):
     def c_get_brief(self, c):
         names = [kind.brief for kind in c.arg]
         # names.sort() ?? I think now I want them in given order.
-        return '(%s)' % ' & '.join(names) + ')'
+        return '(%s)' % ' & '.join(names)
 
     def c_get_ckc(self, a):
         return (
-- 
2.43.0


From fd9484ec24b076b5263516eab812d51a8021d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 78/80] fix: representation of the kind of None was not valid
 Python

---
 guppy/heapy/Classifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index be52d54..ef75743 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1481,7 +1481,8 @@ the object.
     def _get_invtypemod(self):
         invtypemod = {}
         for k, v in list(self.types._module.__dict__.items()):
-            if k.endswith('Type'):
+            # Type.None could not be evaluated
+            if k.endswith('Type') and k != 'NoneType':
                 invtypemod[id(v)] = k[:-4]
         return invtypemod
 
-- 
2.43.0


From 404b682a80b41e565f55c1630f637b5f9c7563da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 79/80] fix: kinds of producers without a line number could not
 be printed

---
 guppy/heapy/Classifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index ef75743..7dc6860 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1209,7 +1209,7 @@ class ProdFamily:
         if a.arg is None:
             return 'unknown'
         else:
-            return '%s:%d' % a.arg
+            return '%s:%s' % a.arg
 
     def c_repr(self, a):
         return '%s(%s)' % (self.classifier.get_reprname(),
-- 
2.43.0


From 44ec143ed86715e677ea52945e19cfb11f37da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:22 +0000
Subject: [PATCH 80/80] fix: representation of kinds of types with spaces or
 dots in the name could not be evaluated

---
 guppy/heapy/Classifiers.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/guppy/heapy/Classifiers.py b/guppy/heapy/Classifiers.py
index 7dc6860..3dd727c 100644
--- a/guppy/heapy/Classifiers.py
+++ b/guppy/heapy/Classifiers.py
@@ -1413,7 +1413,7 @@ the object.
                 raise ValueError(err)
             ty = None
         else:
-            if len(s) != 4:
+            if len(s) < 4:
                 raise ValueError(err)
             if t not in ('type', 'class'):
                 raise ValueError(err)
@@ -1423,19 +1423,15 @@ the object.
                 ty = getattr(self.builtins, t.lower())
             if not isinstance(kind, ty):
                 raise TypeError('%s object expected' % t)
-            if not s[2] == 'at':
+            if not s[-2] == 'at':
                 raise ValueError(err)
-            names = s[1].split('.')
-            if len(names) < 2:
+            # Both names may contain spaces and dots
+            name = ' '.join(s[1:-2])
+            if '.' not in name:
                 raise ValueError(err)
-            modulename = '.'.join(names[:-1])
-            tcname = names[-1]
-            if kind.__module__ != modulename:
+            if name != '%s.%s' % (kind.__module__, kind.__name__):
                 raise ValueError(
-                    'The %s %r has wrong __module__, expected %r.' % (t, kind, modulename))
-            if kind.__name__ != tcname:
-                raise ValueError(
-                    'The %s %r has wrong __name__, expected %r.' % (t, kind, tcname))
+                    'The %s %r has wrong __module__ or __name__, expected %r.' % (t, kind, name))
 
         return kind
 
-- 
2.43.0

