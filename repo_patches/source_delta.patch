From 525d1ae83ac8cae7d27cbb74c1743a7f386832de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 01/86] fix: a recoverable error no longer closes and deletes
 every open data set

---
 aipy/_miriad/mir/bug.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..ca383ba 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -113,8 +113,10 @@ void bug_c(char s,Const char *m)
 
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if(!bug_cleanup){   /* a client that recovers keeps its other data-sets */
+        reentrant = !reentrant;
+        if(reentrant)habort_c();
+    }
 #ifdef vms
 # include ssdef
     lib$stop(SS$_ABORT);
@@ -167,8 +169,10 @@ void bugv_c(char s,Const char *m, ...)
   va_end(ap);
 
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if(!bug_cleanup){   /* a client that recovers keeps its other data-sets */
+        reentrant = !reentrant;
+        if(reentrant)habort_c();
+    }
     if (bug_cleanup) {
         (*bug_cleanup)();       /* call it */
         fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-- 
2.43.0


From ad6e55192dc8b5cc7436e64188dde38ecbec487b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 02/86] fix: clearing a visibility selection also clears the
 limit on records read

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..6405653 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3935,7 +3935,7 @@ private void uvread_init(int tno)
     
 /* Determine the max visibility that the user is interested in. */
 
-  if(uv->select != NULL) uv->maxvis = uvread_maxvis(uv->select);
+  uv->maxvis = (uv->select != NULL ? uvread_maxvis(uv->select) : 0);
 
 }
 /************************************************************************/
-- 
2.43.0


From 48c45c8861406001721b51a72a4460983d77e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 03/86] fix: the first record of a data set always stores its
 time and baseline

---
 aipy/_miriad/mir/uvio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 6405653..908e674 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2034,7 +2034,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
       uv->time->flags |= UVF_NOCHECK;
       if(uv->time->buf == NULL){
 	uv->time->buf = Malloc(sizeof(double));
-	*(double *)(uv->time->buf) = *(preamble+2) + 1000;
+	*(double *)(uv->time->buf) = *(preamble + (uv->flags & UVF_DOW ? 3 : 2)) + 1000;
       }
     }
 
@@ -2043,7 +2043,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
       uv->bl->flags |= UVF_NOCHECK;
       if(uv->bl->buf == NULL){
 	uv->bl->buf = Malloc(sizeof(float));
-	*(float *)(uv->bl->buf) = *(preamble + 3) + 1000;
+	*(float *)(uv->bl->buf) = *(preamble + (uv->flags & UVF_DOW ? 4 : 3)) + 1000;
       }
     }
   }
-- 
2.43.0


From cc365dac7f822b67d0a6db348040c36c1d732530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 04/86] fix: read data sets with more than 127 variables

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 908e674..c0b4674 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1886,7 +1886,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
-- 
2.43.0


From 723cb2fee96f7a2b1ee6094f251d943825e98c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 05/86] fix: UV.write accepts masked arrays that have no mask

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..1edcd18 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -238,7 +238,7 @@ class UV(_miriad.UV):
         if not flags is None: flags = np.logical_not(flags)
         elif len(data.mask.shape) == 0:
             flags = np.ones(data.shape)
-            data = data.unmask()
+            data = data.data
         else:
             flags = np.logical_not(data.mask)
             #data = data.filled(0)
-- 
2.43.0


From ed5b756affc10820e77a5a9caa6a44750cddb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 06/86] fix: UV.read returns only the channels of the record

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 1edcd18..b0cea24 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -220,7 +220,7 @@ class UV(_miriad.UV):
         'raw' causes data and flags to be returned seperately."""
         preamble, data, flags, nread = self.raw_read(self.nchan)
         if nread == 0: raise IOError("No data read")
-        flags = np.logical_not(flags)
+        data, flags = data[:nread], np.logical_not(flags[:nread])
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
     def all(self, raw=False):
-- 
2.43.0


From 8b5d453e26dfa952e2ad77726f9f2655b8a15ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 07/86] fix: read_files accepts a single file name

---
 aipy/miriad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index b0cea24..425dcd1 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -325,7 +325,7 @@ def read_files(filenames, antstr, polstr, decimate=1, decphs=0, verbose=False, r
     from . import scripting, cal
     info = {'lsts':[], 'times':[]}
     data, flgs = {}, {}
-    if type(filenames) == 'str': filenames = [filenames]
+    if isinstance(filenames, str): filenames = [filenames]
     for filename in filenames:
         if verbose: print('   Reading', filename)
         uv = UV(filename)
-- 
2.43.0


From 309fceb39d8ce26793040adc6641f50a65971873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 08/86] fix: integer, short and complex variables keep their
 values

'i' and 'j' array variables were written and read with the wrong element
size, 'c' variables as doubles where miriad stores floats.
---
 aipy/_miriad/miriad_wrap.cpp | 54 +++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..27d06c4 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -241,8 +241,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     case 'a':
         elem_size = 1;
         break;
-    case 'j':
-        elem_size = 2;
+    case 'j': // 16-bit values are held as ints in memory
+        elem_size = 4;
         break;
     case 'i':
         elem_size = 4;
@@ -276,11 +276,11 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'j':
                 uvgetvr_c(self->tno,H_INT2,name,value,length);
                 if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
+                    return PyInt_FromLong((long) ((int *)value)[0]);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
                 CHK_NULL(rv);
                 for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
+                    IND1(rv,i,int) = ((int *)value)[i];
                 return PyArray_Return(rv);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
@@ -289,14 +289,14 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'd':
                 RET_IA(H_DBLE,PyFloat_FromDouble,double,double,NPY_DOUBLE);
             case 'c':
-                if (length == 1) {
-                    uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
-                }
+                uvgetvr_c(self->tno,H_CMPLX,name,value,length);
+                if (length == 1)
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
                 CHK_NULL(rv);
-                uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
+                for (int i=0; i < 2*length; i++)
+                    ((double *)PyArray_DATA(rv))[i] = ((float *)value)[i];
                 return PyArray_Return(rv);
             default:
                 return NULL; /* can't happen with previous switch */
@@ -307,10 +307,18 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-#define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
+// Write an array as contiguous elements of the type that miriad expects
+#define STORE_ARR(npy_type,htype) \
+    st_arr = (PyArrayObject *) PyArray_ContiguousFromAny( \
+        PyArray_TYPE(wr_arr) == npy_type ? wr_val : (cast_arr = PyArray_Cast(wr_arr,npy_type)), \
+        npy_type,1,1); \
+    CHK_NULL(st_arr); \
+    uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(st_arr),DIM(st_arr,0));
+
+#define STORE_IA(npy_type,htype,chk_type,type,pyconverter,npy_store) \
     if (PyArray_Check(wr_val)) { \
-        CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
+        if (TYPE(wr_arr) != npy_store) { CHK_ARRAY_TYPE(wr_arr,npy_type); } \
+        STORE_ARR(npy_store,htype); \
     } else { \
         chk_type(wr_val); \
         ((type *)value)[0] = (type) pyconverter(wr_val); \
@@ -322,7 +330,8 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
     char *st;
     PyObject *wr_val;
-    PyArrayObject *wr_arr=NULL;
+    PyArrayObject *wr_arr=NULL, *st_arr=NULL;
+    PyObject *cast_arr=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
     if (PyArray_Check(wr_val)) {
         wr_arr = (PyArrayObject *) wr_val;
@@ -336,26 +345,25 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                STORE_IA(NPY_LONG,H_INT2,CHK_INT,int,PyInt_AsLong,NPY_INT);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong,NPY_INT);
                 break;
             case 'r':
-                STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
+                STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble,NPY_FLOAT);
                 break;
             case 'd':
-                STORE_IA(NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
+                STORE_IA(NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble,NPY_DOUBLE);
                 break;
             case 'c':
                 if (PyArray_Check(wr_val)) {
                     CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+                    STORE_ARR(NPY_CFLOAT,H_CMPLX);
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
+                    ((float *)value)[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    ((float *)value)[1] = (float) PyComplex_ImagAsDouble(wr_val);
                     uvputvr_c(self->tno,H_CMPLX,name,value,1);
                 }
                 break;
@@ -363,9 +371,11 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 PyErr_Format(PyExc_ValueError, "unknown UV variable type: %c", type[0]);
                 return NULL;
         }
+        Py_XDECREF(cast_arr); Py_XDECREF(st_arr);
         Py_INCREF(Py_None);
         return Py_None;
     } catch (MiriadError &e) {
+        Py_XDECREF(cast_arr); Py_XDECREF(st_arr);
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
-- 
2.43.0


From 73635ef77f68e465b1cbee80cd1b9a1b5e51269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 09/86] fix: pipe() keeps the uvw, time and baseline that mfunc
 returns

copyvr() copied the input's values over the ones that write() had stored.
---
 aipy/miriad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 425dcd1..c022949 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -265,6 +265,8 @@ class UV(_miriad.UV):
             else:
                 self.vartable[k] = uv.vartable[k]
                 self._wrvr(k, uv.vartable[k], uv[k])
+                # write() stores these from the preamble it is given
+                if k in ('coord','time','baseline'): continue
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
     def pipe(self, uv, mfunc=echo, append2hist='', raw=False):
         """Pipe in data from another UV through the function
-- 
2.43.0


From 967a95577025be6a53ef3882a2e8c77fba88fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 10/86] fix: init_from_uv accepts variables that have no value
 at the first record

---
 aipy/miriad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index c022949..1b07d74 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -264,7 +264,9 @@ class UV(_miriad.UV):
                 self._wrvr(k, uv.vartable[k], override[k])
             else:
                 self.vartable[k] = uv.vartable[k]
-                self._wrvr(k, uv.vartable[k], uv[k])
+                try: val = uv[k]
+                except(RuntimeError): val = None # Has no value yet
+                if not val is None: self._wrvr(k, uv.vartable[k], val)
                 # write() stores these from the preamble it is given
                 if k in ('coord','time','baseline'): continue
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
-- 
2.43.0


From 1484b5b6048611a94af29d3cc27b143bad4ee775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 11/86] fix: text variables and header items keep non-ASCII
 characters

Text was passed on after it had been freed, its length counted characters
instead of bytes, and header items were decoded one byte at a time.
---
 aipy/_common/aipy_compat.h   | 24 +++++++++++-------------
 aipy/_miriad/miriad_wrap.cpp |  2 ++
 aipy/miriad.py               |  9 +++++----
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..3dec121 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,22 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
-static char *
+// The text as UTF-8; it is kept by the string object itself
+static inline char *
 PyString_AsString(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
+    return (char *) PyUnicode_AsUTF8(ob);
+}
 
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+// The number of bytes that PyString_AsString returns
+static inline Py_ssize_t
+PyString_Size(PyObject *ob)
+{
+    Py_ssize_t size = 0;
+    PyUnicode_AsUTF8AndSize(ob, &size);
+    return size;
 }
 #endif
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 27d06c4..fdcf0b9 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -342,6 +342,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                CHK_NULL(st);
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
@@ -518,6 +519,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                CHK_NULL(st);
                 in = PyString_Size(val); // # bytes to write
                 hwriteb_c(item_hdl, st, offset, in, &iostat);
                 CHK_IO(iostat);
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 1b07d74..5084cb7 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,12 +119,13 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
+                if itype == 'a': c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                rv = b''.join(rv)
+                try: rv = str(rv, 'utf-8')
+                except(TypeError): pass
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-- 
2.43.0


From 3d1d6371ff8c2b4d8c8557534c6c9aaf6f4831a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 12/86] fix: copyvr() covers the records that decimation passes
 over

Variables that changed only in a record passed over kept their old value
in the output of pipe().
---
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 18 +++++++++++++++---
 aipy/_miriad/miriad_wrap.cpp |  2 ++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index c318be2..3e8a295 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -206,6 +206,7 @@ void uvclose_c  (int tno);
 void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
+void uvhold_c (int tno, int hold);
 void uvcopyvr_c (int tin, int tout);
 int  uvupdate_c (int tno);
 void uvvarini_c (int tno, int *vhan);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index c0b4674..33fa188 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -465,7 +465,7 @@ typedef struct {
 
 typedef struct {
 	int item;
-	int nvar,saved_nvar,tno,flags,callno,maxvis,mark;
+	int nvar,saved_nvar,tno,flags,callno,maxvis,mark,hold;
         off64_t offset, max_offset;
 	int presize,gflag;
 	FLAGS corr_flags,wcorr_flags;
@@ -1056,6 +1056,7 @@ private UV *uv_getuv(int tno)
   uv->callno	= 0;
   uv->maxvis	= 0;
   uv->mark	= 0;
+  uv->hold	= 0;
   uv->select    = NULL;
   uv->need_skyfreq = uv->need_point = uv->need_planet = FALSE;
   uv->need_pol	   = uv->need_on    = uv->need_uvw    = FALSE;
@@ -1337,6 +1338,15 @@ void uvrewind_c(int tno)
   uv->wcorr_flags.offset = 0;
 }
 /************************************************************************/
+void uvhold_c(int tno,int hold)
+/*
+  While hold is set, the variables updated by a call to uvread add to those
+  updated by the call before it, which passed over its record.
+------------------------------------------------------------------------*/
+{
+  uvs[tno]->hold = hold;
+}
+/************************************************************************/
 void uvcopyvr_c(int tin,int tout)
 /**uvcopyvr -- Copy variables from one uv file to another.		*/
 /*&rjs                                                                  */
@@ -2842,8 +2852,10 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
 
   *nread = 0;
   more = TRUE;
-  uv->mark = uv->callno + 1;
-  uv->flags &= ~(UVF_UPDATED | UVF_COPY);
+  if(!uv->hold){
+    uv->mark = uv->callno + 1;
+    uv->flags &= ~(UVF_UPDATED | UVF_COPY);
+  }
 
 /* Scan the input data stream, and do any selection necessary. */
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index fdcf0b9..1f92700 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -105,6 +105,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     CHK_NULL(data);
     flags = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_INT);
     CHK_NULL(flags);
+    uvhold_c(self->tno, 0);
     while (1) {
         // Here is the MIRIAD call
         try {
@@ -121,6 +122,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
         if ((self->intcnt-self->decphase) % self->decimate == 0 || nread==0) {
             break;
         }
+        uvhold_c(self->tno, 1); // copyvr() covers the records passed over
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     npy_intp uvw_dims[1] = {3};
-- 
2.43.0


From 79dd09489fedf67dd9f5ea81585e312f252f3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 13/86] fix: a rejected antenna selection leaves the selection
 as it was

---
 aipy/_miriad/mir/uvio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 33fa188..a72719e 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2510,14 +2510,14 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 /* Antennae and baseline selection. */
 
   } else if(!strcmp(object,"antennae")){
-    if(!sel->selants){
-      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
-      sel->selants = TRUE;
-    }
     i1 = max(p1, p2) + 0.5;
     i2 = min(p1, p2) + 0.5;
     if(i1 < 0 || i1 > MAXANT) ERROR('f',(message,"bad antennae %d",i1));
     if(i2 < 0 || i2 > MAXANT) ERROR('f',(message,"bad antennae %d",i2));
+    if(!sel->selants){
+      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
+      sel->selants = TRUE;
+    }
     if(i1 == 0){
       for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = discard;
     } else if(i2 == 0){
-- 
2.43.0


From 7a0c5536f96ecb8a3e0ec155ce000644b59100c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 14/86] fix: clearing the selection also clears the variables
 it needed

A selection on a variable that the data set lacks made every later read
fail, also after the selection was cleared.
---
 aipy/_miriad/mir/uvio.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index a72719e..535e157 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2313,6 +2313,11 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
   if(!strcmp(object,"clear")){
     uv_free_select(uv->select);
     uv->select = NULL;
+    uv->need_point = uv->need_dra  = uv->need_ddec  = FALSE;
+    uv->need_ra    = uv->need_dec  = uv->need_pol   = FALSE;
+    uv->need_on    = uv->need_src  = uv->need_win   = FALSE;
+    uv->need_bin   = uv->need_lst  = uv->need_elev  = FALSE;
+    uv->need_obsra = uv->need_dazim = uv->need_delev = FALSE;
     return;
   }
 
-- 
2.43.0


From be803599a0b597458353dce2f843e08e87dae838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 15/86] fix: reading again after a selection variable was
 missing does not crash

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 535e157..ced363d 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3729,7 +3729,6 @@ private void uvread_init(int tno)
   int n_win,n_or;
 
   uv = uvs[tno];
-  uv->flags |= UVF_INIT;
 
 /* Open the flagging file, if it is needed. */
 
@@ -3954,6 +3953,7 @@ private void uvread_init(int tno)
 
   uv->maxvis = (uv->select != NULL ? uvread_maxvis(uv->select) : 0);
 
+  uv->flags |= UVF_INIT;
 }
 /************************************************************************/
 private int uvread_maxvis(SELECT *sel)
-- 
2.43.0


From c0185fb890d84ef067de77eb5a02942c65197454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 16/86] fix: selecting a decimation of zero raises instead of
 crashing

---
 aipy/_miriad/miriad_wrap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 1f92700..44e94c9 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -391,6 +391,10 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     int include;
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
     if (strncmp(name,"decimation",5) == 0) {
+        if ((long) n1 < 1) {
+            PyErr_Format(PyExc_ValueError, "can only decimate by 1 or more");
+            return NULL;
+        }
         self->decimate = (long) n1;
         self->decphase = (long) n2;
     } else {
-- 
2.43.0


From 3a3897b808629b5ddabd47c78c304816808751b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 17/86] fix: writing to a data set that is open for reading
 raises

It put the value in the read buffer, and closing the data set aborted the
process.
---
 aipy/_miriad/miriad_wrap.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 44e94c9..6c71a26 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -17,6 +17,7 @@
 typedef struct {
     PyObject_HEAD
     int tno;
+    int writable;
     long decimate;
     long decphase;
     long intcnt;
@@ -46,6 +47,7 @@ void error_handler(void) {
 static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
     char *name=NULL, *status=NULL, *corrmode=NULL;
     self->tno = -1;
+    self->writable = 0;
     self->decimate = 1;
     self->decphase = 0;
     self->intcnt = -1;
@@ -58,6 +60,7 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
             PyErr_Format(PyExc_ValueError, "UV corrmode must be 'r' or 'j' (got '%c')", corrmode[0]);
             return -1;
     }
+    self->writable = strcmp(status,"old") != 0;
     // Setup an error handler so MIRIAD doesn't just exit
     bugrecover_c(error_handler);
     try {
@@ -81,6 +84,11 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
            |__/
 */
 
+#define CHK_WRITABLE(self) \
+    if (!self->writable) { \
+        PyErr_Format(PyExc_RuntimeError, "data set is open for reading only"); \
+        return NULL; }
+
 // Thin wrapper over uvrewind_c
 PyObject * UVObject_rewind(UVObject *self) {
     uvrewind_c(self->tno);
@@ -152,6 +160,7 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "(O!d(ii))O!O!",
         &PyArray_Type, &uvw, &t, &i, &j,
         &PyArray_Type, &data, &PyArray_Type, &flags)) return NULL;
+    CHK_WRITABLE(self);
     if (RANK(uvw) != 1 || DIM(uvw,0) != 3) {
         PyErr_Format(PyExc_ValueError, "uvw must have shape (3,) %d", RANK(uvw));
         return NULL;
@@ -190,6 +199,7 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
 PyObject * UVObject_copyvr(UVObject *self, PyObject *args) {
     UVObject *uv;
     if (!PyArg_ParseTuple(args, "O!", &UVType, &uv)) return NULL;
+    CHK_WRITABLE(self);
     try {
         uvcopyvr_c(uv->tno, self->tno);
     } catch (MiriadError &e) {
@@ -335,6 +345,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     PyArrayObject *wr_arr=NULL, *st_arr=NULL;
     PyObject *cast_arr=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
+    CHK_WRITABLE(self);
     if (PyArray_Check(wr_val)) {
         wr_arr = (PyArrayObject *) wr_val;
         CHK_ARRAY_RANK(wr_arr,1);
-- 
2.43.0


From 01cb66491a27647b693af39b13f0b0c7c6efaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 18/86] fix: an error while a data set is closed does not abort
 the process

---
 aipy/_miriad/miriad_wrap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 6c71a26..9ceb774 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -26,7 +26,10 @@ typedef struct {
 
 // Deallocate memory when Python object is deleted
 static void UVObject_dealloc(UVObject *self) {
-    if (self->tno != -1) uvclose_c(self->tno);
+    if (self->tno != -1) {
+        try { uvclose_c(self->tno); }
+        catch (MiriadError &e) {} // a destructor cannot raise
+    }
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
-- 
2.43.0


From 1955ebf19605f2a48c9d94d77b97e6248b7cf2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 19/86] fix: failing to open a directory that has no
 visibilities frees its handle

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index ced363d..00c5e30 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -742,6 +742,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
     CHECK(iostat,(message,"Error opening %s, in UVOPEN(old)",name));
     uv = uv_getuv(*tno);
     haccess_c(*tno,&uv->item,"visdata","read",&iostat);
+    if(iostat){ uv_freeuv(uv); uvs[*tno] = NULL; hclose_c(*tno); }
     CHECK(iostat,(message,"Error accessing visdata for %s, in UVOPEN(old)",name));
 #ifdef MIR4
     /* figure out if to read old MIR3 or new MIR4 */
-- 
2.43.0


From e9a3c4bd3aec4a480ab368f94925e6ece0c52f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 20/86] fix: a variable of a data set being written reads back
 as last set

After several changes uvputvr stopped keeping the value that uvgetvr
returns, so uv[name] gave an earlier value, or bytes past its end.
---
 aipy/_miriad/mir/uvio.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 00c5e30..61cfd56 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1744,8 +1744,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
     uv->offset += UV_ALIGN;
-    if( !(v->flags & UVF_NOCHECK) )
-      v->buf = Realloc(v->buf,n*internal_size[type]);
+    v->buf = Realloc(v->buf,n*internal_size[type]);
   }
 
 /* Check if this variable has really changed.  */
@@ -1772,12 +1771,10 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
     uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
-    if(v->callno++ > CHECK_THRESH) {
-      v->flags |= UVF_NOCHECK;
-    } else if(!(v->flags & UVF_NOCHECK)){
-      length = internal_size[type] * n;
-      memcpy(v->buf,data,length);
-    } 
+    if(v->callno++ > CHECK_THRESH) v->flags |= UVF_NOCHECK;
+/* UVGETVR gives the value from the buffer, checked or not. */
+    length = internal_size[type] * n;
+    memcpy(v->buf,data,length);
   } else {
     v->callno = 0;
   }
-- 
2.43.0


From de07f1784002fd522f2f6efb46105658e826dd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 21/86] fix: uv_selector applies the polarization when all
 antennas are selected

---
 aipy/scripting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 2143787..660de6b 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -111,6 +111,8 @@ def uv_selector(uv, ants=-1, pol_str=-1):
     string for polarization ('xx','yy','xy','yx')."""
     if ants != -1:
         if type(ants) == str: ants = parse_ants(ants, uv['nants'])
+        if len(ants) == 0: ants = -1 # 'all' leaves only the polarization
+    if ants != -1:
         for cnt,(bl,include,pol) in enumerate(ants):
             if cnt > 0:
                 if include: uv.select('or',-1,-1)
-- 
2.43.0


From 964693a048f4098facff4c898d82f8a20255509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 22/86] fix: parse_ants keeps each polarization with its
 antenna

'2x_1y' named baseline 1_2 with polarization xy, that is 1x_2y.
---
 aipy/scripting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 660de6b..5370b79 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -97,6 +97,8 @@ def parse_ants(ant_str, nants):
                     elif not i.isdigit() and not j.isdigit():
                         pol = [ai[1]+aj[1]]
                     if not pol is None:
+                        # Baselines are ordered, so keep each pol with its antenna
+                        if int(ai[0]) > int(aj[0]): pol = [p[::-1] for p in pol]
                         bl = miriad.ij2bl(abs(int(ai[0])),abs(int(aj[0])))
                         for p in pol:
                             rv.append((bl,include,p))
-- 
2.43.0


From 15218f40ecde5f739abcf3f04784991a7a0b6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 23/86] fix: lists of one or no parameters survive flattening
 and reconstruction

---
 aipy/fit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..7ad8b91 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -32,7 +32,8 @@ def flatten_prms(prms, prm_list=None):
                 key_list[k] = (len(prm_list), len(prms[k]))
                 prm_list += list(prms[k])
             except(TypeError):
-                key_list[k] = (len(prm_list), 1)
+                # scalars have no length
+                key_list[k] = (len(prm_list), None)
                 prm_list.append(prms[k])
     return prm_list, key_list
 
@@ -45,8 +46,8 @@ def reconstruct_prms(prm_list, key_list):
         if type(v) == dict: prms[k] = reconstruct_prms(prm_list, v)
         else:
             i, L = v
-            if L > 1: prms[k] = prm_list[i:i+L]
-            else: prms[k] = prm_list[i]
+            if L is None: prms[k] = prm_list[i]
+            else: prms[k] = prm_list[i:i+L]
     return prms
 
 def print_params(prms, indent='', grad=None):
-- 
2.43.0


From 467c70dcb5ea1fb52ec09005ae1654c01b51e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 24/86] fix: BeamAlm.get_params numbers coefficients as
 set_params does

---
 aipy/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 7ad8b91..8016c30 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -272,7 +272,8 @@ class BeamAlm(amp.BeamAlm):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
         for i, a in enumerate(self.alm):
-            k = 'alm%d' % i
+            # same numbering as in set_params: term i is the i-th power of freq
+            k = 'alm%d' % (len(self.alm) - 1 - i)
             data = a.get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
         prms = {}
-- 
2.43.0


From 05c2b479e0fb259024bfabd804ae460a7301fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 25/86] fix: BeamPolynomial.set_params takes lists and leaves
 the caller's array alone

---
 aipy/fit.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 8016c30..f420386 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -256,9 +256,8 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
-            poly_azfreq.shape = self.poly.shape
-            self.poly = poly_azfreq
+            poly_azfreq = np.array(prms['bm_poly'])
+            self.poly = poly_azfreq.reshape(self.poly.shape)
             changed = True
         except(KeyError): pass
         if changed: self.update()
-- 
2.43.0


From fd31b3cd47a1a9fdbd9b6b3a4219220150ae4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 26/86] fix: pol.Antenna.set_params sets the imaginary passband

---
 aipy/pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..b4cf22b 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -123,7 +123,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = prms['bp_i_'+p], True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 7048799243415fee6148eb4ce287773fe724beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 27/86] fix: antennas do not share their phase offset
 coefficients

---
 aipy/phs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..f8e6e42 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -4,7 +4,7 @@ phasing information.
 """
 from __future__ import print_function, division, absolute_import
 
-import ephem, math, numpy as np
+import copy, ephem, math, numpy as np
 from . import coord
 from . import const
 from .miriad import ij2bl, bl2ij
@@ -195,7 +195,8 @@ class Antenna:
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
-        self._phsoff = phsoff
+        # a copy, so that antennas do not share (default) coefficients
+        self._phsoff = copy.deepcopy(phsoff)
         self._update_phsoff()
     def select_chans(self, active_chans=None):
         """Select only the specified channels for use in future calculations."""
-- 
2.43.0


From 42af2041d7fccd2585a62c43e7f32076cb9bbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 28/86] fix: RadioFixedBody.set_params sets mfreq, which
 get_params returns

---
 aipy/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/fit.py b/aipy/fit.py
index f420386..ed0d2fe 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -132,6 +132,8 @@ class RadioFixedBody(amp.RadioFixedBody):
         except(KeyError): pass
         try: self.ionref[1] = prms['ddec']
         except(KeyError): pass
+        try: self.mfreq = prms['mfreq']
+        except(KeyError): pass
 
 #  ____           _ _      ____                  _       _
 # |  _ \ __ _  __| (_) ___/ ___| _ __   ___  ___(_) __ _| |
-- 
2.43.0


From c0403a07ff5f7d7ad01b4a6d02fca266d3136a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 29/86] fix: get_aa and get_catalog import calibration modules

---
 aipy/cal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index b763540..caaaad7 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -5,6 +5,7 @@ modules.
 
 from __future__ import print_function, division, absolute_import
 
+import importlib
 import numpy as np
 import os
 import sys
@@ -26,7 +27,7 @@ def get_aa(*args):
         cal_key,sdf,sfreq,nchan = args
         freqs = get_freqs(sdf, sfreq, nchan)
     sys.path.append(os.getcwd())
-    exec('from %s import get_aa as _get_aa' % cal_key)
+    _get_aa = importlib.import_module(cal_key).get_aa
     return _get_aa(freqs)
 
 def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
@@ -38,6 +39,8 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     specified srcs, cutoff.  If no such function is found, src.get_catalog()
     is called instead.'''
     sys.path.append(os.getcwd())
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key)
-    except(ImportError): _get_catalog = src.get_catalog
+    _get_catalog = src.get_catalog
+    if cal_key is not None:
+        try: _get_catalog = importlib.import_module(cal_key).get_catalog
+        except(ImportError, AttributeError): pass
     return _get_catalog(srcs=srcs, cutoff=cutoff, catalogs=catalogs)
-- 
2.43.0


From 2e281371d08d26b802c20c3da1402aadb9b32bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 30/86] fix: Helmboldt sources return all parameters by default

---
 aipy/_src/helm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f19d5ba..0c335cf 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -20,7 +20,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
         self.jys = 10**(A + B*X + C*np.exp(D*X))
-    def get_params(self, prm_list=None):
+    def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {
             'jys':      float(self._jys),
-- 
2.43.0


From 998dfc9d63024015a3b6ed8d1626fc445c1258b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 31/86] fix: phase offsets that get_params returned do not
 change with the antenna

---
 aipy/fit.py | 4 ++--
 aipy/pol.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index ed0d2fe..c473eff 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -310,7 +310,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
@@ -335,7 +335,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
         try: self.bp_r, changed = prms['bp_r'], True
         except(KeyError): pass
diff --git a/aipy/pol.py b/aipy/pol.py
index b4cf22b..e7392db 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
@@ -119,7 +119,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-- 
2.43.0


From e2e98e71eb5a3d9706e441fbc8bde1a18dbc9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 32/86] fix: SrcCatalog.get_srcs without arguments returns all
 sources

---
 aipy/phs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index f8e6e42..51e7820 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -137,9 +137,8 @@ class SrcCatalog(dict):
     def get_srcs(self, *srcs):
         """Return list of all src objects in catalog."""
         if len(srcs) == 0: srcs = self.keys()
-        elif len(srcs) == 1 and type(srcs[0]) != str:
-            return [self[s] for s in srcs[0]]
-        else: return [self[s] for s in srcs]
+        elif len(srcs) == 1 and type(srcs[0]) != str: srcs = srcs[0]
+        return [self[s] for s in srcs]
     def compute(self, observer):
         """Call compute method of all objects in catalog."""
         for s in self: self[s].compute(observer)
-- 
2.43.0


From 2c10f9a0f90d31974b8535884a0f385a91246cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 33/86] fix: several sources are simulated on a single channel

---
 aipy/phs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 51e7820..3bb1dd4 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -351,7 +351,8 @@ class AntennaArray(ArrayLocation):
             if srcshape is None:
                 try: srcshape = src.srcshape
                 except(AttributeError): pass
-            if not srcshape is None: phs *= self.resolve_src(u, v, srcshape=srcshape)
+            if not srcshape is None:
+                phs *= np.reshape(self.resolve_src(u, v, srcshape=srcshape), phs.shape)
         return phs.squeeze()
     def resolve_src(self, u, v, srcshape=(0,0,0)):
         """Adjust amplitudes to reflect resolution effects for a uniform
-- 
2.43.0


From 59e49ac65cd1e407a99a446dcff790cb5eb44d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 34/86] fix: a source catalog whose file could not be read is
 not taken for an empty one

---
 aipy/_src/culgoora.py | 5 +++--
 aipy/_src/four_c.py   | 5 +++--
 aipy/_src/gbsix.py    | 5 +++--
 aipy/_src/helm.py     | 5 +++--
 aipy/_src/mrt.py      | 5 +++--
 aipy/_src/nvss.py     | 5 +++--
 aipy/_src/paper.py    | 5 +++--
 aipy/_src/parkes.py   | 5 +++--
 aipy/_src/seven_c.py  | 5 +++--
 aipy/_src/six_c.py    | 5 +++--
 aipy/_src/three_c.py  | 5 +++--
 aipy/_src/three_cr.py | 5 +++--
 aipy/_src/txs.py      | 5 +++--
 aipy/_src/vlss.py     | 5 +++--
 aipy/_src/wenss.py    | 5 +++--
 15 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/aipy/_src/culgoora.py b/aipy/_src/culgoora.py
index ce14442..dd55619 100644
--- a/aipy/_src/culgoora.py
+++ b/aipy/_src/culgoora.py
@@ -70,8 +70,9 @@ _culgooracat = None
 def get_srcs(srcs=None, cutoff=None):
     global _culgooracat
     if _culgooracat is None:
-        _culgooracat = CulgooraCatalog()
-        _culgooracat.fromfile(CULGOORAFILE)
+        cat = CulgooraCatalog()
+        cat.fromfile(CULGOORAFILE)
+        _culgooracat = cat
     if srcs is None:
         if cutoff is None: srcs = _culgooracat.keys()
         else:
diff --git a/aipy/_src/four_c.py b/aipy/_src/four_c.py
index d2d94f8..437b879 100644
--- a/aipy/_src/four_c.py
+++ b/aipy/_src/four_c.py
@@ -41,8 +41,9 @@ _fourccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _fourccat
     if _fourccat is None:
-        _fourccat = FourCCatalog()
-        _fourccat.fromfile(FOURCFILE)
+        cat = FourCCatalog()
+        cat.fromfile(FOURCFILE)
+        _fourccat = cat
     if srcs is None:
         if cutoff is None: srcs = _fourccat.keys()
         else:
diff --git a/aipy/_src/gbsix.py b/aipy/_src/gbsix.py
index 08e107b..ff5a1e7 100644
--- a/aipy/_src/gbsix.py
+++ b/aipy/_src/gbsix.py
@@ -40,8 +40,9 @@ _gbsixcat = None
 def get_srcs(srcs=None, cutoff=None):
     global _gbsixcat
     if _gbsixcat is None:
-        _gbsixcat = GBSixCatalog()
-        _gbsixcat.fromfile(GBSIXFILE)
+        cat = GBSixCatalog()
+        cat.fromfile(GBSIXFILE)
+        _gbsixcat = cat
     if srcs is None:
         if cutoff is None: srcs = _gbsixcat.keys()
         else:
diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index 0c335cf..f3bcff8 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -114,8 +114,9 @@ def get_srcs(srcs=None, cutoff=None):
     # Mechanism for delaying instantiation of catalog until it is accessed
     global _helmcat
     if _helmcat is None:
-        _helmcat = HelmboldtCatalog()
-        _helmcat.fromfile(POSFILE, FITFILE)
+        cat = HelmboldtCatalog()
+        cat.fromfile(POSFILE, FITFILE)
+        _helmcat = cat
     if srcs is None:
         if cutoff is None: srcs = _helmcat.keys()
         else:
diff --git a/aipy/_src/mrt.py b/aipy/_src/mrt.py
index cf4369f..10ae872 100644
--- a/aipy/_src/mrt.py
+++ b/aipy/_src/mrt.py
@@ -31,8 +31,9 @@ def get_srcs(srcs=None, cutoff=None):
     # Mechanism for delaying instantiation of catalog until it is accessed
     global _mrtcat
     if _mrtcat is None:
-        _mrtcat = MRTCatalog()
-        _mrtcat.fromfile(MRTFILE)
+        cat = MRTCatalog()
+        cat.fromfile(MRTFILE)
+        _mrtcat = cat
     if srcs is None:
         if cutoff is None: srcs = _mrtcat.keys()
         else:
diff --git a/aipy/_src/nvss.py b/aipy/_src/nvss.py
index 4f5ce97..c8c9685 100644
--- a/aipy/_src/nvss.py
+++ b/aipy/_src/nvss.py
@@ -41,8 +41,9 @@ _nvsscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _nvsscat
     if _nvsscat is None:
-        _nvsscat = NVSSCatalog()
-        _nvsscat.fromfile(NVSSFILE)
+        cat = NVSSCatalog()
+        cat.fromfile(NVSSFILE)
+        _nvsscat = cat
     if srcs is None:
         if cutoff is None: srcs = _nvsscat.keys()
         else:
diff --git a/aipy/_src/paper.py b/aipy/_src/paper.py
index 716efc0..7dac393 100644
--- a/aipy/_src/paper.py
+++ b/aipy/_src/paper.py
@@ -34,8 +34,9 @@ _papercat = None
 def get_srcs(srcs=None, cutoff=None):
     global _papercat
     if _papercat is None:
-        _papercat = PAPERCatalog()
-        _papercat.fromfile(PAPERFILE)
+        cat = PAPERCatalog()
+        cat.fromfile(PAPERFILE)
+        _papercat = cat
     if srcs is None:
         if cutoff is None: srcs = _papercat.keys()
         else:
diff --git a/aipy/_src/parkes.py b/aipy/_src/parkes.py
index b6b8e6b..157e6d1 100644
--- a/aipy/_src/parkes.py
+++ b/aipy/_src/parkes.py
@@ -42,8 +42,9 @@ _parkescat = None
 def get_srcs(srcs=None, cutoff=None):
     global _parkescat
     if _parkescat is None:
-        _parkescat = ParkesCatalog()
-        _parkescat.fromfile(PARKESFILE)
+        cat = ParkesCatalog()
+        cat.fromfile(PARKESFILE)
+        _parkescat = cat
     if srcs is None:
         if cutoff is None: srcs = _parkescat.keys()
         else:
diff --git a/aipy/_src/seven_c.py b/aipy/_src/seven_c.py
index 39e5929..39fac83 100644
--- a/aipy/_src/seven_c.py
+++ b/aipy/_src/seven_c.py
@@ -41,8 +41,9 @@ _sevenccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _sevenccat
     if _sevenccat is None:
-        _sevenccat = SevenCCatalog()
-        _sevenccat.fromfile(SEVENCFILE)
+        cat = SevenCCatalog()
+        cat.fromfile(SEVENCFILE)
+        _sevenccat = cat
     if srcs is None:
         if cutoff is None: srcs = _sevenccat.keys()
         else:
diff --git a/aipy/_src/six_c.py b/aipy/_src/six_c.py
index da01330..71fe693 100644
--- a/aipy/_src/six_c.py
+++ b/aipy/_src/six_c.py
@@ -43,8 +43,9 @@ _sixccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _sixccat
     if _sixccat is None:
-        _sixccat = SixCCatalog()
-        for f in SIXCFILES: _sixccat.fromfile(f)
+        cat = SixCCatalog()
+        for f in SIXCFILES: cat.fromfile(f)
+        _sixccat = cat
     if srcs is None:
         if cutoff is None: srcs = _sixccat.keys()
         else:
diff --git a/aipy/_src/three_c.py b/aipy/_src/three_c.py
index fe66bc4..0d17388 100644
--- a/aipy/_src/three_c.py
+++ b/aipy/_src/three_c.py
@@ -41,8 +41,9 @@ _threeccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _threeccat
     if _threeccat is None:
-        _threeccat = ThreeCCatalog()
-        _threeccat.fromfile(THREECFILE)
+        cat = ThreeCCatalog()
+        cat.fromfile(THREECFILE)
+        _threeccat = cat
     if srcs is None:
         if cutoff is None: srcs = _threeccat.keys()
         else:
diff --git a/aipy/_src/three_cr.py b/aipy/_src/three_cr.py
index d8bf1ee..72d414d 100644
--- a/aipy/_src/three_cr.py
+++ b/aipy/_src/three_cr.py
@@ -41,8 +41,9 @@ _threecrcat = None
 def get_srcs(srcs=None, cutoff=None):
     global _threecrcat
     if _threecrcat is None:
-        _threecrcat = ThreeCRCatalog()
-        _threecrcat.fromfile(THREECRFILE)
+        cat = ThreeCRCatalog()
+        cat.fromfile(THREECRFILE)
+        _threecrcat = cat
     if srcs is None:
         if cutoff is None: srcs = _threecrcat.keys()
         else:
diff --git a/aipy/_src/txs.py b/aipy/_src/txs.py
index 28c378b..2071671 100644
--- a/aipy/_src/txs.py
+++ b/aipy/_src/txs.py
@@ -43,8 +43,9 @@ _txscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _txscat
     if _txscat is None:
-        _txscat = TXSCatalog()
-        _txscat.fromfile(TXSFILE)
+        cat = TXSCatalog()
+        cat.fromfile(TXSFILE)
+        _txscat = cat
     if srcs is None:
         if cutoff is None: srcs = _txscat.keys()
         else:
diff --git a/aipy/_src/vlss.py b/aipy/_src/vlss.py
index b5bcaba..3034546 100644
--- a/aipy/_src/vlss.py
+++ b/aipy/_src/vlss.py
@@ -41,8 +41,9 @@ _vlsscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _vlsscat
     if _vlsscat is None:
-        _vlsscat = VLSSCatalog()
-        _vlsscat.fromfile(VLSSFILE)
+        cat = VLSSCatalog()
+        cat.fromfile(VLSSFILE)
+        _vlsscat = cat
     if srcs is None:
         if cutoff is None: srcs = _vlsscat.keys()
         else:
diff --git a/aipy/_src/wenss.py b/aipy/_src/wenss.py
index df0b763..06ffe06 100644
--- a/aipy/_src/wenss.py
+++ b/aipy/_src/wenss.py
@@ -41,8 +41,9 @@ _wensscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _wensscat
     if _wensscat is None:
-        _wensscat = WenssCatalog()
-        _wensscat.fromfile(WENSSFILE)
+        cat = WenssCatalog()
+        cat.fromfile(WENSSFILE)
+        _wensscat = cat
     if srcs is None:
         if cutoff is None: srcs = _wensscat.keys()
         else:
-- 
2.43.0


From 135e1866e08df34dee2c5f57eeeff1e608d88a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 35/86] fix: a map filled from one of the other ordering keeps
 its own ordering

---
 aipy/healpix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..7e39429 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -276,8 +276,10 @@ class HealpixMap(HealpixBase):
             if hpm.scheme() == self.scheme():
                 self.map = hpm.map.astype(self.get_dtype())
             else:
+                scheme = self.scheme()
                 i = self.nest_ring_conv(np.arange(self.npix()), hpm.scheme())
                 self.map = hpm.map[i].astype(self.get_dtype())
+                self.set_nside_scheme(scheme=scheme)
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-- 
2.43.0


From 0244463349b6b110fcfca27ea5b9b6e925ef91ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 36/86] fix: filling a map from a coarser one leaves the
 interpolation of that one as it was

---
 aipy/healpix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 7e39429..ba7f94a 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -268,6 +268,7 @@ class HealpixMap(HealpixBase):
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
             self[px] = hpm[th,phi].astype(self.get_dtype())
+            hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From bcdf3e1282ffc50bad3d367ce19ca1c0f462b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 37/86] fix: HealpixMap.from_alm does not smooth by the pixel
 window

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index ba7f94a..b9610c6 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -284,7 +284,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()))
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From 3d62b6b91c33fc799e6fe451376d4c4a7d47a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 38/86] fix: maps are written to FITS files

---
 aipy/healpix.py | 18 +++++++++---------
 aipy/map.py     |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index b9610c6..34043ad 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -303,15 +303,15 @@ class HealpixMap(HealpixBase):
         scheme= hdu.header['ORDERING'][:4]
         self.set_map(data, scheme=scheme)
     def _set_fits_header(self, hdr):
-        hdr.update('PIXTYPE', 'HEALPIX', 'HEALPIX pixelisation')
+        hdr['PIXTYPE'] = ('HEALPIX', 'HEALPIX pixelisation')
         scheme = self.scheme()
-        if scheme == 'NEST': scheme == 'NESTED'
-        hdr.update('ORDERING', scheme,
+        if scheme == 'NEST': scheme = 'NESTED'
+        hdr['ORDERING'] = (scheme,
             'Pixel ordering scheme, either RING or NESTED')
-        hdr.update('NSIDE', self.nside(), 'Resolution parameter for HEALPIX')
-        hdr.update('FIRSTPIX', 0, "First pixel # (0 based)")
-        hdr.update('LASTPIX', self.npix()-1, "Last pixel # (0 based)")
-        hdr.update('INDXSCHM', 'IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
+        hdr['NSIDE'] = (self.nside(), 'Resolution parameter for HEALPIX')
+        hdr['FIRSTPIX'] = (0, "First pixel # (0 based)")
+        hdr['LASTPIX'] = (self.npix()-1, "Last pixel # (0 based)")
+        hdr['INDXSCHM'] = ('IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
     def get_dtype(self):
         return self.map.dtype
     def to_fits(self, filename, format=None, clobber=True):
@@ -323,7 +323,7 @@ class HealpixMap(HealpixBase):
         hdu0 = pyfits.PrimaryHDU()
         col0 = pyfits.Column(name='signal', format=format, array=self.map)
         cols = pyfits.ColDefs([col0])
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
-        hdulist.writeto(filename,clobber=clobber)
+        hdulist.writeto(filename,overwrite=clobber)
diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..62a97f0 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -151,7 +151,7 @@ class Map(object):
         col_inds = [pyfits.Column(name='sp_index%d'%n,format=format,array=i.map)
             for n,i in enumerate(self.ind)]
         cols = pyfits.ColDefs([col0, col1] + col_inds)
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self.map._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
         if history!='':
@@ -164,4 +164,4 @@ class Map(object):
                     else:
                         for subline in img.word_wrap(line,70,5,10,'#').split("\n"):
                             hdulist[0].header.add_history(subline)
-        hdulist.writeto(filename, clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
-- 
2.43.0


From b5228f3820d69ed47a712f96bb799eaa0c53e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 39/86] fix: adding to a map at repeated coordinates counts
 what is there once

---
 aipy/map.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 62a97f0..83fdd27 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -99,9 +99,15 @@ class Map(object):
         if len(ind) == 0: return fluxes
         return (fluxes, ind)
     def add(self, crds, wgts, fluxes, inds=[]):
-        self.wgt[crds] += wgts
-        self.map[crds] += fluxes * wgts
-        for n,i in enumerate(inds): self.ind[n][crds] += i * wgts
+        # Repeated coordinates each add to what is there, which is counted once
+        def accumulate(hpm, vals):
+            new = healpix.HealpixMap(hpm.nside(), hpm.scheme(),
+                dtype=hpm.get_dtype())
+            new[crds] = vals + np.zeros_like(hpm[crds])
+            hpm.map = hpm.map + new.map
+        accumulate(self.wgt, wgts)
+        accumulate(self.map, fluxes * wgts)
+        for n,i in enumerate(inds): accumulate(self.ind[n], i * wgts)
     def put(self, crds, wgts, fluxes, inds=[]):
         self.wgt[crds] = wgts
         self.map[crds] = fluxes * wgts
-- 
2.43.0


From 36e77768ef4a58bb8e09f9763c874b1033e04894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 40/86] fix: clean ends when the residual no longer changes
 (stop_if_div=False)

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..710c71e 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -136,7 +136,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -231,7 +231,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -350,7 +350,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -463,7 +463,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
-- 
2.43.0


From a42861cec77126de89e69c04096f9bfc6d1a393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 41/86] fix: clean finds the gain of the kernel wherever its
 area is

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 710c71e..f181818 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -70,7 +70,7 @@ template<typename T> struct Clean {
             for (int n2=0; n2 < dim2; n2++) {
                 val = IND2(ker,n1,n2,T);
                 mval = val * val;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     q = val;
                 }
@@ -176,7 +176,7 @@ template<typename T> struct Clean {
         for (int n=0; n < dim; n++) {
             val = IND1(ker,n,T);
             mval = val * val;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 q = val;
             }
@@ -273,7 +273,7 @@ template<typename T> struct Clean {
                 valr = CIND2R(ker,n1,n2,T);
                 vali = CIND2I(ker,n1,n2,T);
                 mval = valr * valr + vali * vali;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     qr = valr; qi = vali;
                 }
@@ -394,7 +394,7 @@ template<typename T> struct Clean {
             valr = CIND1R(ker,n,T);
             vali = CIND1I(ker,n,T);
             mval = valr * valr + vali * vali;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 qr = valr;
                 qi = vali;
-- 
2.43.0


From 41247fb3af8100932d2685f6774ef4704ab1e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 42/86] fix: clean with pos_def repeats no step when nothing is
 positive

---
 aipy/_deconv/deconv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index f181818..f7c2973 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -82,6 +82,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // Step nowhere if there is nothing to step to
             IND2(mdl,argmax1,argmax2,T) += step;
             // Take next step and compute score
             for (int n1=0; n1 < dim1; n1++) {
@@ -187,6 +188,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // Step nowhere if there is nothing to step to
             IND1(mdl,argmax,T) += step;
             // Take next step and compute score
             for (int n=0; n < dim; n++) {
-- 
2.43.0


From 9714e0ae7c260ec7b1cdb1a220177285c0db7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 43/86] fix: maxent_findvar estimates the variance with a whole
 number of iterations

---
 aipy/deconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..c8fc745 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -208,7 +208,7 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=maxiter//4, lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
-- 
2.43.0


From 0a7069566cf809631b3d69e4f11d819d9180fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 44/86] fix: gridding onto and from planes that are not square

---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From d7ae331bab91f7a82f2df94229ac7003a84e8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 45/86] fix: add2array refuses indices beyond 32 bits

---
 aipy/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..eca0815 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -56,7 +56,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +73,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
-- 
2.43.0


From 4a4646c54b5905affe133163347bc5951365efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 46/86] fix: add2array refuses what is no array

---
 aipy/utils/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index eca0815..1d68ad3 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -93,7 +93,8 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
-- 
2.43.0


From fcf90597c126907b28629c8ebaf5f555bf0acffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 47/86] fix: weights of a single sample are taken as those of
 samples

---
 aipy/img.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..4e0febd 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -128,7 +128,8 @@ class Img:
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         if apply: uv,bm = self.uv,self.bm
         else:
@@ -184,7 +185,8 @@ class Img:
         w = np.concatenate([w, -w], axis=0)
         data = np.concatenate([data, np.conj(data)], axis=0)
         if wgts is None: return np.array((u,v,w)), data
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
         return (u,v,w), data, wgts
@@ -240,7 +242,8 @@ class ImgW(Img):
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         # Sort uvw in order of w
         order = np.argsort(w)
-- 
2.43.0


From 79b6f63a3b4b985ae554e5cc7297f381eebbf7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 48/86] fix: W planes are made anew when samples have been put

---
 aipy/img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/img.py b/aipy/img.py
index 4e0febd..c3ae8a3 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -237,6 +237,7 @@ class ImgW(Img):
         plane before applying the data to the UV matrix."""
         u,v,w = uvw
         if len(u) == 0: return
+        self.wcache = {} # The planes in it are of the old UV matrix
         if wgts is None:
             wgts = []
             for i in range(len(self.bm)):
-- 
2.43.0


From 28efd54637d8406974c3ff3963d436a7105c2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 49/86] fix: ImgW.get at a single place

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index c3ae8a3..4e04b18 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -277,7 +277,7 @@ class ImgW(Img):
     def get(self, uvw):
         u,v,w = uvw
         order = np.argsort(w.flat)
-        u_,v_,w_ = u.take(order).squeeze(), v.take(order).squeeze(), w.take(order).squeeze()
+        u_,v_,w_ = u.take(order), v.take(order), w.take(order)
         sqrt_w = np.sqrt(np.abs(w_)) * np.sign(w_)
         i, d_ = 0, []
         while True:
-- 
2.43.0


From 3b8bc61930fc6e07ad910eaa2dc7af8c96bcbdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 50/86] fix: append_hermitian leaves the list of weights it is
 given

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 4e04b18..c7d20a3 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -188,7 +188,7 @@ class Img:
         if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
             wgts = [wgts]
         assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
-- 
2.43.0


From 355af2cf5c6150a0c3a000c81763cf543ecb714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 51/86] fix: coordinates in masked arrays without a mask

---
 aipy/coord.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/aipy/coord.py b/aipy/coord.py
index d3c3fda..9f25855 100644
--- a/aipy/coord.py
+++ b/aipy/coord.py
@@ -63,11 +63,9 @@ def xyz2thphi(xyz):
     phi = np.arctan2(y, x)
     th = np.arctan2(np.sqrt(x**2+y**2),z)
     if np.ma.isMA(x):
-        try:
-            return np.ma.array([th.filled(0),phi.filled(0)],
-                mask=[x.mask,x.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([th,phi], dtype=np.double)
+        mask = np.ma.getmaskarray(x)
+        return np.ma.array([th.filled(0),phi.filled(0)],
+            mask=[mask,mask], dtype=np.double)
     return np.array([th,phi], dtype=np.double)
 
 def thphi2xyz(th_phi):
@@ -78,11 +76,9 @@ def thphi2xyz(th_phi):
     r = np.sin(th)
     x,y = r*np.cos(phi), r*np.sin(phi)
     if np.ma.isMA(th):
-        try:
-            return np.ma.array([x.filled(),y.filled(),z.filled()],
-                mask=[th.mask, th.mask, th.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([x,y,z], dtype=np.double)
+        mask = np.ma.getmaskarray(th)
+        return np.ma.array([x.filled(),y.filled(),z.filled()],
+            mask=[mask,mask,mask], dtype=np.double)
     return np.array([x,y,z], dtype=np.double)
 
 def eq2radec(xyz):
-- 
2.43.0


From 798544239e38b4fc8c33e64c985e16733b667af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 52/86] fix: facet_centers reverses bits in integers

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 83fdd27..6274b54 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -34,7 +34,7 @@ def _bit_reverse(N, nbits=None):
     if nbits is None: nbits = int(np.floor(np.log2(N))) + 1
     ans = 0
     for bit in range(nbits):
-        ans += np.bitwise_and(N.astype('int64'), 2**bit) * 2**(nbits-2*bit-1)
+        ans += ((N.astype('int64') >> bit) & 1) << (nbits-bit-1)
     return ans
 
 def _bit_reverse_order(N):
-- 
2.43.0


From 46c3db2cc59ad12d0546302dc4b5a786a96c716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 53/86] fix: pack_sphere makes as many longitudes as points

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 6274b54..8e8ded1 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -24,7 +24,7 @@ def pack_sphere(N):
     z = np.arange(-1+dz/2,1, dz)
     r = np.sqrt(1-z**2)
     dL = np.pi * (3 - np.sqrt(5))
-    long = np.arange(0, dL * N, dL)
+    long = dL * np.arange(N)
     return np.array([r*np.cos(long), r*np.sin(long), z])
 
 def _bit_reverse(N, nbits=None):
-- 
2.43.0


From 9778bc061d2eea73a43eafab1a73c8b6fb474c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 54/86] fix: reset_wgt keeps the type of the weights

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 8e8ded1..dd3ff17 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -116,7 +116,7 @@ class Map(object):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
         self.map.map /= w
         for i in self.ind: i.map /= w
-        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
+        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0).astype(w.dtype)
     def from_map(self, map):
         """Initialize this Map with data from another."""
         self.map.from_hpm(map.map)
-- 
2.43.0


From d61302e24acf9d873603239892582753c4e9675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 55/86] fix: pull_ants.py compares numbers of antennae and
 names its option

---
 scripts/pull_ants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pull_ants.py b/scripts/pull_ants.py
index 2d0042c..0693029 100755
--- a/scripts/pull_ants.py
+++ b/scripts/pull_ants.py
@@ -26,7 +26,7 @@ for filename in args:
         print('File exists, skipping')
         continue
 
-    ants2use = opts.ants.split(',')
+    ants2use = [int(ant) for ant in opts.ants.split(',')]
 
     def mfunc(uv,p,d):
         uvw,t,(i,j) = p
@@ -36,7 +36,7 @@ for filename in args:
     uvi = a.miriad.UV(filename)
     uvo = a.miriad.UV(outfile,status='new')
     uvo.init_from_uv(uvi)
-    histstr = 'PULL ANTS: ants='%opts.refant
+    histstr = 'PULL ANTS: ants='
     for ant in ants2use:
         histstr += str(ant)+','
         if ant == ants2use[-1]: histstr += '\n'
-- 
2.43.0


From 8eda4b3ed6bb2f235e63f15a718ce8db336fbb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 56/86] fix: xtalk3.py runs with Python 3

---
 scripts/xtalk3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/xtalk3.py b/scripts/xtalk3.py
index ecdfecb..580e2ab 100755
--- a/scripts/xtalk3.py
+++ b/scripts/xtalk3.py
@@ -36,7 +36,7 @@ opts,args = o.parse_args(sys.argv[1:])
 assert(not opts.infile or not opts.outfile)
 
 if opts.reprocess:
-    chans = map(int, opts.chan.split('_'))
+    chans = list(map(int, opts.chan.split('_')))
     xsum, cnt, gain, times = {}, {}, {}, []
     for filename in args:
         uv = a.miriad.UV(filename)
@@ -51,7 +51,7 @@ if opts.reprocess:
         for bl in xtalk.files:
             dat = np.array(xtalk[bl])
             adat = np.ma.masked_equal(np.abs(dat), 0)
-            if not gain.has_key(bl): gain[bl] = []
+            if not bl in gain: gain[bl] = []
             gain[bl].append(np.average(adat[chans[0]:chans[1]]))
             dat /= gain[bl][-1]
             xsum[bl] = xsum.get(bl, 0) + dat
@@ -87,7 +87,7 @@ for filename in args:
         guess, cnt, xtalk = {}, {}, {}
         for (uvw,t,(i,j)),d,f in uv.all(raw=True):
             bl = str(a.pol.ijp2blp(i,j,uv['pol']))
-            if not guess.has_key(bl): guess[bl], cnt[bl] = 0, 0
+            if not bl in guess: guess[bl], cnt[bl] = 0, 0
             guess[bl] += np.where(f, 0, d)
             cnt[bl] += np.logical_not(f)
         del(uv)
-- 
2.43.0


From 04e6c25d8be0e4f727b0073f423e4e43162e8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 57/86] fix: xrfi.py shares the flags of each time

---
 scripts/xrfi.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index a99ae48..2c48db9 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -38,7 +38,7 @@ def share_mask(mask):
     for pol in mask:
       for bl in mask[pol]:
         for t in mask[pol][bl]:
-            m[t] = m.get(t,0) | mask[pol][bl]
+            m[t] = m.get(t,0) | mask[pol][bl][t]
     for pol in mask:
       for bl in mask[pol]:
         for t in mask[pol][bl]:
@@ -95,7 +95,7 @@ for uvfile in args:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
             if i == j: continue
-            data_times = data[pol][bl].keys()
+            data_times = list(data[pol][bl].keys())
             d = np.ma.array([data[pol][bl][t] for t in data_times],
                 mask=[mask[pol][bl][t] for t in data_times])
             hi_thr, lo_thr = a.rfi.gen_rfi_thresh(d, nsig=opts.nsig)
@@ -119,8 +119,7 @@ for uvfile in args:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
             if i != j: continue
-            data_times = data[pol][bl].keys()
-            data_times.sort()
+            data_times = sorted(data[pol][bl].keys())
             d = np.ma.array([data[pol][bl][t] for t in data_times],
                 mask=[mask[pol][bl][t] for t in data_times])
             bad_ints = a.rfi.flag_by_int(d, nsig=opts.nsig, raw=opts.raw)
-- 
2.43.0


From b4a705a28434922889744b9ca18d9e0e7a1372e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 58/86] fix: xrfi_simple.py runs with Python 3

---
 scripts/xrfi_simple.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/xrfi_simple.py b/scripts/xrfi_simple.py
index 2e9b348..00d4f8f 100755
--- a/scripts/xrfi_simple.py
+++ b/scripts/xrfi_simple.py
@@ -74,8 +74,7 @@ for uvfile in args:
         for pol in data:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
-            data_times = data[pol][bl].keys()
-            data_times.sort()
+            data_times = sorted(data[pol][bl].keys())
             d = np.array([data[pol][bl][t] for t in data_times])
             m = np.array([mask[pol][bl][t] for t in data_times])
             if opts.df != None:
@@ -114,8 +113,8 @@ for uvfile in args:
     if opts.to_npz:
         print('    Writing flags to', opts.to_npz)
         m = {}
-        _m = mask.values()[0].values()[0]
-        times = np.array(_m.keys())
+        _m = list(list(mask.values())[0].values())[0]
+        times = np.array(list(_m.keys()))
         for cnt,t in enumerate(times): m[str(cnt)] = _m[t]
         m['times'] = times
         np.savez(opts.to_npz, **m)
@@ -125,7 +124,7 @@ for uvfile in args:
             uvw, t, (i,j) = preamble
             bl = a.miriad.ij2bl(i,j)
             if opts.combine:
-                try: m = mask.values()[0].values()[0][t]
+                try: m = list(list(mask.values())[0].values())[0][t]
                 except(KeyError): m = np.ones_like(flags) # default to flagging
             else: m = mask[uv['pol']][bl][t]
             return preamble, np.where(m, 0, data), m
-- 
2.43.0


From 3d740e96fe9fafcda7e6000a0ae90e3f178d25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 59/86] fix: phs2src.py takes its source from the catalogue

---
 scripts/phs2src.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/phs2src.py b/scripts/phs2src.py
index fbafc6a..99995b5 100755
--- a/scripts/phs2src.py
+++ b/scripts/phs2src.py
@@ -25,7 +25,8 @@ aa = a.cal.get_aa(opts.cal, uv['sdf'], uv['sfreq'], uv['nchan'])
 if not opts.src is None:
     if not opts.src.startswith('zen'):
         srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
-        src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values()[0]
+        src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs)
+        src = list(src.values())[0]
     else: src = 'z'
 else: src = None
 del(uv)
-- 
2.43.0


From f39fa81402aa06d118c41504efe401713c3410a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 60/86] fix: flux_cal.py takes its source from the catalogue

---
 scripts/flux_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/flux_cal.py b/scripts/flux_cal.py
index 8dcc81f..5ef5042 100755
--- a/scripts/flux_cal.py
+++ b/scripts/flux_cal.py
@@ -34,7 +34,7 @@ del(uv)
 if opts.srcflux:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
     cat = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs)
-    s = cat.values()[0]
+    s = list(cat.values())[0]
     print('Calibrating for source with', end='')
     print('strength', s._jys, end='')
     print('measured at', s.mfreq, 'GHz', end='')
-- 
2.43.0


From 307e1c00e5bb960b5dc45e07cb048758c4925457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 61/86] fix: combine_freqs.py counts channels in integers

---
 scripts/combine_freqs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index 5530355..a7ba542 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -32,8 +32,8 @@ for uvfile in args:
     print(uvfile,'->',uvfile+'m')
     uvi = a.miriad.UV(uvfile)
     sfreq,sdf,nchan = uvi['sfreq'], uvi['sdf'], uvi['nchan']
-    newsfreq = sfreq + ((nchan/opts.nchan) * sdf) / 2
-    newsdf = sdf * (nchan/opts.nchan)
+    newsfreq = sfreq + ((nchan//opts.nchan) * sdf) / 2
+    newsdf = sdf * (nchan//opts.nchan)
 
     if uvo is None:
         uvofile = uvfile+'m'
@@ -50,14 +50,14 @@ for uvfile in args:
     if nchan != opts.nchan:
         def mfunc(uv, p, d, f):
             d = np.where(f, 0, d)
-            d.shape = (opts.nchan, nchan/opts.nchan)
+            d.shape = (opts.nchan, nchan//opts.nchan)
             d = d.sum(axis=1)
-            f.shape = (opts.nchan, nchan/opts.nchan)
+            f.shape = (opts.nchan, nchan//opts.nchan)
             f = np.logical_not(f).astype(np.int_).sum(axis=1)
             d /= f.clip(1,np.inf)
-            if opts.careful_flag: f = np.where(f < nchan/opts.nchan, 1, 0)
+            if opts.careful_flag: f = np.where(f < nchan//opts.nchan, 1, 0)
             elif opts.dont_flag: f = np.where(f < 1, 1, 0)
-            else: f = np.where(f <= nchan/opts.nchan/2, 1, 0)
+            else: f = np.where(f <= nchan//opts.nchan//2, 1, 0)
             return p, np.where(f, 0, d), f
         uvo.pipe(uvi, mfunc=mfunc, raw=True,
             append2hist='COMB_FREQ: nchan=%d careful=%s dont=%s unify=%s\n' % \
-- 
2.43.0


From 5f557f45c688f4262056f63dd84a74813bf0abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 62/86] fix: combine_freqs.py follows the variables of every
 file it joins

---
 scripts/combine_freqs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index a7ba542..8fe2c06 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -35,17 +35,20 @@ for uvfile in args:
     newsfreq = sfreq + ((nchan//opts.nchan) * sdf) / 2
     newsdf = sdf * (nchan//opts.nchan)
 
+    exclude = []
     if uvo is None:
         uvofile = uvfile+'m'
         if os.path.exists(uvofile):
             print(uvofile, 'exists, skipping.')
             continue
         uvo = a.miriad.UV(uvofile, status='new')
-        if nchan != opts.nchan:
-            uvo.init_from_uv(uvi, override={'nchan':opts.nchan,
-                'sfreq':newsfreq, 'sdf':newsdf, 'nschan':opts.nchan,
-                'freq':newsfreq, 'nchan0':opts.nchan, },)
-        else: uvo.init_from_uv(uvi)
+    # Of further files only the variables are followed
+    else: exclude = uvi.items()
+    if nchan != opts.nchan:
+        uvo.init_from_uv(uvi, override={'nchan':opts.nchan,
+            'sfreq':newsfreq, 'sdf':newsdf, 'nschan':opts.nchan,
+            'freq':newsfreq, 'nchan0':opts.nchan, }, exclude=exclude)
+    else: uvo.init_from_uv(uvi, exclude=exclude)
 
     if nchan != opts.nchan:
         def mfunc(uv, p, d, f):
-- 
2.43.0


From 04f0a4b41b5798651fa881391ca60f59a32929fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 63/86] fix: images are written to FITS files with the current
 astropy

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index c7d20a3..17478c1 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -395,7 +395,7 @@ def to_fits(filename, data, clobber=False,
                         phdu.header.add_history(subline)
     phdu.header['ORIGIN'] = (origin)
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
-    pyfits.writeto(filename,phdu.data,phdu.header,clobber=True)
+    pyfits.writeto(filename,phdu.data,phdu.header,overwrite=clobber)
 
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
-- 
2.43.0


From 46779b1d4040ad7de1fe8a918ec852ceaafe83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 64/86] fix: from_fits_to_fits runs with Python 3 and the
 current astropy

---
 aipy/img.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 17478c1..509147b 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -487,9 +487,9 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-    for k,v in kwds.iteritems():
+    for k,v in kwds.items():
         try:
-            phdu.header.update(k,v)
+            phdu.header[k] = v
         except(ValueError):
             continue
     if history is None:
@@ -499,4 +499,4 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if len(line)>1:
             for subline in word_wrap(line,70,5,10,'#').split("\n"):
                 phdu.header.add_history(subline)
-    pyfits.writeto(outfile, data, phdu.header, clobber=True)
+    pyfits.writeto(outfile, data, phdu.header, overwrite=True)
-- 
2.43.0


From 66350fff494a1a0d83b50787d51a0e4b7b724b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 65/86] fix: cl_img.py runs with Python 3

---
 scripts/cl_img.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index 9d65f85..394f35a 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -38,8 +38,7 @@ opts, args = o.parse_args(sys.argv[1:])
 outputs = opts.output.split(',')
 keys = {}
 for arg in args: keys[arg[:-len('.dim.fits')]] = None
-keys = keys.keys()
-keys.sort()
+keys = sorted(keys.keys())
 
 # Define a quick function writing an image to a FITS file
 def to_fits(prefix,ftag,i,kwds):
@@ -126,7 +125,7 @@ for cnt, k in enumerate(keys):
     #Fit a 2d Gaussian to the dirty beam and convolve that with the clean components.
     dbm_fit = np.fft.fftshift(dbm)
     DIM = dbm.shape[0]
-    lo,hi = (DIM-30)/2,(DIM+30)/2
+    lo,hi = (DIM-30)//2,(DIM+30)//2
     dbm_fit = dbm_fit[lo:hi,lo:hi]
     if opts.deconv == 'none': # XXX this is a hack
         rim = info['res']
-- 
2.43.0


From 71614bcb17025accfeaf19b3d1f6da599ba5cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 66/86] fix: mk_img.py lists facets with Python 3

---
 scripts/mk_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 94f0618..ca5189c 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -84,7 +84,7 @@ else:
 
 if opts.list_facets:
     cat.compute(aa)
-    srcs = cat.keys(); srcs.sort()
+    srcs = sorted(cat.keys())
     for cnt, src in enumerate(cat.values()):
         cen = ephem.Equatorial(src.ra, src.dec, epoch=aa.epoch)
         cen = ephem.Equatorial(cen, epoch=ephem.J2000)
-- 
2.43.0


From f0f4bdaa1d6e0979ad0c6c55a1556ed0e1b7a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 67/86] fix: the first snapshot of mk_img.py has as many
 integrations as the others

---
 scripts/mk_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index ca5189c..724fd3e 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -183,7 +183,7 @@ for srccnt, s in enumerate(cat.values()):
           if curtime != t:
               # Make snapshot images (if specified)
               if opts.snap > 0:
-                  snapcnt = (snapcnt + 1) % opts.snap
+                  if curtime != None: snapcnt = (snapcnt + 1) % opts.snap
                   if snapcnt == 0:
                       if curtime != None:
                           try:
-- 
2.43.0


From 7eca21c686c615f48a37813c7087ab9d4fc31414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 68/86] fix: mk_img.py makes the image when all data are
 gridded already

---
 scripts/mk_img.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 724fd3e..2c7557b 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -140,7 +140,8 @@ def to_fits(ftag,i,src,cnt,history=''):
 def grid_it(im,us,vs,ws,ds,wgts):
     #print('Gridding %d integrations' % n_ints)
     sys.stdout.write('|'); sys.stdout.flush()
-    if len(ds) == 0: raise ValueError('No data to use.')
+    if n_ints == 0: raise ValueError('No data to use.')
+    if len(ds) == 0: return # All data are gridded already
     ds,wgts = np.concatenate(ds), np.concatenate(wgts).flatten()
     us,vs,ws = np.concatenate(us), np.concatenate(vs), np.concatenate(ws)
     # Grid data into UV matrix
-- 
2.43.0


From 3391b6c310eae0fb82cb7c78c991ccd9cd93eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 69/86] fix: mk_map.py does not mirror images, whose d_ra is
 negative

---
 scripts/mk_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index 0151cdf..c15d30b 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -53,7 +53,7 @@ for i, filename in enumerate(args):
     if prev_dra != kwds['d_ra']:
         prev_dra = kwds['d_ra']
         DIM = img.shape[0]
-        RES = 1. / (kwds['d_ra'] * a.img.deg2rad * DIM)
+        RES = 1. / (np.abs(kwds['d_ra']) * a.img.deg2rad * DIM)
         im = a.img.Img(DIM*RES, RES, mf_order=0)
         tx,ty,tz = im.get_top(center=(DIM/2,DIM/2))
         # Define a weighting for gridding data into the skymap
-- 
2.43.0


From b7a564aa79041882c7159399b3650cfe05cc7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 70/86] fix: modmap.py adds sources to maps with the indices
 these have

---
 scripts/modmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index 1591691..d52c3a8 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -113,7 +113,7 @@ for srcname in cat:
         px = h.crd2px(np.array([x]),np.array([y]),np.array([z]))
     str_per_px = strength / len(px)
     print('Putting %f in each of %d pixels' % (str_per_px, len(px)))
-    if opts.nindices == 0:
+    if len(h.ind) == 0:
         for p in px:
             curflux = h[p]
             h.put(p,1,str_per_px+curflux)
-- 
2.43.0


From 805e9082e21a6fc6897403438a70de3942fc78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 71/86] fix: modmap.py leaves a map alone whose coordinates do
 not change

---
 scripts/modmap.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index d52c3a8..66af6bd 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -54,15 +54,16 @@ if not opts.in_map is None:
         print('Importing data from %s' % opts.in_map)
         h.from_map(a.map.Map(fromfits=opts.in_map))
     h.map.map *= opts.mscale
-    px = np.arange(h.npix())
-    m = a.coord.convert_m(opts.osys, opts.isys,
-        iepoch=opts.oepoch, oepoch=opts.iepoch)
-    x,y,z = np.dot(m,h.px2crd(px, ncrd=3))
-    h.set_interpol(True)
-    h.map[px] = h.map[x,y,z]
-    h.wgt[px] = h.wgt[x,y,z]
-    for i in h.ind: i[px] = i[x,y,z]
-    h.set_interpol(False)
+    if (opts.osys, opts.oepoch) != (opts.isys, opts.iepoch):
+        px = np.arange(h.npix())
+        m = a.coord.convert_m(opts.osys, opts.isys,
+            iepoch=opts.oepoch, oepoch=opts.iepoch)
+        x,y,z = np.dot(m,h.px2crd(px, ncrd=3))
+        h.set_interpol(True)
+        h.map[px] = h.map[x,y,z]
+        h.wgt[px] = h.wgt[x,y,z]
+        for i in h.ind: i[px] = i[x,y,z]
+        h.set_interpol(False)
 else:
     if opts.dtype is None: opts.dtype = np.double
     h = a.map.Map(nside=opts.nside, nindices=opts.nindices, dtype=opts.dtype)
-- 
2.43.0


From 57cb861bb139a4504bcdded206393489785299ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 72/86] fix: srclist.py runs with Python 3

---
 scripts/srclist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index 304b930..f86b718 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -71,7 +71,7 @@ else:
     aa.set_jultime(opts.juldate)
 
 for c in [cat, xcat, ccat]:
-    for s in c.keys():
+    for s in list(c.keys()):
         try: ephem.FixedBody.compute(c[s], date)
         except(TypeError):
             if opts.juldate is None: del(c[s])
@@ -112,8 +112,8 @@ else:
         prms = opts.prms.split(',')
         for s in srcs:
             p = cat.get_params({s:prms})
-            if p[s].has_key('ra'):  p[s]['ra'] = ephem.hours(p[s]['ra'])
-            if p[s].has_key('dec'): p[s]['dec'] = ephem.degrees(p[s]['dec'])
+            if 'ra' in p[s]:  p[s]['ra'] = ephem.hours(p[s]['ra'])
+            if 'dec' in p[s]: p[s]['dec'] = ephem.degrees(p[s]['dec'])
             a.fit.print_params(p)
     else:
         prms = opts.prms.split(',')
-- 
2.43.0


From 10b74e8acca66619741c3562ca15edcd3a1fd6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:41 +0000
Subject: [PATCH 73/86] fix: srclist.py --fitprms puts a comma between all
 sources

---
 scripts/srclist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index f86b718..22864dc 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -128,6 +128,6 @@ else:
             for i,prm in enumerate(p[s].keys()):
                 if i<pcnt-1: outstring += prm+"/"
                 else: outstring += prm
-            if scount<snum-1:outstring += "),"
+            if scount<snum:outstring += "),"
             else: outstring += ")"
         print(outstring)
-- 
2.43.0


From 479794153ab2f0c4cdb56e4f473a206ec440d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 74/86] fix: mk_map.py does not use the pixels of one image for
 one of another size

---
 scripts/mk_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index c15d30b..7f6fe3b 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -29,7 +29,7 @@ if os.path.exists(opts.map): skymap = a.map.Map(fromfits=opts.map)
 else: skymap = a.map.Map(nside=opts.nside)
 skymap.set_interpol(opts.interpolate)
 
-prev_dra = None
+prev_grid = None
 for i, filename in enumerate(args):
     img, kwds = a.img.from_fits(filename)
     img = img.squeeze()
@@ -50,8 +50,8 @@ for i, filename in enumerate(args):
     print(kwds)
     print('Pointing (ra, dec):', ra, dec)
     print('Image Power:', np.abs(img).sum())
-    if prev_dra != kwds['d_ra']:
-        prev_dra = kwds['d_ra']
+    if prev_grid != (kwds['d_ra'], img.shape):
+        prev_grid = (kwds['d_ra'], img.shape)
         DIM = img.shape[0]
         RES = 1. / (np.abs(kwds['d_ra']) * a.img.deg2rad * DIM)
         im = a.img.Img(DIM*RES, RES, mf_order=0)
-- 
2.43.0


From 24a5d806aa76415cebd47b130ec41e195b6f1a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 75/86] fix: a selection by dazim or delev that data do not
 have does not hide the others

---
 aipy/_miriad/mir/uvio.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 61cfd56..18c9324 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3277,7 +3277,6 @@ private int uvread_select(UV *uv)
       if(!uv->need_dazim) dazim = 0;
       else dazim = (double *)uv->dazim->buf;
       while(n < sel->noper && op->type == SEL_DAZIM){
-	if (dazim==0) break;
 	for (i=0; i<nants; i++) {
 	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
 	    discard = op->discard;
@@ -3298,7 +3297,6 @@ private int uvread_select(UV *uv)
       if(!uv->need_delev) delev = 0;
       else delev = (double *)uv->delev->buf;
       while(n < sel->noper && op->type == SEL_DELEV){
-	if (delev==0) break;
 	for (i=0; i<nants; i++) {
 	  if(op->loval <= delev[i] && delev[i] <= op->hival)
 	    discard = op->discard;
-- 
2.43.0


From 1935804833782bb616ad4dd4a2eb4c1afd788471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 76/86] fix: selections by dazim and delev hold when combined
 with other kinds

---
 aipy/_miriad/mir/uvio.c | 82 ++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 41 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 18c9324..36486cf 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3265,47 +3265,6 @@ private int uvread_select(UV *uv)
       if(discard || n >= sel->noper) goto endloop;
     }
 
-    /* ==PJT== */
-
-/* Apply delta AZIM selection. */
-
-    if(op->type == SEL_DAZIM){
-      discard = !op->discard;
-      if(uv->need_dazim) nants = uv->dazim->length / sizeof(double);
-      else nants=0;
-
-      if(!uv->need_dazim) dazim = 0;
-      else dazim = (double *)uv->dazim->buf;
-      while(n < sel->noper && op->type == SEL_DAZIM){
-	for (i=0; i<nants; i++) {
-	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
-	    discard = op->discard;
-	    /* printf("ant %d: %g  in-ranged %g %g  \n",i+1,dazim[i],op->loval,op->hival);  */
-	  } 
-	}
-        op++; n++;
-      }
-      if(discard || n >= sel->noper) goto endloop;
-    }
-
-/* Apply delta ELEV selection. */
-    if(op->type == SEL_DELEV){
-      discard = !op->discard;
-      if(uv->need_delev) nants = uv->delev->length / sizeof(double);
-      else nants=0;
-
-      if(!uv->need_delev) delev = 0;
-      else delev = (double *)uv->delev->buf;
-      while(n < sel->noper && op->type == SEL_DELEV){
-	for (i=0; i<nants; i++) {
-	  if(op->loval <= delev[i] && delev[i] <= op->hival)
-	    discard = op->discard;
-	}
-	op++; n++;
-      }
-      if(discard || n >= sel->noper) goto endloop;
-    }
-
 /* Apply delta RA selection. */
 
     if(op->type == SEL_DRA){
@@ -3524,6 +3483,47 @@ private int uvread_select(UV *uv)
       if(discard || n >= sel->noper) goto endloop;
     }
 
+    /* ==PJT== */
+
+/* Apply delta AZIM selection. */
+
+    if(op->type == SEL_DAZIM){
+      discard = !op->discard;
+      if(uv->need_dazim) nants = uv->dazim->length / sizeof(double);
+      else nants=0;
+
+      if(!uv->need_dazim) dazim = 0;
+      else dazim = (double *)uv->dazim->buf;
+      while(n < sel->noper && op->type == SEL_DAZIM){
+	for (i=0; i<nants; i++) {
+	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
+	    discard = op->discard;
+	    /* printf("ant %d: %g  in-ranged %g %g  \n",i+1,dazim[i],op->loval,op->hival);  */
+	  } 
+	}
+        op++; n++;
+      }
+      if(discard || n >= sel->noper) goto endloop;
+    }
+
+/* Apply delta ELEV selection. */
+    if(op->type == SEL_DELEV){
+      discard = !op->discard;
+      if(uv->need_delev) nants = uv->delev->length / sizeof(double);
+      else nants=0;
+
+      if(!uv->need_delev) delev = 0;
+      else delev = (double *)uv->delev->buf;
+      while(n < sel->noper && op->type == SEL_DELEV){
+	for (i=0; i<nants; i++) {
+	  if(op->loval <= delev[i] && delev[i] <= op->hival)
+	    discard = op->discard;
+	}
+	op++; n++;
+      }
+      if(discard || n >= sel->noper) goto endloop;
+    }
+
 /* We have processed this selection clause. Now determine whether the
    overall selection criteria is to select or discard. Note that we cannot
    get here if sel->and == TRUE and selprev == FALSE. 		*/
-- 
2.43.0


From c8f38c2057747eb0d21e77384473830736ac4117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 77/86] fix: clearing the selections lifts the need for
 frequencies too

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 36486cf..0acd174 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2316,6 +2316,7 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
     uv->need_on    = uv->need_src  = uv->need_win   = FALSE;
     uv->need_bin   = uv->need_lst  = uv->need_elev  = FALSE;
     uv->need_obsra = uv->need_dazim = uv->need_delev = FALSE;
+    uv->need_skyfreq = (uv->flags & UVF_WAVELENGTH) != 0;
     return;
   }
 
-- 
2.43.0


From 60bef0be1d68fb050ebae8085351c7b655ec4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 78/86] fix: print_params puts a space between a name and its
 value

---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index c473eff..f010e0b 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -63,7 +63,7 @@ def print_params(prms, indent='', grad=None):
             if grad is None: print_params(v, indent + '  ')
             else: print_params(v, indent + '  ', grad[k])
         else:
-            print(indent, k, end='')
+            print(indent, k, end=' ')
             if grad is None:
                 if not type(v) is list:
                     try: v = [list(v)]
-- 
2.43.0


From 58da01b45a0596a3cac5ca6eada1c90672336b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 79/86] fix: srclist.py finds how far the Sun is from a source

---
 scripts/srclist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index 22864dc..99cd52b 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -83,7 +83,7 @@ if opts.sep != None:
     nsrcs = []
     for s1 in srcs:
         for s2 in ccat.keys():
-            if ephem.separation(cat[s1], ccat[s2]) <= opts.sep * a.img.deg2rad:
+            if ephem.separation((cat[s1].ra, cat[s1].dec), (ccat[s2].ra, ccat[s2].dec)) <= opts.sep * a.img.deg2rad:
                 nsrcs.append(s1)
                 break
     srcs = nsrcs
-- 
2.43.0


From 7018b5437b3d3e14b818de3afcb48fc03587ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:22 +0000
Subject: [PATCH 80/86] fix: fitmdl.py runs with Python 3

---
 scripts/fitmdl.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 2b0530c..899cba2 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -62,10 +62,10 @@ prms, prm_dict, shkeys = {}, {}, []
 if opts.shprms:
     shprms = map(a.scripting.parse_prms, opts.shprms.split(','))
     for s in shprms:
-        keys = s.keys(); keys.sort()
+        keys = sorted(s.keys())
         k = keys[0]
         # Only enter one instance of shared parameters (indexed under first key)
-        if prms.has_key(k): prms[k].update(s[k])
+        if k in prms: prms[k].update(s[k])
         else: prms.update({k:s[k]})
         # Add an entry to shkeys for propagating variables to other objects
         shkeys.append((keys, s[k].keys()))
@@ -73,7 +73,7 @@ if opts.shprms:
 if opts.prms:
     pd = a.scripting.parse_prms(opts.prms)
     for k in pd:
-        if prms.has_key(k): prms[k].update(pd[k])
+        if k in prms: prms[k].update(pd[k])
         else: prms[k] = pd[k]
 for prm in prms: prm_dict[prm] = prms[prm].keys()
 start_prms = aa.get_params(prm_dict)
@@ -100,7 +100,7 @@ def fit_func(prms, filelist, decimate, decphs):
     for (skey,sprm) in shkeys:
         k = skey[0]
         for k2 in skey[1:]:
-            if not prms.has_key(k2): prms[k2] = {}
+            if not k2 in prms: prms[k2] = {}
             for sp in sprm:
                 prms[k2][sp] = prms[k][sp]
     if not opts.quiet:
@@ -121,8 +121,8 @@ def fit_func(prms, filelist, decimate, decphs):
             uv.select('decimate', decimate, decphs)
             for (uvw,t,(i,j)),d,f in uv.all(raw=True):
                 bl = a.miriad.ij2bl(i,j)
-                if not dbuf.has_key(t): dbuf[t] = {}
-                if not dbuf[t].has_key(bl): dbuf[t][bl] = {}
+                if not t in dbuf: dbuf[t] = {}
+                if not bl in dbuf[t]: dbuf[t][bl] = {}
                 if not opts.sim_autos and i == j: continue
                 if uvlen(aa.get_baseline(i,j))*0.15 < opts.minuv: continue
                 d = d.take(chans)
@@ -176,7 +176,9 @@ def fit_func(prms, filelist, decimate, decphs):
 
 # Call the optimizer
 if opts.daemon:
-    import SocketServer, struct
+    try: import socketserver as SocketServer
+    except(ImportError): import SocketServer
+    import struct
     class TCPServer(SocketServer.TCPServer):
         allow_reuse_address = True
     class FitHandler(SocketServer.BaseRequestHandler):
-- 
2.43.0


From 80336067429186e3882a16c5cd3ec00eefa39f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 81/86] fix: the master of fitmdl.py gets along without samples

---
 scripts/fitmdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 899cba2..ad44873 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -220,10 +220,10 @@ elif opts.master:
             scr, nsp = struct.unpack('<dd', data)
             score += scr; nsamples += nsp
             if not opts.quiet: print(score, nsamples)
-        score = np.sqrt(score / nsamples)
         if nsamples == 0:
             first_fit = 0.
             return 0.
+        score = np.sqrt(score / nsamples)
         if first_fit is None: first_fit = score
         if not opts.quiet:
             print()
-- 
2.43.0


From 3c650c7974e03febf98b752cb914b64ddc3bea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:23 +0000
Subject: [PATCH 82/86] fix: fitmdl.py models sources with the mfreq that it
 fits

---
 scripts/fitmdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index ad44873..1521ebe 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -86,7 +86,6 @@ for obj in start_prms:
 prm_list, key_list = a.fit.flatten_prms(start_prms)
 
 first_fit = None    # Used to normalize fit values to the starting fit
-mfq = cat.get('mfreq')
 dbuf = None
 
 def uvlen(A): return np.sqrt(np.dot(A,A))
@@ -148,6 +147,7 @@ def fit_func(prms, filelist, decimate, decphs):
         cat.compute(aa)
         eqs = cat.get_crds('eq', ncrd=3)
         flx = cat.get_jys()
+        mfq = cat.get('mfreq')
         dra,ddec = cat.get('ionref')
         aa.sim_cache(eqs, flx, mfreqs=mfq,
             ionrefs=(dra,ddec), srcshapes=(a1,a2,th))
-- 
2.43.0


From 3019488f1df6b69b4d6b3eec47146e8eba684481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 83/86] fix: filter_src.py filters without a source with the
 current numpy

---
 scripts/filter_src.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index 8482a1c..b1119d0 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -94,7 +94,7 @@ for uvfile in args:
             if opts.passband: flags *= aa.passband(i,j)
             gain = np.sqrt(np.average(flags**2))
             ker = np.fft.ifft(flags)
-            d = np.where(f, 0, d)
+            d = np.where(f, 0, d).astype(np.complex128)
             src_up = True
             d = np.fft.ifft(d)
             if not np.all(d == 0):
-- 
2.43.0


From eb3c665a30937774229f532cf0a23328f93aa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 84/86] fix: filter_src.py --passband takes complex passbands

---
 scripts/filter_src.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index b1119d0..c554018 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -91,8 +91,8 @@ for uvfile in args:
             if not src is None:
                 d = aa.phs2src(d, src, i, j)
             # Put passband into kernel, where it gets divided out of the data
-            if opts.passband: flags *= aa.passband(i,j)
-            gain = np.sqrt(np.average(flags**2))
+            if opts.passband: flags = flags * aa.passband(i,j)
+            gain = np.sqrt(np.average(np.abs(flags)**2))
             ker = np.fft.ifft(flags)
             d = np.where(f, 0, d).astype(np.complex128)
             src_up = True
-- 
2.43.0


From 43f68b67719b563cd9f538dd8c968f2d49dcd771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 85/86] fix: filter_src.py --pol leaves the other polarizations
 as they are

---
 scripts/filter_src.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index c554018..434a865 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -150,6 +150,7 @@ for uvfile in args:
         uvw, t, (i,j) = p
         if i == j: return p, d
         pol = a.miriad.pol2str[uv['pol']]
+        if not pol in pols: return p, d
         aa.set_active_pol(pol)
         bl = a.miriad.ij2bl(i,j)
         data = phs_dat[pol][bl][cnt[pol][bl],:]
-- 
2.43.0


From c1fe35faa313925a8cb8bf7795f6bc0a497e9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 86/86] fix: filter_src.py filters delay rates of data that are
 or average to zero

---
 scripts/filter_src.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index 434a865..f250140 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -109,7 +109,7 @@ for uvfile in args:
     for pol in phs_dat:
         for bl in phs_dat[pol]:
             d = np.array(phs_dat[pol][bl])
-            if not src_up:
+            if not src_up or not np.any(d):
                 phs_dat[pol][bl] = d
                 continue
             # create some padding data on either end to mitigate wrap-around
@@ -117,7 +117,7 @@ for uvfile in args:
             padlen = math.ceil(d.shape[0] * .1)
             d = np.concatenate([np.flipud(d[:padlen]), d, np.flipud(d[-padlen:])])
             if opts.drw != -1:
-                flags = np.where(d[:,0] != 0, 1., 0.)
+                flags = np.where(np.any(d != 0, axis=1), 1., 0.)
                 gain = np.sqrt(np.average(flags**2))
                 ker = np.fft.ifft(flags)
                 d = np.fft.ifft(d, axis=0)
-- 
2.43.0

