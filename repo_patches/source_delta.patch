From 6286ac0b12a7c847603aef96aed95d4548982b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 001/116] fix: unpacking must not accept sizes that overflow
 the end-of-data check

---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 40b735a..6219c51 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -203,7 +203,7 @@ namespace classdesc
     virtual void popoff(basic_type& x)
     {
       if (mode==buf)
-        if (m_pos+x.size>m_size)
+        if (m_pos>m_size || x.size>m_size-m_pos)
           throw pack_error("unexpected end of data");
         else
           memcpy(x.val,m_data+m_pos,x.size);
@@ -270,7 +270,7 @@ namespace classdesc
     {
       if (mode==buf)
         {
-          if (s+m_pos>m_size)
+          if (m_pos>m_size || s>m_size-m_pos)
             throw pack_error("premature end of buffered data");
           memcpy(x,m_data+m_pos,s);
         }
-- 
2.43.0


From 15deae637adfcb882089cd6518cf603ce624deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 002/116] fix: unpacking a string of invalid size, and
 unpacking of wide strings

---
 pack_stl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 09fca3d..f253c95 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -261,8 +261,10 @@ namespace classdesc_access
     void operator()(classdesc::pack_t& targ, const classdesc::string& desc, U& arg) 
     {
       classdesc::uint64 size=0; targ>>size;
+      if (size>=std::vector<cT>().max_size())
+        throw classdesc::pack_error("invalid string size");
       std::vector<cT> buf(size+1); //ensure buf[0] exists
-      targ.unpackraw(buf.data(),sizeof(cT)*size);
+      targ.unpackraw((char*)buf.data(),sizeof(cT)*size);
       asg(arg, buf);
     }
   };
-- 
2.43.0


From c240b787819dc04ce3f2543828100a136e4f5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 003/116] fix: resizing a buffer to zero bytes is not an
 allocation failure

---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 6219c51..0af735e 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -182,7 +182,7 @@ namespace classdesc
      */
     void resize(size_t s) {
       realloc(s);
-      if (!m_data) throw std::bad_alloc();
+      if (s && !m_data) throw std::bad_alloc();
       m_size=s;
     }
      
-- 
2.43.0


From 6880d03a27599c492e294c73d244b039f99f9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 004/116] fix: a moved from pack_t must be left in a valid
 state

---
 pack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 0af735e..bd1f5bd 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -230,7 +230,8 @@ namespace classdesc
     virtual ~pack_t() {realloc(0); if (f) fclose(f);}
 
 #if __cplusplus >= 201103L
-    pack_t(pack_t&& x): f(nullptr), m_data(nullptr) {swap_base(x);}
+    pack_t(pack_t&& x): f(nullptr), mode(buf), m_data(nullptr), m_size(0), m_pos(0),
+                        ptr_flag(x.ptr_flag), recur_max(x.recur_max) {swap_base(x);}
     pack_t& operator=(pack_t&& x) {swap_base(x); return *this;}
 #endif
 
-- 
2.43.0


From fa7457b5872355acd073a5dab1d0e39b854ac092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 005/116] fix: pack_t::cmp returns -1, 0 or 1, so that < and >
 order buffers

---
 pack_base.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index bd1f5bd..70d8185 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -293,7 +293,11 @@ namespace classdesc
     /// greater than \a x
     virtual int cmp(const pack_t& x) const {
       if (m_size==x.m_size)
-        return memcmp(m_data,x.m_data,m_size);
+        {
+          // memcmp's result may be of any magnitude
+          int c=m_size? memcmp(m_data,x.m_data,m_size): 0;
+          return (c>0)-(c<0);
+        }
       else
         return m_size<x.m_size? -1: 1;
     }
-- 
2.43.0


From 536964918e4d5f7fefe4f9d207c8028918b527a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 006/116] fix: unpacking a null tree pointer must null the
 target

---
 pack_graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_graph.h b/pack_graph.h
index 0e07f8a..0561251 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -53,6 +53,8 @@ namespace classdesc
         arg=static_cast<T*>(targ.alloced.back().data());
         unpack(targ,desc,*arg);
       }
+    else
+      arg=NULL;
   }
 
   /*
-- 
2.43.0


From 383e103ffd3d6f27b0d8c2ab9cfbd4755bece42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 007/116] fix: a failed graph (un)pack must not corrupt later
 ones

---
 pack_graph.h | 71 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 0561251..7be88ff 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -94,19 +94,31 @@ namespace classdesc
       pack(buf,string(),buf.recur_max);
     recur_level++;
 
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else if (!arg)   //reference is invalid 
-      pack(buf,string(),nought);
-    else if (graph_map.count(arg)==0)
-      {  
-        int ID=graph_map.size()+1;
-        graph_map[arg]=ID;
-        pack(buf,string(),ID);
-        pack(buf,string(),*arg);
+    try
+      {
+        if (recur_level==buf.recur_max)
+          restart.push_back(&arg); //save ref for restart
+        else if (!arg)   //reference is invalid 
+          pack(buf,string(),nought);
+        else if (graph_map.count(arg)==0)
+          {  
+            int ID=graph_map.size()+1;
+            graph_map[arg]=ID;
+            pack(buf,string(),ID);
+            pack(buf,string(),*arg);
+          }
+        else
+          pack(buf,string(),graph_map[arg]);
+      }
+    catch (...)
+      { // leave nothing behind to corrupt the next graph
+        if (--recur_level==0)
+          {
+            restart.clear();
+            graph_map.clear();
+          }
+        throw;
       }
-    else
-      pack(buf,string(),graph_map[arg]);
     
     recur_level--;
     if (recur_level==0)   //process restarts
@@ -134,22 +146,33 @@ namespace classdesc
       unpack(buf,string(),buf.recur_max);
     recur_level++;
 
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else
+    try
       {
-        unpack(buf,string(),myid);
-        if (myid==0) 
-          arg=T();                //reset arg to invalid state
-        else if (graph_map.count(myid))
-          arg=graph_map[myid];
+        if (recur_level==buf.recur_max)
+          restart.push_back(&arg); //save ref for restart
         else
           {
-            alloc(buf,arg);
-            graph_map[myid]=arg;
-            unpack(buf,string(),*arg);
+            unpack(buf,string(),myid);
+            if (myid==0) 
+              arg=T();                //reset arg to invalid state
+            else if (graph_map.count(myid))
+              arg=graph_map[myid];
+            else
+              {
+                alloc(buf,arg);
+                graph_map[myid]=arg;
+                unpack(buf,string(),*arg);
+              }
           }
-
+      }
+    catch (...)
+      { // leave nothing behind to corrupt the next graph
+        if (--recur_level==0)
+          {
+            restart.clear();
+            graph_map.clear();
+          }
+        throw;
       }
     recur_level--;
     if (recur_level==0)   //process restarts
-- 
2.43.0


From 4d6af560f301ffcc16124a1902e42deac01ed477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 008/116] fix: assigning a PtrStoreRef must release what it
 referred to before

---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 70d8185..20194f5 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -127,7 +127,7 @@ namespace classdesc
     void* data() {return d->data();}
     PtrStoreRef(PtrStoreBase *d=NULL): d(d) {}
     PtrStoreRef(const PtrStoreRef& x): d(x.d) {d && d->cnt++;}
-    PtrStoreRef& operator=(const PtrStoreRef& x) {d=x.d; d && d->cnt++; return *this;}
+    PtrStoreRef& operator=(PtrStoreRef x) {std::swap(d,x.d); return *this;}
     ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}
   };
 
-- 
2.43.0


From d2ce9ed60bd047f9d2b12b4099e8470e8e9d6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 009/116] fix: enums that are not the size of an int must not
 be accessed through int&

---
 classdesc.cc |  2 +-
 classdesc.h  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 95c6d9d..d2d6b6a 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -282,7 +282,7 @@ void assign_enum_action(tokeninput& input, string prefix)
       if (typeName)
         actionlist.push_back(act_pair("","classdesc::enum_handle(arg)"));
       else
-        actionlist.push_back(act_pair("","(int&)arg"));
+        actionlist.push_back(act_pair("","classdesc::enum_as_int(arg)"));
       actions.push_back(action_t(enumname,actionlist,namespace_name));
     }
 }
diff --git a/classdesc.h b/classdesc.h
index f465f7c..4112ab1 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -904,6 +904,20 @@ namespace classdesc
   template <class T>
   Enum_handle<T> enum_handle(T& x) {return Enum_handle<T>(x);}
 
+  /// integral type of the same size as an enum
+  template <size_t N> struct EnumInt {typedef int T;};
+  template <> struct EnumInt<1> {typedef signed char T;};
+  template <> struct EnumInt<2> {typedef short T;};
+#ifdef HAVE_LONGLONG
+  template <> struct EnumInt<8> {typedef long long T;};
+#endif
+
+  /// refer to enum \a x as an integer. An enum is not necessarily
+  /// the size of an int, so it cannot just be cast to int&
+  template <class T>
+  typename EnumInt<sizeof(T)>::T& enum_as_int(T& x) 
+  {return (typename EnumInt<sizeof(T)>::T&)x;}
+
   template <class T> struct tn<Enum_handle<T> >
   {
     static std::string name()
-- 
2.43.0


From fdd74fab83c1b2a1ecaa3f8657f5d7fed1b2baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 010/116] fix: keys of unordered maps were not unpacked

---
 pack_stl.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index f253c95..3eff38d 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -38,6 +38,16 @@ namespace classdesc
   struct Value_Type<std::multimap<K,V,C,A> > 
   {typedef std::pair<K,V> value_type;};
 
+#if defined(__cplusplus) && __cplusplus>=201103L
+  template <class K, class V, class H, class P, class A> 
+  struct Value_Type<std::unordered_map<K,V,H,P,A> > 
+  {typedef std::pair<K,V> value_type;};
+
+  template <class K, class V, class H, class P, class A> 
+  struct Value_Type<std::unordered_multimap<K,V,H,P,A> > 
+  {typedef std::pair<K,V> value_type;};
+#endif
+
 
   /**
      Iterators are impossible to trap, as each compiler uses its own intrinsic
-- 
2.43.0


From 1bde1ca53627aa4293ca10583843530fe044b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 011/116] fix: unpacking a sequence must not advance an
 iterator invalidated by push_back

---
 pack_stl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_stl.h b/pack_stl.h
index 3eff38d..9cbda24 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -128,10 +128,10 @@ namespace classdesc
   template <class T>
   void unpackSequence(classdesc::pack_t& b, const classdesc::string& d, T& a)
   {
-    uint64 sz=0, i=0;
+    uint64 sz=0;
     b >> sz;
     resize(a,0);
-    for (typename T::iterator j=a.begin(); i<sz; ++i, ++j)
+    for (uint64 i=0; i<sz; ++i)
       {
         typename T::value_type x;
         b >> x;
-- 
2.43.0


From c68d5e6b703f220e6426282a0501d71653c3173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 012/116] fix: refuse an unpacked iterator beyond the end of
 its container

---
 pack_stl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_stl.h b/pack_stl.h
index 9cbda24..4cab7ac 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -226,6 +226,8 @@ namespace classdesc_access
       b >> i;
       if (a.container)
         {
+          if (i>a.container->size())
+            throw classdesc::pack_error("invalid iterator");
           a=a.container->begin();
           std::advance(a.iter(),i);
         }
-- 
2.43.0


From 83a0d07b70d887b1a270d8c7f48bc09430c10715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 013/116] fix: reading a container from a BinStream replaces
 its previous contents

---
 pack_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 20194f5..af51513 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -410,6 +410,7 @@ namespace classdesc
       size_t s;
       (*this)>>s;
       typename T::value_type v;
+      o.clear();
       for (size_t i=0; i<s; ++i)
         {
           (*this)>>v;
@@ -425,6 +426,7 @@ namespace classdesc
       size_t s;
       (*this)>>s;
       typename T::value_type v;
+      o.clear();
       for (size_t i=0; i<s; ++i)
         {
           (*this)>>v;
-- 
2.43.0


From cbb52c685fbcf6af151fe8b2d5fac3e7a1b37187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 014/116] fix: assigning to a ref from something its old object
 holds used freed memory; comparing a null ref with a value dereferenced null

---
 ref.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ref.h b/ref.h
index 662b1b3..896ac99 100644
--- a/ref.h
+++ b/ref.h
@@ -48,8 +48,9 @@ namespace classdesc
     ref(): item(NULL) {}  /* unitialised refs don't consume space */
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
-    ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    ref& operator=(const T& x) {refdec(); newitem(x); return *this;}  
+    // take hold of the new item before releasing the old one, as x may be part of it
+    ref& operator=(const ref& x)  {ref tmp(x); swap(tmp); return *this;}
+    ref& operator=(const T& x) {ref tmp(x); swap(tmp); return *this;}  
     ~ref() {refdec();}
     /// dereference - creates default object if null
     T* operator->() {if (!item) newitem(); return (T*)item;}
@@ -77,7 +78,7 @@ namespace classdesc
     int refCount() const {if (item) {return item->count;} else return 0;}
     bool operator==(const ref& x) const {return x.item==item;}
     bool operator==(const T* x) const {return x==item;} 
-    bool operator==(const T& x) const {return x==*item;} 
+    bool operator==(const T& x) const {return item && x==*item;} 
     template <class U>
     bool operator!=(const U& x) const {return !operator==(x);}
     /* used for maps and sets - needed for unpack */
-- 
2.43.0


From d9cc542537ef565f2ef609890de64eb1d308e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 015/116] fix: unpacking a null weak_ptr dereferenced null

---
 polyAccessPack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polyAccessPack.h b/polyAccessPack.h
index 7b860ef..0e6bd58 100644
--- a/polyAccessPack.h
+++ b/polyAccessPack.h
@@ -120,7 +120,8 @@ namespace classdesc_access
       cd::shared_ptr<T> tmp;
       unpack_smart_ptr(x,d,tmp);
       if (cd::shared_ptr<T> target=a.lock())
-        *target=*tmp;   // best effort, polymorphism not supported
+        if (tmp)
+          *target=*tmp;   // best effort, polymorphism not supported
     }
   };
 
-- 
2.43.0


From 8ab4f990b3c9d873713467f7d132d272f6b1720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 016/116] fix: unpacking a null object pointer must null the
 target, and unknown or mismatched object types are refused

---
 object.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/object.h b/object.h
index 53ef9aa..a44abb4 100644
--- a/object.h
+++ b/object.h
@@ -47,7 +47,8 @@ namespace classdesc
   // it would be nice for this to be a static method of object, but it
   // appears static methods cannot be inlined
   inline object* object::create(object::TypeID t) {// factory
-    assert(t<object::TypeID(factory().size()) && t>=0);
+    if (t<0 || t>=object::TypeID(factory().size()) || !factory()[t])
+      throw pack_error("unknown object type");
     return factory()[t]->clone();
   }
 
@@ -125,12 +126,17 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
     {
       classdesc::shared_ptr<classdesc::object> tmp(classdesc::object::create(t-1));
 #if defined(__cplusplus) && __cplusplus>=201103L
-      a=classdesc::dynamic_pointer_cast<T>(std::move(tmp));
+      classdesc::shared_ptr<T> obj=classdesc::dynamic_pointer_cast<T>(std::move(tmp));
 #else
-      a=classdesc::dynamic_pointer_cast<T>(tmp);
+      classdesc::shared_ptr<T> obj=classdesc::dynamic_pointer_cast<T>(tmp);
 #endif
+      if (!obj)
+        throw classdesc::pack_error("object is not of the required type");
+      a=obj;
       a->unpack(b);
     }
+  else
+    a.reset();
 }
 
 template <class T> typename
-- 
2.43.0


From 7e01467b102a6a06f1ce1581fd14c9dbffeb9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 017/116] fix: poly self assignment used freed memory;
 unpacking a null poly must null the target; unknown types are refused

---
 poly.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/poly.h b/poly.h
index 39f34ad..ce37833 100644
--- a/poly.h
+++ b/poly.h
@@ -27,7 +27,11 @@ namespace classdesc
   {
     static std::vector<T*> data;
   public:
-    T& operator[](std::size_t i) {return *data[i];}
+    T& operator[](std::size_t i) {
+      if (i>=data.size() || !data[i])
+        throw pack_error("unknown object type");
+      return *data[i];
+    }
     void register_type(const T* t) {
       if (t->type()+1>int(data.size()))
         data.resize(t->type()+1);
@@ -54,9 +58,10 @@ namespace classdesc
     poly(): item(NULL) {}
     poly(const poly& x) {asg(x);}
     poly(const T& x) {item=dynamic_cast<T*>(x.clone()); }
-    poly& operator=(const poly& x)  {delete item; asg(x); return *this;}
+    // take a copy before deleting item, as x may be or belong to item
+    poly& operator=(const poly& x)  {poly tmp(x); swap(tmp); return *this;}
     poly& operator=(const T& x) {
-      delete item; item=dynamic_cast<T*>(x.clone()); return *this;}  
+      poly tmp(x); swap(tmp); return *this;}  
     ~poly() {delete item;}
 
     //@{ 
@@ -185,6 +190,8 @@ namespace classdesc_access
             a=a.TypeTable[type];
           a->unpack(t);
         }
+      else
+        a=classdesc::poly<T,TT>();
     }
   };
 
-- 
2.43.0


From e59b321d7286a3e5cec3b5f84dff97f3ddc89a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 018/116] fix: XDR buffers could not be read past 1024 bytes,
 nor hold single items larger than that, and swap mixed up their streams

---
 pack_base.h |  17 +++++---
 xdr_pack.cc | 118 ++++++++++++++++++++++++++++++++--------------------
 2 files changed, 84 insertions(+), 51 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index af51513..000fc42 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -333,14 +333,19 @@ namespace classdesc
   */
   class xdr_pack: public pack_t
   {
-    size_t asize;
+    char *base;        ///< buffer input currently refers to
+    size_t capacity;   ///< space allocated to base
+    size_t streamSize; ///< m_size as of last time input was written to
     XDR *input, *output;
+    void prepareInput(size_t); ///< ensure there is room to encode this many bytes
+    void finishInput();        ///< update size after encoding
+    void prepareOutput();      ///< ensure decoding sees the current buffer
   public:
-    xdr_pack(size_t sz=BUFCHUNK);
+    xdr_pack(size_t sz=0);
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
 #if __cplusplus >= 201103L
-    xdr_pack(xdr_pack&& x): input(nullptr), output(nullptr) {swap(x);}
+    xdr_pack(xdr_pack&& x): xdr_pack(size_t(0)) {swap(x);}
     xdr_pack& operator=(xdr_pack&& x) {swap(x); return *this;}
 #endif
 
@@ -356,9 +361,11 @@ namespace classdesc
       xdr_pack* xdr_other=dynamic_cast<xdr_pack*>(&other);
       if (!xdr_other) throw pack_error("cannot swap differing types");
       swap_base(other);
-      std::swap(asize,xdr_other->asize);
+      std::swap(base,xdr_other->base);
+      std::swap(capacity,xdr_other->capacity);
+      std::swap(streamSize,xdr_other->streamSize);
       std::swap(input,xdr_other->input);
-      std::swap(input,xdr_other->output);
+      std::swap(output,xdr_other->output);
     }
   };
   template <> inline string typeName<xdr_pack>() {return "classdesc::xdr_pack";}
diff --git a/xdr_pack.cc b/xdr_pack.cc
index ddd87cc..ebf8b32 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -147,14 +147,16 @@ namespace classdesc
   xdr_filter XDR_filter(const long double& x)        
   {return NULL;}    
 
-  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0)
+  xdr_pack::xdr_pack(size_t sz): 
+    pack_t(sz), base(data()), capacity(sz), streamSize(sz)
   {
     input=new XDR; output=new XDR;
     xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
     xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
   }
 
-  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0)
+  xdr_pack::xdr_pack(const char *fname, const char *rw):  
+    pack_t(fname,rw), base(NULL), capacity(0), streamSize(0)
   {
     if (mode==writef)
       {
@@ -172,55 +174,92 @@ namespace classdesc
 
   xdr_pack::~xdr_pack() 
   {
-    if (output && (mode==buf || mode==readf))
+    if (output)
       {
         xdr_destroy(output); 
         delete output;
       }
-    if (input && (mode==buf || mode==writef))
+    if (input)
       {
         xdr_destroy(input); 
         delete input;  
       }
   }
 
+  void xdr_pack::prepareInput(size_t n)
+  {
+    if (!input) throw pack_error("XDR stream not open for writing");
+    if (mode!=buf) return;
+    size_t pos=xdr_getpos(input);
+    bool modified=m_data!=base || m_size!=streamSize;
+    if (modified) // buffer has been replaced or resized externally
+      capacity=pos=m_size;
+    if (modified || capacity-pos<n)
+      {
+        if (capacity-pos<n)
+          {
+            size_t newCapacity=pos+(n>BUFCHUNK? n: BUFCHUNK);
+            realloc(newCapacity);
+            if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
+            capacity=newCapacity;
+          }
+        xdr_destroy(input);
+        xdrmem_create(input,(const caddr_t)data(),capacity,XDR_ENCODE);
+        xdr_setpos(input,pos);
+        base=m_data;
+      }
+  }
+
+  void xdr_pack::finishInput()
+  {
+    m_size=streamSize=xdr_getpos(input);
+  }
+
+  void xdr_pack::prepareOutput()
+  {
+    if (!output) throw pack_error("XDR stream not open for reading");
+    if (mode!=buf) return;
+    // the data may have been moved or added to since the last read
+    if (m_pos>m_size) throw pack_error("unexpected end of data");
+    xdr_destroy(output);
+    xdrmem_create(output,(const caddr_t)data(),m_size,XDR_DECODE);
+    xdr_setpos(output,m_pos);
+  }
+
   void  xdr_pack::append(const basic_type& x) 
-    {
-      if (mode==buf && BUFCHUNK-xdr_getpos(input)<8)
-	{
-	  asize += xdr_getpos(input);
-	  realloc(asize+BUFCHUNK);
-	  if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
-	  xdr_destroy(input); xdr_destroy(output);
-	  xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	  xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-	}
-      if(!x.filter || !x.filter(input,x.val)) 
-	throw pack_error("Error encoding XDR stream");
-      m_size=asize+xdr_getpos(input);
-    }
+  {
+    prepareInput(8); // largest size of encoded basic type
+    if(!x.filter || !x.filter(input,x.val)) 
+      throw pack_error("Error encoding XDR stream");
+    finishInput();
+  }
   
   void xdr_pack::popoff(basic_type& x)
   { 
+    prepareOutput();
     if (!x.filter || !x.filter(output,x.val)) 
       throw pack_error("Error encoding XDR stream");
     m_pos=xdr_getpos(output);
   }
 
   xdr_pack& xdr_pack::reseti() { 
-    if (asize==0) 
-      xdr_setpos(input,0);
-    else
+    if (mode==buf && m_data!=base)
+      {
+        m_size=0;
+        prepareInput(0);
+      }
+    if (input) 
       {
-	m_size=0; asize=0; xdr_destroy(input); 
-	xdrmem_create(input,(const caddr_t)data(),BUFCHUNK,XDR_ENCODE);
+        xdr_setpos(input,0);
+        finishInput();
       }
     return *this;
   }
 
   xdr_pack& xdr_pack::reseto() 
   { 
-    xdr_setpos(output,0); 
+    if (output && mode!=buf) xdr_setpos(output,0); 
+    m_pos=0;
     return *this; 
   }
 
@@ -228,44 +267,31 @@ namespace classdesc
   xdr_pack& xdr_pack::seeki(long offs)
   { 
     assert(offs<=0);
-    long seekpos=xdr_getpos(input)+offs;
-    if (mode==buf && seekpos<0) 
-      {
-	seekpos+=asize;  /* work in absolute stream units, not relative to 
-			    current segment */
-	asize=seekpos/BUFCHUNK; seekpos%=BUFCHUNK;
-	xdr_destroy(input);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-      }
-    xdr_setpos(input,seekpos);
-    m_size=asize+seekpos;
+    prepareInput(0);
+    xdr_setpos(input,xdr_getpos(input)+offs);
+    finishInput();
     return *this;
   }  
 
   xdr_pack& xdr_pack::seeko(long offs) 
   {
-    xdr_setpos(output,xdr_getpos(output)+offs);
+    if (output && mode!=buf) 
+      xdr_setpos(output,xdr_getpos(output)+offs);
+    m_pos+=offs;
     return *this;
   }
 
   void xdr_pack::packraw(const char *x, size_t sz) 
   {
-    if (mode==buf && BUFCHUNK-xdr_getpos(input)<sz)
-      {
-	asize += xdr_getpos(input);
-	realloc(asize+BUFCHUNK);
-	if (data()==NULL) throw pack_error("Error encoding XDR stream");
-	xdr_destroy(input); xdr_destroy(output);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-      }
+    prepareInput((sz+3)&~size_t(3)); // XDR pads to multiples of 4
     if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
       throw pack_error("Error encoding XDR stream");
-    m_size=asize+xdr_getpos(input);
+    finishInput();
   }
 
   void xdr_pack::unpackraw(char *x, size_t sz) 
   {
+    prepareOutput();
     if (!xdr_opaque(output,x,sz)) 
       throw pack_error("Error encoding XDR stream");
     m_pos=xdr_getpos(output);
-- 
2.43.0


From 3dad455ce20c660907198c8c1077495131881a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 019/116] fix: XDR longs lost their sign, and values over 32
 bits were silently truncated

---
 xdr_pack.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/xdr_pack.cc b/xdr_pack.cc
index ebf8b32..8de860a 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -72,6 +72,25 @@ namespace classdesc
 {
   struct XDR: public ::XDR {};
 
+  namespace
+  {
+    // XDR (signed and unsigned) longs are 32 bits, so refuse values
+    // that do not fit, and preserve the sign
+    template <class L, class I>
+    bool_t xdr_as_int(::XDR* x, L* v, bool_t (*filter)(::XDR*,I*))
+    {
+      I i=I(*v);
+      if (x->x_op==XDR_ENCODE && L(i)!=*v) return 0;
+      if (!filter(x,&i)) return 0;
+      *v=i;
+      return 1;
+    }
+    bool_t xdr_checked_long(::XDR* x, long* v) 
+    {return xdr_as_int<long,int>(x,v,xdr_int);}
+    bool_t xdr_checked_u_long(::XDR* x, unsigned long* v) 
+    {return xdr_as_int<unsigned long,unsigned int>(x,v,xdr_u_int);}
+  }
+
 
   template <>
   xdr_filter XDR_filter(const bool& x)               
@@ -111,11 +130,11 @@ namespace classdesc
 
   template <>
   xdr_filter XDR_filter(const long int& x)           
-  {return (xdr_filter) xdr_long;}
+  {return (xdr_filter) xdr_checked_long;}
 
   template <>
   xdr_filter XDR_filter(const unsigned long int& x)  
-  {return (xdr_filter) xdr_u_long;}
+  {return (xdr_filter) xdr_checked_u_long;}
 
     /* long long is an extension to ANSI C++ that describes a 64 bit
        integer on all our supported compilers. XDR's terminolgy for
-- 
2.43.0


From 8e9a4106c03a41db6fb32028ad59d6597e485b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 020/116] fix: XML output of non-ASCII characters was
 ill-formed and read back as NUL

---
 xml_pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index eeb7828..9d33a87 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -37,7 +37,7 @@ namespace classdesc
       case '\'': return "&apos;";
       case '"': return "&quot;";
       }
-    if (!isgraph(c))
+    if (c>=0 && c<128 && !isgraph(c)) // non-ASCII characters are passed through verbatim
       {
         std::ostringstream s;
         s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(c)<<";";
-- 
2.43.0


From 49e8d35f9d9ac60d50d1c5e2f75723d53c1c8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 021/116] fix: whitespace and markup characters of char members
 were lost from, or corrupted, XML

---
 xml_pack_base.h   | 6 ++++++
 xml_unpack_base.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 9d33a87..aa38053 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -177,6 +177,12 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, char& a)
   {x.pack(d,classdesc::xml_quote(a));}
 
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, signed char& a)
+  {x.pack(d,classdesc::xml_quote(a));}
+
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
+  {x.pack(d,classdesc::xml_quote(a));}
+
   /**
      handle enums
   */
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index e0fe1c1..19594a4 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -403,6 +403,12 @@ namespace classdesc
       try {x=std::stold(s);}
       catch(...){istoT(s,x);}    
 #endif
+    // a single character is taken verbatim, even if whitespace
+    template <class C> void stoc(const std::string& s, C& x)
+    {if (s.length()==1) x=s[0]; else istoT(s,x);}
+    void stoT(const std::string& s, char& x) {stoc(s,x);}
+    void stoT(const std::string& s, signed char& x) {stoc(s,x);}
+    void stoT(const std::string& s, unsigned char& x) {stoc(s,x);}
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
     
-- 
2.43.0


From cbf4bc50ff5e71fff72ea224c552697d3bc5e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 022/116] fix: XML character data spelling < or </ was taken to
 be markup

---
 xml_unpack_base.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 19594a4..020b4c7 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -89,6 +89,7 @@ namespace classdesc
   {
     Stream& i;
     char nexttok;
+    bool text; // last token is character data, rather than markup
 
     // basic I/O operations
     bool get(char& c) {return classdesc::get(i,c);}
@@ -110,8 +111,10 @@ namespace classdesc
     char parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
-    XMLtoken(Stream& i): i(i), nexttok('\0') {}
+    XMLtoken(Stream& i): i(i), nexttok('\0'), text(false) {}
     std::string token();
+    /// true if last token is character data, which might spell markup
+    bool isText() const {return text;}
     std::string tokenNoEOF() {
       std::string tok=token();
       if (tok.empty()) throw xml_pack_error("XML token expected");
@@ -183,7 +186,8 @@ namespace classdesc
   template <class Stream>
   std::string XMLtoken<Stream>::retval(char c, const std::string& tok)
   {
-    if (tok.empty())
+    text=!tok.empty();
+    if (!text)
       {
         nexttok='\0';
         switch (c)
@@ -221,7 +225,10 @@ namespace classdesc
               else
                 leadin=c;
             else if (c=='>' && leadin=="]]")
-              return tok;
+              {
+                text=true;
+                return tok;
+              }
             else
               {
                 tok+=leadin+c;
@@ -256,6 +263,7 @@ namespace classdesc
   {
     std::string tok;
     char c;
+    text=false;
 
     // handle any tokens left over from previous parsing
     if (nexttok)
@@ -280,6 +288,7 @@ namespace classdesc
                   tok+=parse_entity();
                 else
                   tok+=c;
+              text=true;
               return tok;
             }
           case '<':
@@ -498,8 +507,8 @@ namespace classdesc
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
-    for (tok=stream.tokenNoEOF(); tok!="</"; tok=stream.tokenNoEOF())
-      if (tok=="<")
+    for (tok=stream.tokenNoEOF(); stream.isText() || tok!="</"; tok=stream.tokenNoEOF())
+      if (!stream.isText() && tok=="<")
         parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
       else 
         content+=tok;
-- 
2.43.0


From c369ef4c95138bf131a349a8bd7808e438ff8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 023/116] fix: empty or blank XML attribute values were refused
 or mistaken for what follows

---
 xml_unpack_base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 020b4c7..984880c 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -117,7 +117,7 @@ namespace classdesc
     bool isText() const {return text;}
     std::string tokenNoEOF() {
       std::string tok=token();
-      if (tok.empty()) throw xml_pack_error("XML token expected");
+      if (tok.empty() && !text) throw xml_pack_error("XML token expected");
       else return tok;
     }
     /// handle tags starting with ! - comments and CDATAs
@@ -471,7 +471,9 @@ namespace classdesc
     std::string tok; 
     while (isspace(tok=stream.tokenNoEOF()));
     if (tok!="=") throw xml_pack_error("ill-formed attribute");
-    while (isspace(tok=stream.tokenNoEOF()));
+    do
+      tok=stream.tokenNoEOF();
+    while (!stream.isText() && isspace(tok));
     contentMap[scope]=tok;
   }
 
-- 
2.43.0


From 862883ff3badfb44e6b33781ae673be83ed8a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 024/116] fix: a quote in XML element content swallowed the
 markup following it

---
 xml_unpack_base.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 984880c..456549d 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -89,6 +89,7 @@ namespace classdesc
   {
     Stream& i;
     char nexttok;
+    bool inTag; // reading the inside of a tag
     bool text; // last token is character data, rather than markup
 
     // basic I/O operations
@@ -111,7 +112,7 @@ namespace classdesc
     char parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
-    XMLtoken(Stream& i): i(i), nexttok('\0'), text(false) {}
+    XMLtoken(Stream& i): i(i), nexttok('\0'), inTag(false), text(false) {}
     std::string token();
     /// true if last token is character data, which might spell markup
     bool isText() const {return text;}
@@ -251,8 +252,10 @@ namespace classdesc
       case '?': //we have a comment or XML declaration, which we ignore, except for CDATA
         gobble_comment(); return "";
       case '/': //we have begin end tag token
+        inTag=true;
         return  retval('/',tok);
       default:
+        inTag=true;
         unget(c);
         return retval('<',tok);
       }
@@ -281,6 +284,11 @@ namespace classdesc
             continue;
           case '\'':
           case '"':    //process string literal as single token
+            if (!inTag) // quotes are just characters outside of tags
+              {
+                tok+=c;
+                continue;
+              }
             {
               char term=c;
               while ((c=getNoEOF())!=term)
@@ -299,7 +307,10 @@ namespace classdesc
             }
           case '/':
             if ((c=getNoEOF())=='>') //we have end empty tag token
-              return retval('\\',tok);
+              {
+                inTag=false;
+                return retval('\\',tok);
+              }
             else  //TODO is a / in the middle of a token acceptible XML?
               {
                 tok+='/';
@@ -307,6 +318,8 @@ namespace classdesc
                 break;
               }
           case '>': 
+            inTag=false;
+            return retval(c,tok);
           case '=':
             return retval(c,tok);
           default:
-- 
2.43.0


From 141687cd2592056ceb802b657e6066d925b1112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 025/116] fix: XML comments containing quotes or angle brackets
 were not skipped correctly

---
 xml_unpack_base.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 456549d..9160c0b 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -210,7 +210,7 @@ namespace classdesc
   {
     // look ahead for [CDATA[
     std::string leadin;
-    for (int i=0; i<7; i++)
+    for (int i=0; i<7 && leadin!="--"; i++)
       {
         if (!get(c) || c=='>') break; // in case of EOF, or end of tag
         leadin+=c;
@@ -237,6 +237,16 @@ namespace classdesc
               }
           }
       }
+    else if (leadin=="--") // comment, extending to the first -->
+      {
+        leadin.clear();
+        while (leadin!="-->")
+          {
+            if (leadin.length()==3) leadin.erase(0,1);
+            leadin+=getNoEOF();
+          }
+        gobble_whitespace();
+      }
     else if (c!='>')
       gobble_comment();
     return "";
-- 
2.43.0


From fccaf660cf3f31af3ea8e121478d8ec620a03270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 026/116] fix: CDATA sections containing ]]> or ending in ] did
 not round trip

---
 xml_pack_base.h   | 8 +++++++-
 xml_unpack_base.h | 9 +++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index aa38053..8bd6c92 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -47,7 +47,13 @@ namespace classdesc
   }
 
   inline std::ostream& operator<<(std::ostream& o, const CDATA& x)
-  {return o<<"<![CDATA["<<static_cast<const std::string&>(x)<<"]]>";}
+  {
+    // a terminator within the data needs to be split over two sections
+    std::string s=x;
+    for (std::string::size_type i=0; (i=s.find("]]>",i))!=std::string::npos; i+=3)
+      s.insert(i+2,"]]><![CDATA[");
+    return o<<"<![CDATA["<<s<<"]]>";
+  }
   
   /**
      XML serialisation object
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 9160c0b..85148dc 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -218,13 +218,14 @@ namespace classdesc
     if (leadin=="[CDATA[")
       { // CDATA processing, add CDATA contents verbatim
         leadin.clear();
-        while ((c=getNoEOF()))
+        for (;;)
           {
+            c=getNoEOF();
             if (c==']')
-              if (leadin=="]")
-                leadin+=c;
+              if (leadin=="]]")
+                tok+=c; // only the last two ]s may be part of the terminator
               else
-                leadin=c;
+                leadin+=c;
             else if (c=='>' && leadin=="]]")
               {
                 text=true;
-- 
2.43.0


From 6ff9677d3b4c7a44a2a15a6fadb0d63e159cf370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 027/116] fix: some mismatched XML end tags were accepted

---
 xml_unpack_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 85148dc..0d90ed5 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -544,7 +544,9 @@ namespace classdesc
 
     // finish parsing end tag
     tok=stream.tokenNoEOF();
-    if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
+    if (scope.length()<tok.length() || 
+        scope.compare(scope.length()-tok.length(),tok.length(),tok)!=0 ||
+        (scope.length()>tok.length() && scope[scope.length()-tok.length()-1]!='.')) //tok matches last part of scope
       throw xml_pack_error("unexpected end tag");
     for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
   }
-- 
2.43.0


From b746b37337e2629cb94f3674d9112284f502c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 028/116] fix: empty strings were not read back from XML

---
 xml_unpack_base.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 0d90ed5..695b48c 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -461,7 +461,8 @@ namespace classdesc
           // strip any white space
           val.erase(remove_if(val.begin(), val.end(), Isspace), val.end());
           for (size_t i=0; i<val.length(); ++i) val[i]=char(tolower(val[i]));
-          var = val=="1" || val=="t" || val=="true"|| val=="y"|| val=="yes" || 
+          if (!val.empty())
+            var = val=="1" || val=="t" || val=="true"|| val=="y"|| val=="yes" || 
             val=="on";
         }
     }
@@ -525,21 +526,33 @@ namespace classdesc
     std::string scope_idx=idx(scope,tokenCount[scope]++);
 
     std::string tok;
+    bool leaf=true; // no attributes or child elements
     //parse attributes
     for (tok=stream.tokenNoEOF(); tok!=">" && tok!="/>"; tok=stream.tokenNoEOF())
-      if (!isspace(tok)) process_attribute(stream, scope_idx+"."+tok);
+      if (!isspace(tok)) 
+        {
+          process_attribute(stream, scope_idx+"."+tok);
+          leaf=false;
+        }
     
-    if (tok=="/>") return;
+    if (tok=="/>") 
+      {
+        if (leaf) contentMap[scope_idx]=""; // the empty string
+        return;
+      }
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
     for (tok=stream.tokenNoEOF(); stream.isText() || tok!="</"; tok=stream.tokenNoEOF())
       if (!stream.isText() && tok=="<")
-        parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
+        {
+          parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
+          leaf=false;
+        }
       else 
         content+=tok;
 
-    if (content.size())
+    if (leaf || content.size())
       contentMap[scope_idx]=content; //override content (to handle masked private members)
 
     // finish parsing end tag
-- 
2.43.0


From 805f411b0a45c8da11f680552ce296215ef3d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 029/116] fix: enums missing from XML must not be updated

---
 xml_unpack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 695b48c..2e53d55 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -610,7 +610,8 @@ namespace classdesc
   // remove extraneous white space
   int (*isspace)(int)=std::isspace;
   std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
-  arg=tmp.substr(0,end-tmp.begin());
+  // leave arg alone if tag is missing
+  if (end!=tmp.begin()) arg=tmp.substr(0,end-tmp.begin());
 }
 
 
-- 
2.43.0


From 7eda19cafb4166f2c806612c583e3590d3fe4acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 030/116] fix: containers missing from XML must not be cleared

---
 xml_unpack_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 2e53d55..8e80ac4 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -625,6 +625,7 @@ namespace classdesc
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
 
+    if (!d.empty() && !x.exists(d)) return; // missing tag
     size_t cnt=x.count(d+"."+e);
     resize(arg,0); // clear container if resizable
     resize(arg,cnt);
@@ -643,6 +644,7 @@ namespace classdesc
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
 
+    if (!d.empty() && !x.exists(d)) return; // missing tag
     arg.clear();
     string prefix=d.empty()? e: d+"."+e;
     for (size_t i=0; i<x.count(prefix); ++i) 
-- 
2.43.0


From 00aeb470378ee3f342f9036662efddfd3bc66c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 031/116] fix: blanks following an XML comment are part of the
 content

---
 xml_unpack_base.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 8e80ac4..a1d2e65 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -246,7 +246,6 @@ namespace classdesc
             if (leadin.length()==3) leadin.erase(0,1);
             leadin+=getNoEOF();
           }
-        gobble_whitespace();
       }
     else if (c!='>')
       gobble_comment();
-- 
2.43.0


From 84d0ec6624b407e3b262cd8e1bbcee13e8638d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 032/116] fix: text spelling < in place of an XML root element
 was taken to be markup

---
 xml_unpack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index a1d2e65..85bd897 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -512,7 +512,7 @@ namespace classdesc
     std::string tok;    
     while (isspace(tok=stream.token()));
     if (tok.empty()) return;
-    if (tok=="<") 
+    if (!stream.isText() && tok=="<") 
       parse(stream,stream.tokenNoEOF());
     else
       throw xml_pack_error("no root element found");
-- 
2.43.0


From 592d2e406574302bc91e7da9dae81549461e7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 033/116] fix: members declared along with their enum were not
 described; commas within enumerator values were misread

---
 classdesc.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index d2d6b6a..6b0afb5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -267,15 +267,20 @@ void assign_enum_action(tokeninput& input, string prefix)
     {
       nested[prefix].push_back(bareEnumName);
       // load up the list of enum symbols
-      for ( ; input.token != ";"; input.nexttok())
+      for ( ; input.lasttoken != "}"; input.nexttok())
         {
           if (input.token == "=" || input.token == "," || input.token=="}")
             if (input.lasttoken!=",") //not sure if this is correct C++, but
               //compilers accept blank enumerator-definitions
               enum_keys[enumname].push_back(input.lasttoken);
           if (input.token == "=") {
-            for (input.nexttok(); input.token!="," && input.token!="}";
-                 input.nexttok()); //skip value
+            int depth=0; // of brackets within the value, which may contain commas
+            for (input.nexttok(); depth>0 || (input.token!="," && input.token!="}");
+                 input.nexttok()) //skip value
+              if (strchr("({[",input.token[0]) && input.token.length()==1)
+                depth++;
+              else if (strchr(")}]",input.token[0]))
+                depth--;
           }
         }
       actionlist_t actionlist;
@@ -584,7 +589,11 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               assign_enum_action(input,prefix);
             }
           else
-            gobble_delimited(input,"","}");
+            {
+              // skip any definition, but not the member being declared
+              while (!strchr(";,{=([",input.token[0])) input.nexttok();
+              if (input.token=="{") gobble_delimited(input,"{","}");
+            }
 	}
 
 
-- 
2.43.0


From 490098ec2deecc75612dd24d57fd6f04d1c5e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 034/116] fix: descriptors of empty enums did not compile

---
 classdesc.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6b0afb5..40ddf33 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -270,7 +270,7 @@ void assign_enum_action(tokeninput& input, string prefix)
       for ( ; input.lasttoken != "}"; input.nexttok())
         {
           if (input.token == "=" || input.token == "," || input.token=="}")
-            if (input.lasttoken!=",") //not sure if this is correct C++, but
+            if (input.lasttoken!="," && input.lasttoken!="{") //not sure if this is correct C++, but
               //compilers accept blank enumerator-definitions
               enum_keys[enumname].push_back(input.lasttoken);
           if (input.token == "=") {
@@ -1464,6 +1464,9 @@ int main(int argc, char* argv[])
                              "sizeof(enum_keysData< %s >::keysData[0]));\n",
                              n.c_str(),n.c_str(),n.c_str(),n.c_str(),n.c_str());
                     }
+                  else // no symbols defined
+                    printf("template <> EnumKeys< %s > enum_keysData< %s >::keys(NULL,0);\n",
+                           n.c_str(),n.c_str());
                   printf("template <> int enumKey< %s >(const std::string& x)"
                          "{return int(enum_keysData< %s >::keys(x));}\n",
                          n.c_str(),n.c_str());
-- 
2.43.0


From f78200a351665bfb47d54b000aa071d4b3fb5bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 035/116] fix: enum struct definitions were not described

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 40ddf33..1409cd9 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -250,7 +250,7 @@ set<string> token_set(const string& s)
 void assign_enum_action(tokeninput& input, string prefix)
 {
   string enumname="enum ";
-  if (input.token=="class")
+  if (input.token=="class" || input.token=="struct") // the same for enums
     {
       input.nexttok();
       enumname+="class ";
-- 
2.43.0


From 7d13db8fa67900ada6b1d997bdeaf19ccd23e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 036/116] fix: XML processing instructions containing quotes or
 angle brackets were not skipped correctly

---
 xml_unpack_base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 85bd897..9bfdb2a 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -259,8 +259,9 @@ namespace classdesc
     switch (c)
       {
       case '!': return processBang(tok,c);
-      case '?': //we have a comment or XML declaration, which we ignore, except for CDATA
-        gobble_comment(); return "";
+      case '?': //we have a processing instruction or XML declaration, which we ignore
+        for (char last='\0'; (c=getNoEOF())!='>' || last!='?'; last=c); // extends to the first ?>
+        return "";
       case '/': //we have begin end tag token
         inTag=true;
         return  retval('/',tok);
-- 
2.43.0


From 96636f1740af80394cec564b7ff461fee0d841c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 037/116] fix: random_init_t::rand() could return 1, giving
 enum values from beyond the table

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index e7830e9..74f47d0 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -21,7 +21,7 @@ namespace classdesc
   {
   public:
     /// return a uniform random number in [0..1)
-    virtual double rand() {return double(std::rand())/RAND_MAX;}
+    virtual double rand() {return std::rand()/(double(RAND_MAX)+1);}
     virtual ~random_init_t() {}
   };
 
-- 
2.43.0


From 5516dfd9a77f3adf3bc21aaa66a66f6188c53424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 038/116] fix: array members were not randomly initialised

---
 random_init_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/random_init_base.h b/random_init_base.h
index 74f47d0..933900f 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -84,13 +84,13 @@ namespace classdesc
 
   // array handling
   template <class T>
-  void random_init(random_init_t& r, const string& d, is_array ia, const T& a, 
+  void random_init(random_init_t& r, const string& d, is_array ia, T& a, 
             int ndims,size_t ncopies,...)
   {
     std::va_list ap;
     va_start(ap,ncopies);
     size_t cnt=ncopies;
-    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,size_t);
+    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,int);
     va_end(ap);
     for (size_t i=0; i<cnt; ++i)
       random_init(r,d,(&a)[i]);
-- 
2.43.0


From d03bacab112f04c4a85dd4d0afbd83b781503bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 039/116] fix: map keys were not randomly initialised

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index 933900f..92a8509 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -135,7 +135,7 @@ namespace classdesc
     int numElem=int(10*r.rand());
     for (int i=0; i<numElem; ++i)
       {
-        typename T::value_type v;
+        typename NonConstKeyValueType<typename T::value_type>::T v;
         random_init(r,d,v);
         a.insert(v);
       }
-- 
2.43.0


From 3d47a7ba9380d8c5d67b1cfe0bce94fbe79ded74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 040/116] fix: random_init of unique_ptr did not compile

---
 random_init_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_epilogue.h b/random_init_epilogue.h
index b70691c..c405c4e 100644
--- a/random_init_epilogue.h
+++ b/random_init_epilogue.h
@@ -71,7 +71,7 @@ namespace classdesc_access
   {
     void operator()(cd::random_init_t& x, const cd::string& d, 
                     std::unique_ptr<T,D>& a)
-    {json_pack_smart_ptr(x,d,a);}
+    {random_init_smart_ptr(x,d,a);}
   };
 
 #endif
-- 
2.43.0


From 55706ff7e33a5061224c42881c68c109275a5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 041/116] fix: MultiArrays of rank 3 and above had wrong
 strides or did not compile, and an empty dimension divided by zero

---
 multiArray.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index 0feacac..46d2a01 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -32,16 +32,15 @@ namespace classdesc
 #if defined(__cplusplus) && __cplusplus>=201703L
     void constructDim(size_t& d, size_t dd)
     {
+      // stride is the product of all but the last dimension
+      if (d>0) m_stride*=dim[d-1];
       dim[d++]=dd;
-      m_stride*=dd;
     }
     template <class... Args>
     void constructDims(size_t d, Args... args)
     {
       m_stride=1;
       (constructDim(d,args),...);
-      // fold expression multiplies m_stride by one too many dimensions
-      if (d>0) m_stride/=dim[d-1];
     }
 #else
 
@@ -76,6 +75,7 @@ namespace classdesc
     MultiArray(T* data, const size_t a_dim[]): m_data(data)
     {
       memcpy(dim, a_dim, sizeof(dim));
+      for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
     }
     
     size_t size() const {return dim[Rank-1];}
@@ -84,7 +84,8 @@ namespace classdesc
       return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);
     }
     MultiArray<T,Rank-1> operator[](size_t i)  {
-      return MultiArray<T,Rank-1>(m_data+i*m_stride, dim);
+      // const size_t* selects the constructor from an array of dimensions
+      return MultiArray<T,Rank-1>(m_data+i*m_stride, static_cast<const size_t*>(dim));
     }
 
     /// return if this refers to the same memory location as x
-- 
2.43.0


From 2a952a13484d23b56982c0f70708e1c68f7894c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 042/116] fix: null refs and unique_ptrs came back non-null
 from XML, and refs and elements of pointers to plain values were wrapped
 twice

---
 polyAccessXMLPack.h | 19 +++++++++++++++++++
 xml_pack_base.h     | 26 ++++++++++++++++++++++++++
 xml_pack_epilogue.h | 22 ++++++++++++++++++++++
 3 files changed, 67 insertions(+)

diff --git a/polyAccessXMLPack.h b/polyAccessXMLPack.h
index e3c68f8..4e6d390 100644
--- a/polyAccessXMLPack.h
+++ b/polyAccessXMLPack.h
@@ -47,6 +47,16 @@ namespace classdesc
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a)
   {xml_pack_smart_ptr(x,d,a);}
 
+  // elements of containers. A null still needs an element
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, const shared_ptr<T>& a)
+  {
+    if (a)
+      xml_pack_smart_ptr(x,d,a);
+    else
+      xml_pack_t::Tag t(x,d);
+  }
+
 #if defined(__cplusplus) && __cplusplus<=201402
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
 #pragma GCC diagnostic push
@@ -64,6 +74,15 @@ namespace classdesc
   template<class T, class D>
   void xml_pack(xml_pack_t& x, const string& d, std::unique_ptr<T,D>& a)
   {xml_pack_smart_ptr(x,d,a);}
+
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, const std::unique_ptr<T,D>& a)
+  {
+    if (a)
+      xml_pack_smart_ptr(x,d,a);
+    else
+      xml_pack_t::Tag t(x,d);
+  }
 #endif
 
 #endif
diff --git a/xml_pack_base.h b/xml_pack_base.h
index 8bd6c92..75e2b3f 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -267,6 +267,32 @@ namespace classdesc
   // special handling of shared pointers to avoid a double wrapping problem
   template<class T>
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a);
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, const shared_ptr<T>& a);
+
+#if defined(__cplusplus) && __cplusplus<=201402
+#if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+#endif
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, std::auto_ptr<T>& a);
+#if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
+#pragma GCC diagnostic pop
+#endif
+#endif
+
+#if defined(__cplusplus) && __cplusplus >= 201103L
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, std::unique_ptr<T,D>& a);
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, const std::unique_ptr<T,D>& a);
+#endif
+
+  // likewise for refs
+  template <class T> class ref;
+  template <class T> void xml_pack(xml_pack_t& x, const string& d, ref<T>& a);
+  template <class T> void xml_pack(xml_pack_t& x, const string& d, const ref<T>& a);
 
   template<class T>
   void xml_pack(xml_pack_t& targ, const string& desc, is_graphnode, T&)
diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index d79a02b..27b40ad 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -269,6 +269,28 @@ namespace classdesc_access
 
 #ifdef CLASSDESC_REF_H
 #ifdef CLASSDESC_XML_PACK_BASE_H
+}
+
+namespace classdesc
+{
+  // a null ref has no element, and others are not wrapped twice
+  template <class T> void xml_pack(xml_pack_t& x, const string& d, ref<T>& a)
+  {
+    if (a) xml_pack(x,d,*a);
+  }
+
+  // elements of containers. A null still needs an element
+  template <class T> void xml_pack(xml_pack_t& x, const string& d, const ref<T>& a)
+  {
+    if (a)
+      xml_pack(x,d,const_cast<T&>(*a));
+    else
+      xml_pack_t::Tag t(x,d);
+  }
+}
+
+namespace classdesc_access
+{
   template <class T> struct access_xml_pack<cd::ref<T> >
   {
     void operator()(cd::xml_pack_t& x, const cd::string& d, cd::ref<T>& a)
-- 
2.43.0


From f0c757c63b9ca6eda5c945f0b38ef2962b6f3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 043/116] fix: tuples of differing or compound types did not
 round trip through XML

---
 xml_pack_epilogue.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index 27b40ad..4654ff0 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -44,7 +44,7 @@ namespace classdesc_access
           // strip leading namespace and qualifiers
           const char *e=eName.c_str()+eName.length();
           while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-          ::xml_pack(o,e,std::get<0>(a));
+          ::xml_pack(o,d+"."+e,std::get<0>(a));
           auto tail=classdesc::tupleTail(a);
           xml_pack_tuple_element(o,d,tail);
         }
@@ -83,13 +83,20 @@ namespace classdesc_access
   struct access_xml_unpack<std::tuple<A...>>
   {
     template <class T>
-    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a, int i)
+    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a,
+                                  std::map<std::string,int>& count)
     {
       if constexpr (std::tuple_size<T>::value>0)
         {
-          ::xml_unpack(o,classdesc::idx(d,i),std::get<0>(a));
+          // element name is given by the type name
+          std::string eName=classdesc::typeName<typename std::tuple_element<0,T>::type>();
+          eName=eName.substr(0,eName.find('<')); //trim off any template args
+          // strip leading namespace and qualifiers
+          const char *e=eName.c_str()+eName.length();
+          while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
+          ::xml_unpack(o,classdesc::idx(d+"."+e,count[e]++),std::get<0>(a));
           auto tail=classdesc::tupleTail(a);
-          xml_unpack_tuple_element(o,d,tail,i+1);
+          xml_unpack_tuple_element(o,d,tail,count);
           a=std::tuple_cat(std::make_tuple(std::get<0>(a)), tail);
         }
     }
@@ -97,13 +104,8 @@ namespace classdesc_access
     template <class U>
     void operator()(classdesc::xml_unpack_t& o, const cd::string& d, U& a)
     {
-      // element name is given by the type name
-      std::string eName=classdesc::typeName<typename std::tuple_element<0,std::tuple<A...>>::type>();
-      eName=eName.substr(0,eName.find('<')); //trim off any template args
-      // strip leading namespace and qualifiers
-      const char *e=eName.c_str()+eName.length();
-      while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-      xml_unpack_tuple_element(o,d+"."+e,a,0);
+      std::map<std::string,int> count; // number of elements read, by name
+      xml_unpack_tuple_element(o,d,a,count);
     }
   };
 #endif
-- 
2.43.0


From fd4a07898f9e131c3d6d96f374d9775b40db4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 044/116] fix: XML of arrays of template types was ill-formed

---
 xml_pack_base.h   | 1 +
 xml_unpack_base.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 75e2b3f..4d151fe 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -228,6 +228,7 @@ namespace classdesc
 
     // element name is given by the type name
     string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 9bfdb2a..50d63f3 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -594,6 +594,7 @@ namespace classdesc
     va_end(ap);
 
     classdesc::string eName=classdesc::typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-- 
2.43.0


From 908585a827552946f63bc774551e0f775ea27e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 045/116] fix: [[ within strings and comments was taken for an
 attribute; unterminated attributes and continuations at the end of input hung
 the generators

---
 tokeninput.h | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 784daaa..f965f00 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -25,7 +25,9 @@ class tokeninput
   FILE* outputstream;
   int c;
   int lineno;
-  char getnextc() 
+  /* literal is true within strings and comments, where [[ does not
+     start an attribute */
+  char getnextc(bool literal=false) 
   {
     c=fgetc(inputstream); 
     switch (c)
@@ -39,19 +41,29 @@ class tokeninput
         c=fgetc(inputstream); 
         if (c=='\n') 
           {
-            c=fgetc(inputstream); 
+            lineno++;
             if (outputstream) fprintf(outputstream,"\\\n");
+            return getnextc(literal);
           }
         else {ungetc(c,inputstream); c='\\';}
         break;
 
       case '[':
+        if (literal) break;
         c=fgetc(inputstream); 
         if (c=='[') // attribute leadin - discard attribute
           {
             char lc=c;
-            while ((c=fgetc(inputstream)) != ']' || lc!=']') lc=c;
-            getnextc();
+            if (outputstream) fprintf(outputstream,"[[");
+            while ((c=fgetc(inputstream)) != ']' || lc!=']')
+              {
+                if (c==EOF) throw eof();
+                if (c=='\n') lineno++;
+                if (outputstream) fputc(c,outputstream); 
+                lc=c;
+              }
+            if (outputstream) fputc(c,outputstream); 
+            return getnextc();
           }
         else
           {ungetc(c,inputstream); c='[';}
@@ -95,9 +107,9 @@ public:
         while (c!='\n' && !feof(inputstream)) 
           {
             if (c!='\r') token+=c; //ignore '\r' (DOS files)
-            if (c=='/' && getnextc()=='*') /* strip comments */
-              for (char l=getnextc(); l!='*' || c!='/'; l=c, getnextc());
-            getnextc();
+            if (c=='/' && getnextc(true)=='*') /* strip comments */
+              for (char l=getnextc(true); l!='*' || c!='/'; l=c, getnextc(true));
+            getnextc(true);
           }
         if (token.find("#pragma")==0) 
           return; /* parse any pragma omits appearing on stdin */
@@ -115,7 +127,7 @@ public:
           {
             token+=c;
             escape=c=='\\' && !escape;
-            getnextc();
+            getnextc(true);
           }
         while (c!=terminal || escape);
         token+=c;   /* include terminal " */
@@ -196,18 +208,18 @@ public:
             case '/':  /* check for comments, and remove from input stream */
               if (c=='*') 
                 {
-                  lc=getnextc();
+                  lc=getnextc(true);
                   while (lc!='*' || c!='/')
                     {
                       lc=c;
-                      getnextc();
+                      getnextc(true);
                     }
                   getnextc();  /* load up next character from input stream */
                   goto nexttok_again; /* get next token */
                 }
               else if (c=='/')
                 {
-                  while (c!='\n') getnextc();
+                  while (c!='\n') getnextc(true);
                   goto nexttok_again; /* get next token */              
                 }
               break;
-- 
2.43.0


From 38c9c72e115ea02f7be103ec551f70301a4a7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 046/116] fix: preprocessor directives ending in a slash, or
 containing strings that look like comments, swallowed the lines after them

---
 tokeninput.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index f965f00..c49e942 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -106,10 +106,28 @@ public:
       {
         while (c!='\n' && !feof(inputstream)) 
           {
-            if (c!='\r') token+=c; //ignore '\r' (DOS files)
-            if (c=='/' && getnextc(true)=='*') /* strip comments */
-              for (char l=getnextc(true); l!='*' || c!='/'; l=c, getnextc(true));
+            char lc=c;
             getnextc(true);
+            if (lc=='/' && c=='*') /* strip comments */
+              {
+                for (char l=getnextc(true); l!='*' || c!='/'; l=c, getnextc(true));
+                getnextc(true);
+              }
+            else if (lc=='/' && c=='/')
+              while (c!='\n') getnextc(true);
+            else
+              {
+                if (lc!='\r') token+=lc; //ignore '\r' (DOS files)
+                if (lc=='"' || lc=='\'') /* comments don't start within literals */
+                  for (bool escape=false; c!='\n'; )
+                    {
+                      bool end=c==lc && !escape;
+                      escape=c=='\\' && !escape;
+                      token+=c;
+                      getnextc(true);
+                      if (end) break;
+                    }
+              }
           }
         if (token.find("#pragma")==0) 
           return; /* parse any pragma omits appearing on stdin */
-- 
2.43.0


From 552aef74fe25dcd23ed1c30dd3ed5028b96c2177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 047/116] fix: the last token of input without a final newline
 was lost, and empty input aborted

---
 tokeninput.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index c49e942..a2addfb 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -25,6 +25,7 @@ class tokeninput
   FILE* outputstream;
   int c;
   int lineno;
+  bool atEnd; /* end of input has been reached */
   /* literal is true within strings and comments, where [[ does not
      start an attribute */
   char getnextc(bool literal=false) 
@@ -57,7 +58,7 @@ class tokeninput
             if (outputstream) fprintf(outputstream,"[[");
             while ((c=fgetc(inputstream)) != ']' || lc!=']')
               {
-                if (c==EOF) throw eof();
+                if (c==EOF) {atEnd=true; throw eof();}
                 if (c=='\n') lineno++;
                 if (outputstream) fputc(c,outputstream); 
                 lc=c;
@@ -69,7 +70,10 @@ class tokeninput
           {ungetc(c,inputstream); c='[';}
         break;
       case EOF:
-        throw eof();
+        /* the last line may lack its newline */
+        if (atEnd) throw eof();
+        atEnd=true;
+        c='\n';
         break;
       }
     if (outputstream &&!feof(inputstream)) 
@@ -80,7 +84,7 @@ public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; getnextc(); lineno=1;}
+  {inputstream=in; outputstream=out; atEnd=false; getnextc(); lineno=1;}
 
   int line() const {return lineno;}
 
-- 
2.43.0


From 448bc1eb1242cd819dcd07847767e05c78196ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 048/116] fix: digit separators and raw strings were read as
 character and ordinary string literals

---
 tokeninput.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index a2addfb..7d0a2f2 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -254,11 +254,29 @@ public:
       }
     else 
       {
-        while (isalnum(c) || c=='_') 
+        /* numbers may contain digit separators */
+        while (isalnum(c) || c=='_' || (c=='\'' && isdigit(token[0]))) 
           {
             token+=c;
             getnextc();
           }
+        if (c=='"' && (token=="R" || token=="LR" || token=="uR" || 
+                       token=="UR" || token=="u8R")) /* raw string literal */
+          {
+            string terminal=")";
+            for (getnextc(true); c!='('; getnextc(true)) terminal+=c;
+            terminal+='"';
+            string body;
+            do
+              {
+                token+=c;
+                body+=c;
+                getnextc(true);
+              }
+            while (body.length()<terminal.length() ||
+                   body.compare(body.length()-terminal.length(),
+                                terminal.length(),terminal)!=0);
+          }
       }
   }
 };
-- 
2.43.0


From 079ed413fe56267887263f992a941cba2a9f4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 049/116] fix: commas and braces within member initialisers
 were taken for the ends of declarators and of the class

---
 classdesc.cc | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 1409cd9..e3e0251 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -350,6 +350,23 @@ public:
   }
 };
 
+/* skip over field specifier or initializer up to the next declarator or
+   the end of the declaration. Within an initializer < may be either an
+   operator, or the start of template arguments. angles is the number of
+   those unmatched */
+void skip_initializer(tokeninput& input, int& angles)
+{
+  for (int depth=0; depth>0 || !strchr(";,",input.token[0]); input.nexttok())
+    if (input.token.length()==1 && strchr("({[",input.token[0]))
+      depth++;
+    else if (strchr(")}]",input.token[0]))
+      depth--;
+    else if (depth==0 && input.token=="<")
+      angles++;
+    else if (depth==0 && (input.token==">" || input.token==">>"))
+      angles=max(0,angles-int(input.token.length()));
+}
+
 actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", string targs="")
 {
   actionlist_t         actionlist;
@@ -364,6 +381,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
   string               rType;
   string returnType;
   set<string> usingNames;
+  int angles=0; // number of unmatched < in an initializer
+  size_t before_comma=string::npos; // number of actions when these were seen
 
   /* handle inheritance */
   for (;; input.nexttok() )
@@ -491,6 +510,27 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
             
         }
       
+      /* a comma within template arguments of an initializer does not
+         separate declarators */
+      if (input.lasttoken==";")
+        {
+          angles=0;
+          before_comma=string::npos;
+        }
+      if (angles>0 && input.token[0]=='>')
+        {
+          if (before_comma!=string::npos)
+            actionlist.erase(actionlist.begin()+before_comma,actionlist.end());
+          before_comma=string::npos;
+          skip_initializer(input,angles);
+          continue;
+        }
+      if (angles>0 && input.token=="<")
+        {
+          angles++;
+          continue;
+        }
+
       rType += input.token + " ";
 
       /* skip public/private etc labels */
@@ -615,6 +655,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	{ rType.erase();
 	  if (isIdentifierStart(input.lasttoken[0]))
             {
+              if (angles>0 && before_comma==string::npos)
+                before_comma=actionlist.size();
               // One cannot create a member pointer of a reference
               // member, so we need to use old style methods to access
               // it
@@ -625,10 +667,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 reg.register_class(input.lasttoken,"",
                                    varname+"." + input.lasttoken );
             }
-          if (input.token[0]=='{')
-            gobble_delimited(input,"{","}");
-	  /* skip over field specifier or initializer */
-	  while (!strchr(";,",input.token[0])) input.nexttok();
+	  skip_initializer(input,angles);
 	}
 
       /* operator members - discard these */
@@ -813,6 +852,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  if (!objc) action.erase(action.size()-1,1); /* remove trailing "," */
           else  action+="\"";
 	  reg.register_class(name,name,action);
+          if (input.token[0]=='=' || input.token[0]=='{')
+            skip_initializer(input,angles);
 	}
 
       if (input.token=="{")  /* skip function/enum/whatever definitions */
-- 
2.43.0


From 986c6f35e22f845b6d554fa0dc788afe25f4d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 050/116] fix: members following a friend function defined
 within the class were not described

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index e3e0251..d28b203 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -693,7 +693,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="static") reg.is_static=true;
       if (input.token=="const") reg.is_const=true;
       if (input.token=="friend")  /* skip friend statement */
-        while (input.token!=";")
+        while (input.token!=";" && input.token!="{") /* may be defined inline */
           input.nexttok();
 
       if (input.token[0]=='(') /* member functions, or function pointers */
-- 
2.43.0


From 29fee8a3682e7860daef33c24cd3b06c5c0b009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 051/116] fix: constructors with braced member initialisers and
 function try blocks added members that do not exist

---
 classdesc.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index d28b203..4f7f8f2 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -696,6 +696,12 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
         while (input.token!=";" && input.token!="{") /* may be defined inline */
           input.nexttok();
 
+      if (input.token=="(" && input.lasttoken=="catch") /* of a function try block */
+        {
+          gobble_delimited(input,"(",")");
+          input.nexttok();
+        }
+
       if (input.token[0]=='(') /* member functions, or function pointers */
 	{
 	  string memname=input.lasttoken;        // function name
@@ -731,11 +737,19 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 
           // look ahead for const or deleted specification
           bool is_const=false, deleted=false;
+          bool initializers=false; // within constructor's member initializers
 	  while (!strchr(";{",input.token[0]))
             {
               input.nexttok();
               if (input.token=="const") is_const=true;
               if (input.token=="delete") deleted=true;
+              if (input.token==":") initializers=true;
+              if (initializers && input.token=="(")
+                gobble_delimited(input,"(",")");
+              // the body's brace follows an initializer, rather than a name
+              if (initializers && input.token=="{" && 
+                  (isIdentifierChar(input.lasttoken[0]) || input.lasttoken[0]=='>'))
+                gobble_delimited(input,"{","}");
             }
 
 	  /* member functions require object passed as well*/
-- 
2.43.0


From 1fa6f895d5e8f6f6bcd9abb2156f0c5247777247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 052/116] fix: the name of a union defined within a class was
 described as a member, and only the last variable of such a union was

---
 classdesc.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 4f7f8f2..f844520 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -637,16 +637,22 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	}
 
 
-      /* handle unnamed unions as a special case */
-      if (input.lasttoken=="union" && input.token=="{")
+      /* handle unions defined here as a special case */
+      if (input.token=="union")
 	{
+          input.nexttok();
+          if (isIdentifierStart(input.token[0])) input.nexttok();
+          if (input.token!="{") continue; // type defined elsewhere
 	  gobble_delimited(input,"{","}");
-	  while (input.token!=";") input.nexttok();
-          if (isIdentifierStart(input.lasttoken[0]))
-            reg.register_class
-              (input.lasttoken,input.lasttoken,
-               "classdesc::is_array(),(char&)("+varname+"."+input.lasttoken+
-               "),1,sizeof("+varname+"."+input.lasttoken+")");
+          do
+            {
+              input.nexttok();
+              if (strchr(",;",input.token[0]) && isIdentifierStart(input.lasttoken[0]))
+                reg.register_class
+                  (input.lasttoken,input.lasttoken,
+                   "classdesc::is_array(),(char&)("+varname+"."+input.lasttoken+
+                   "),1,sizeof("+varname+"."+input.lasttoken+")");
+            } while (input.token!=";");
           continue;
 	}
 	
-- 
2.43.0


From 2ce36538a4a57fc04f188fa9ce48babba2bd5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 053/116] fix: static, const and template carried over from one
 member's declaration to the next, and static was lost after the first of
 several declarators

---
 classdesc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index f844520..b5141b3 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -346,7 +346,6 @@ public:
         else
           actionlist.push_back(act_pair("."+name,action,memberName,is_static));
       }
-    is_static=false;
   }
 };
 
@@ -510,13 +509,16 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
             
         }
       
-      /* a comma within template arguments of an initializer does not
-         separate declarators */
+      /* start of a new declaration */
       if (input.lasttoken==";")
         {
+          reg.is_static=reg.is_const=is_template=false;
+          is_virtual=0;
           angles=0;
           before_comma=string::npos;
         }
+      /* a comma within template arguments of an initializer does not
+         separate declarators */
       if (angles>0 && input.token[0]=='>')
         {
           if (before_comma!=string::npos)
-- 
2.43.0


From d689650d8a2db52f6ed2e03f588f18e35e71cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 054/116] fix: static_assert and decltype within classes were
 described as member functions

---
 classdesc.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index b5141b3..6af4bdb 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -693,8 +693,9 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  reg.is_static=false;
 	}
 
-      // alignas declarations need to be discarded
-      if (input.token=="alignas") 
+      // alignas declarations etc. need to be discarded
+      if (input.token=="alignas" || input.token=="static_assert" ||
+          input.token=="decltype") 
         {input.nexttok(); gobble_delimited(input,"(",")");}
 
       if (input.token=="virtual") is_virtual=true;
-- 
2.43.0


From 0b240211590ea80da3e4e17ede7e1613ab66e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 055/116] fix: unnamed bit-fields were described

---
 classdesc.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 6af4bdb..2b1f3ce 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -133,6 +133,12 @@ struct action_t
   }
 };
 
+bool isFundamentalType(const string& s)
+{
+  return s=="int" || s=="unsigned" || s=="signed" || s=="char" || s=="short" ||
+    s=="long" || s=="bool";
+}
+
 // predicate indicating invalid preprocessor token character
 struct NotAlNumUnderScore
 {
@@ -661,7 +667,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       /* scalar member type */
       if (strchr("{;,:=",input.token[0]) && input.token!="::")
 	{ rType.erase();
-	  if (isIdentifierStart(input.lasttoken[0]))
+	  if (isIdentifierStart(input.lasttoken[0]) && 
+              (input.token!=":" || !isFundamentalType(input.lasttoken))) // unnamed bit-field
             {
               if (angles>0 && before_comma==string::npos)
                 before_comma=actionlist.size();
-- 
2.43.0


From 652d5c88c47594be2d39c07d123859620123e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 056/116] fix: subscripts within array bounds were taken for
 the end of the bound

---
 classdesc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 2b1f3ce..4c636bd 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -864,8 +864,10 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	    {
 	      dim++;
 	      input.nexttok();
-	      for (;input.token!="]"; input.nexttok())
+	      for (int depth=0; depth>0 || input.token!="]"; input.nexttok())
               {
+                 if (input.token=="[") depth++;
+                 if (input.token=="]") depth--;
                  if (!objc)
                     action2 += " " + input.token;
                  else                                 // objc
-- 
2.43.0


From 9af23f5b85bf52d5cf68071f616ffb3a2b2d5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 057/116] fix: members having the same name as a type for which
 there is an alias in the class were not described

---
 classdesc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 4c636bd..82975a1 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -585,12 +585,14 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="using") //ignore using declarations
         {
           string lastToken;
+          bool alias=false; // type alias, not a using declaration
           while (input.token!=";") 
             {
               lastToken=input.token;
               input.nexttok();     
+              if (input.token=="=") alias=true;
             }  
-          usingNames.insert('.'+lastToken);
+          if (!alias) usingNames.insert('.'+lastToken);
 
           continue;
         }
-- 
2.43.0


From 490bca3fc0f6baa6edb94d08457368d53e029ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 058/116] fix: final classes were not described

---
 classdesc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/classdesc.cc b/classdesc.cc
index 82975a1..ca9798a 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1094,6 +1094,7 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
       input.nexttok();
       classname+="::"+input.token;
     }
+  if (input.token=="final") input.nexttok();
   if (strchr(":{",input.token[0]))
     {
       action_t action(classtok+classname,
-- 
2.43.0


From e2720a6d75871f61e64103bf34fd8c47aac71f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 059/116] fix: classes with an alignment specification were not
 described

---
 classdesc.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index ca9798a..5a0b749 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -303,6 +303,19 @@ void assign_class_action(tokeninput& input, string prefix,
 			 string template_args, string classargs, 
                          bool is_private);
 
+// skip over alignment specification between class keyword and name
+void skip_alignas(tokeninput& input)
+{
+  if (input.token=="alignas")
+    {
+      string classtok=input.lasttoken;
+      input.nexttok();
+      gobble_delimited(input,"(",")");
+      input.nexttok();
+      input.lasttoken=classtok;
+    }
+}
+
 // search and replace any shorn class types with fully qualified versions
 string replaceShornTypes(const string& input, const string& shornType, const string& fullType)
 {
@@ -608,6 +621,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	  else
 	    targs2=targs+targs1;
 	  input.nexttok();
+          skip_alignas(input);
           if (!is_private && !is_template) nested[prefix].push_back(input.token);
 	  /* handle new templated typename rules */
 	  if (targs.length()) input.lasttoken="typename";
@@ -1413,6 +1427,7 @@ int main(int argc, char* argv[])
  	  if (input.token=="class" || input.token=="struct")
 	    {
 	      input.nexttok();
+              skip_alignas(input);
 	      if (isIdentifierStart(input.token[0]))  /* named class */
                 
 		assign_class_action(input,namespace_name,targs,targs,false);
-- 
2.43.0


From 53501e9d26036efceeaa7857c0bee6f37f46860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 060/116] fix: structures and unions named by a typedef within
 a namespace were described as if outside it

---
 classdesc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 5a0b749..2914249 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1410,7 +1410,8 @@ int main(int argc, char* argv[])
             }
 	  /* end namespace support */
 
-	  if (input.token=="typedef") parse_typedef(input);
+	  if (input.token=="typedef") 
+            parse_typedef(input,namespace_name=="::"? "": namespace_name);
 	  if (input.token=="template")
 	    {
 	      input.nexttok();
-- 
2.43.0


From 909f751d6ec4580ea84f1b802d936e77241c85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 061/116] fix: names given by a typedef starting with struct,
 class or enum were cut short

---
 classdesc.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 2914249..1345b73 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1194,11 +1194,11 @@ struct GuardMacro
 
 string type_qualifier(const string& type)
 {
-  if (leadeq(type,"class")) return "class";
-  if (leadeq(type,"struct")) return "struct";
-  if (leadeq(type,"enum class")) return "enum class";
-  if (leadeq(type,"enum")) return "enum";
-  if (leadeq(type,"typename")) return "typename";
+  if (leadeq(type,"class ")) return "class";
+  if (leadeq(type,"struct ")) return "struct";
+  if (leadeq(type,"enum class ")) return "enum class";
+  if (leadeq(type,"enum ")) return "enum";
+  if (leadeq(type,"typename ")) return "typename";
   return string();
 }
 
@@ -1526,7 +1526,7 @@ int main(int argc, char* argv[])
               }
             
             /* For enums, print out a value name table */
-            if (leadeq(actions[i].type,"enum")) 
+            if (leadeq(actions[i].type,"enum ")) 
               {
                 vector<string>& keys=enum_keys[actions[i].type];
                 {
@@ -1536,7 +1536,7 @@ int main(int argc, char* argv[])
                       printf("template <> EnumKey enum_keysData< %s >::keysData[]=\n {\n",n.c_str());
                       // enum constant qualifier - set blank if enum is global ns
                       string k;
-                      if (leadeq(actions[i].type,"enum class"))
+                      if (leadeq(actions[i].type,"enum class "))
                         k=n; // newer enum class constants are in their own namespace
                       else // old enum constants are in the external namespace
                         k=n.find("::")==string::npos? "":
-- 
2.43.0


From 98b82b1acc46c18eae1e40dfeba155d3ca303cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 062/116] fix: classes in nested namespace definitions were
 described as if outside the namespace

---
 classdesc.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 1345b73..86d1b6c 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1367,7 +1367,7 @@ int main(int argc, char* argv[])
 	  if (input.token=="using")
 	    /* skip over any using namespace statements */
 	    while (input.token!=";") input.nexttok();
-	  if (namespace_end.size() && input>namespace_end.top())
+	  while (namespace_end.size() && input>namespace_end.top())
 	    /* finished parsing namespace */
 	    {
 	      /* strip trailing :: */
@@ -1394,7 +1394,13 @@ int main(int argc, char* argv[])
               if (input.token!="{") // not anonymous
                 {
                   string name=input.token;
-                  input.nexttok();
+                  int depth=1;
+                  for (input.nexttok(); input.token=="::"; input.nexttok(), depth++)
+                    { // nested namespace definition
+                      input.nexttok();
+                      if (input.token=="inline") input.nexttok();
+                      name+="::"+input.token;
+                    }
                   if (input.token=="=") // namespace alias, skip over
                     while (input.token!=";") 
                       input.nexttok();
@@ -1403,7 +1409,8 @@ int main(int argc, char* argv[])
                       namespace_name+=name+"::";
                       tokeninput::mark_t here(input);
                       gobble_delimited(input,"{","}");
-                      namespace_end.push(tokeninput::mark_t(input));
+                      for (; depth>0; depth--)
+                        namespace_end.push(tokeninput::mark_t(input));
                       input=here;
                     }
                 }
-- 
2.43.0


From c8e5a3219c38d0f023dc34a7fcc78c70702549e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 063/116] fix: unknown options hung the generator

---
 classdesc.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 86d1b6c..85aef27 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1255,6 +1255,7 @@ int main(int argc, char* argv[])
   include_path.push_back(".");
   while (argc>1 && argv[1][0]=='-')  /* process options */
     {
+      int argc0=argc;
       if (strcmp(argv[1],"-workdir")==0)  /* place output files in workdir */
 	{
           if (argc<3) {puts("option argument missing"); return 1;} 
@@ -1325,6 +1326,11 @@ int main(int argc, char* argv[])
           argc--; argv++;
           qt=true;
         }
+      if (argc==argc0) /* not an option we know */
+        {
+          fprintf(stderr,"unknown option: %s\n",argv[1]);
+          return 1;
+        }
     }
 
   FILE* inputStream=stdin;
-- 
2.43.0


From f84d29f3887c9aed8b7a69067dd7e64ac7e5c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 064/116] fix: >> ending a default template argument, and
 brackets within one, were misread

---
 tokeninput.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tokeninput.h b/tokeninput.h
index 7d0a2f2..e5f65c2 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -355,11 +355,19 @@ string get_template_args(tokeninput& input)
     {
       /* strip out default arguments */
       if (input.token[0]=='=')
-        while (!strchr(">,",input.token[0]))
-          {
-            if (input.token[0]=='<') gobble_delimited(input,"<",">");
-            input.nexttok();
-          }
+        for (size_t angles=0; angles>0 || !strchr(">,",input.token[0]);
+             input.nexttok())
+          if (input.token=="(")
+            gobble_delimited(input,"(",")");
+          else if (input.token=="<")
+            angles++;
+          else if (input.token==">>" && angles==1)
+            {
+              input.token=">"; /* the other ends the arguments */
+              break;
+            }
+          else if (input.token[0]=='>')
+            angles-=input.token.length();
       targs += input.token;
       if (input.token!=".") targs+=" ";
       if (input.token[0]=='<') angle_count+=input.token.length();
-- 
2.43.0


From 16ee86a9cab2285a5e6e70851d9304632c2db0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 065/116] fix: descriptors of template specialisations
 differing only in operators shared a guard macro, so that only the first was
 seen

---
 classdesc.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 85aef27..bfb80b0 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -139,14 +139,6 @@ bool isFundamentalType(const string& s)
     s=="long" || s=="bool";
 }
 
-// predicate indicating invalid preprocessor token character
-struct NotAlNumUnderScore
-{
-  bool operator()(char x) const {
-    return !isIdentifierChar(x);
-  }
-};
-
 #if 0    // used for debugging purposes
 class actions_t: public vector<action_t>
 {
@@ -1177,15 +1169,29 @@ public:
   ~PrintNameSpace() {if (print) printf("}\n");}
 };
 
+// replace all non-legal identifier characters with '_'. Operators (eg
+// in template arguments) are given by their code, so that types that
+// differ only in these have differing names
+string guardName(const string& name)
+{
+  string r;
+  for (size_t i=0; i<name.length(); ++i)
+    if (isIdentifierChar(name[i]))
+      r+=name[i];
+    else
+      {
+        r+='_';
+        if (!strchr(" :<>,.",name[i])) r+=str(int(name[i]));
+      }
+  return r;
+}
+
 // add a guard macro around code generated by this scope
 struct GuardMacro
 {
   GuardMacro(string macro)
   {
-    // replace all non-legal identifier characters with '_'.
-    for (unsigned i=0; i<macro.length(); ++i)
-      if (!isalnum(macro[i]))
-        macro[i]='_';
+    macro=guardName(macro);
     printf("\n#ifndef %s\n",macro.c_str());
     printf("#define %s\n",macro.c_str());
   }
@@ -1510,9 +1516,7 @@ int main(int argc, char* argv[])
           n=without_type_qualifier(n);
 
           // add a guard macro around this code
-          string guardMacro="CLASSDESC_TYPENAME_"+n;
-          ::replace_if(guardMacro.begin(), guardMacro.end(), 
-                       NotAlNumUnderScore(), '_');
+          string guardMacro=guardName("CLASSDESC_TYPENAME_"+n);
           printf("#ifndef %s\n",guardMacro.c_str());
           printf("#define %s\n",guardMacro.c_str());
           {
-- 
2.43.0


From b011fc34b1cedc500323318f0dda5341473a0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 066/116] fix: specialisations on types nested in template
 classes were not described

---
 classdesc.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index bfb80b0..9eb2a04 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1112,22 +1112,21 @@ void assign_class_action(tokeninput& input, string prefix, string targs, string
       if (!is_private && prefix.find("<")==string::npos)
         {
           //check to see if template arguments appear before a scope
-          //operator. Note that we may be dealing with scope qualified
-          //template arguments, so we must do this for each scope
-          //chunk
-          vector<bool> templateSeen(1,false);
+          //operator, other than within the template arguments
+          bool templateSeen=false;
+          int angles=0;
           for (const char* c=classname.c_str(); *c!='\0'; ++c)
             switch (*c)
               {
               case '<':
-                templateSeen.back()=true;
-                templateSeen.push_back(false);
+                templateSeen=true;
+                angles++;
                 break;
               case '>':
-                templateSeen.pop_back();
+                angles--;
                 break;
               case ':':
-                if (*(c+1)==':' && templateSeen.back())
+                if (*(c+1)==':' && templateSeen && angles==0)
                   goto nestedInTemplate;
                 break;
               }
-- 
2.43.0


From 5f7af867f3d6509567914cf0d099b96587c72034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 067/116] fix: guard macros of specialisations on pointers are
 named as before

---
 classdesc.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 9eb2a04..e37e1f0 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -1168,9 +1168,9 @@ public:
   ~PrintNameSpace() {if (print) printf("}\n");}
 };
 
-// replace all non-legal identifier characters with '_'. Operators (eg
-// in template arguments) are given by their code, so that types that
-// differ only in these have differing names
+// replace all non-legal identifier characters with '_'. Operators
+// other than * (eg & in template arguments) are given by their code, so
+// that types that differ only in these have differing names
 string guardName(const string& name)
 {
   string r;
@@ -1180,7 +1180,7 @@ string guardName(const string& name)
     else
       {
         r+='_';
-        if (!strchr(" :<>,.",name[i])) r+=str(int(name[i]));
+        if (!strchr(" :<>,.*",name[i])) r+=str(int(name[i]));
       }
   return r;
 }
-- 
2.43.0


From 1259abd17aa912354e534d443eec89e025244820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 068/116] fix: type names of specialisations and of templates
 with integer parameters were those of other types, and those of variadic
 templates did not compile

---
 classdesc.cc | 126 ++++++++++++++++++++++++++++++++-------------------
 classdesc.h  |  15 +++++-
 2 files changed, 92 insertions(+), 49 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index e37e1f0..aaa8131 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -61,6 +61,26 @@ template <class T> std::string str(T x) {
       return "";
   }
 
+bool isFundamentalType(const string& s)
+{
+  return s=="int" || s=="unsigned" || s=="signed" || s=="char" || s=="short" ||
+    s=="long" || s=="bool";
+}
+
+// whether s names an integer type, possibly of several words
+bool isIntegerType(const string& s)
+{
+  istringstream is(s);
+  string word;
+  bool r=false;
+  while (is>>word)
+    if (isFundamentalType(word) || word=="size_t")
+      r=true;
+    else if (word!="const" && word!="std" && word!="::")
+      return false;
+  return r;
+}
+
 /* store the action strings (arguments passed) for base classes and
    members, for each class parsed */
 
@@ -87,58 +107,70 @@ struct action_t
     // TODO: handle template template parameters properly. For now,
     // ignore the problem in a syntactically valid way
     if (templ.find("template")!=string::npos)
-      tnTempl=templ;
-    else
-      // extract template typename parameters from templ, and replace with typename calls
-      for (size_t i=0; i<templ.size(); )
+      {
+        tnTempl=templ;
+        return;
+      }
+    // expressions giving the values of the template's parameters
+    map<string,string> params;
+    string args="<"; // of the primary template
+    for (size_t i=templ.find('<'); i!=string::npos && i+1<templ.size(); )
+      {
+        // grab out one parameter, and its name
+        size_t j=++i, end=i;
+        for (int braces=0; i<templ.size() && (braces>0 || !strchr(",>",templ[i])); ++i)
+          {
+            if (strchr("<({[",templ[i])) ++braces;
+            if (strchr(">)}]",templ[i])) --braces;
+            if (!isspace(templ[i])) end=i+1;
+          }
+        if (i>=templ.size()) break;
+        size_t nameStart=end;
+        while (nameStart>j && isIdentifierChar(templ[nameStart-1])) --nameStart;
+        string name=templ.substr(nameStart,end-nameStart);
+        string kind=trimWS(templ.substr(j,nameStart-j));
+        bool variadic=kind.find("...")!=string::npos;
+        string value;
+        if (kind=="class" || kind=="typename")
+          value="\"+typeName<"+name+">()+\"";
+        else if (kind=="class..." || kind=="class ..." || 
+                 kind=="typename..." || kind=="typename ...")
+          value="\"+varTn<"+name+"...>()+\"";
+        else if (isIntegerType(kind))
+          value="\"+classdesc::valueName("+name+")+\"";
+        if (value.empty())
+          tnTempl+=templ.substr(j-1,i-j+1);
+        else
+          {
+            params[name]=value;
+            tnTempl+=templ[j-1]+string(" ")+value+" ";
+          }
+        args+=name+(variadic? "...": "")+templ[i];
+      }
+    if (templ.find('<')!=string::npos) tnTempl+="> ";
+
+    string::size_type argStart=type.find('<');
+    if (argStart==string::npos) return;
+    string typeArgs=type.substr(argStart);
+    typeArgs.erase(remove(typeArgs.begin(),typeArgs.end(),' '),typeArgs.end());
+    if (typeArgs==args) return;
+    // specialisation: substitute parameters into the arguments given
+    tnTempl.clear();
+    typeArgs=type.substr(argStart);
+    for (size_t i=0; i<typeArgs.size(); )
+      if (isIdentifierStart(typeArgs[i]))
         {
-          // pick first of class or template
-          size_t j=templ.find("class",i);
-          if (j==string::npos) j=templ.size();
-          size_t jj=templ.find("typename",i);
-          if (jj!=string::npos && jj<j)
-            j=jj;
-          tnTempl+=te.substr(i,j-i);
-        
-          j=templ.find_first_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          j=templ.find_first_not_of(" \t",j);
-          bool variadic=templ.substr(j,3)=="...";
-          j=templ.find_first_not_of(" \t.",j);  // . for handling variadic arguments
-          if (j==string::npos) break; // we're done
-          int braces=0;
-          // grab out full type name
-          for (i=j; i<templ.size(); ++i)
-            {
-              switch(templ[i])
-                {
-                case '<':
-                  ++braces; continue;
-                case '>':
-                  if (--braces==0) break;
-                  continue;
-                default:
-                  if (isalnum(templ[i]) || templ[i]=='_' || braces>0)
-                    continue;
-                  else
-                    break;
-                }
-              break;
-            }
-          if (variadic)
-            tnTempl+="\"+varTn<"+templ.substr(j,i-j)+"...>()+\"";
-          else
-            tnTempl+="\"+typeName<"+templ.substr(j,i-j)+">()+\"";
+          size_t j=i;
+          while (j<typeArgs.size() && isIdentifierChar(typeArgs[j])) ++j;
+          string name=typeArgs.substr(i,j-i);
+          tnTempl+=params.count(name)? params[name]: name;
+          i=j;
         }
+      else
+        tnTempl+=typeArgs[i++];
   }
 };
 
-bool isFundamentalType(const string& s)
-{
-  return s=="int" || s=="unsigned" || s=="signed" || s=="char" || s=="short" ||
-    s=="long" || s=="bool";
-}
-
 #if 0    // used for debugging purposes
 class actions_t: public vector<action_t>
 {
diff --git a/classdesc.h b/classdesc.h
index 4112ab1..d50b346 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -581,10 +581,21 @@ namespace classdesc
 
 #if defined(__cplusplus) && __cplusplus>=201103L
   // handle variadic arguments
-  template <class T, class... A> std::string varTn() {return typeName<T>()+","+varTn<A...>();}
-  template <class T> std::string varTn() {return typeName<T>();}
+  template <class... A> struct VarTn;
+  template <> struct VarTn<> {static std::string name() {return "";}};
+  template <class T> struct VarTn<T> {static std::string name() {return typeName<T>();}};
+  template <class T, class U, class... A> struct VarTn<T,U,A...>
+  {static std::string name() {return typeName<T>()+","+VarTn<U,A...>::name();}};
+  template <class... A> std::string varTn() {return VarTn<A...>::name();}
 #endif
   
+  // handle integer template parameters
+  template <class T> std::string valueName(T x) {
+    std::ostringstream os;
+    os << +x;
+    return os.str();
+  }
+
   ///@{ a string representation of the type
   template <> inline std::string typeName<void>()    {return "void";}
   template <> inline std::string typeName<bool>()    {return "bool";}
-- 
2.43.0


From c46e6042bcc84832b0cc0007ccc4e9a46640ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 069/116] fix: input starting with an unterminated attribute
 aborted the generator

---
 tokeninput.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index e5f65c2..31a74be 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -84,7 +84,12 @@ public:
   struct eof {};  /* signal end of input */
   string token, lasttoken, tokenBeforeLast;
   tokeninput(FILE* in, FILE* out=NULL) 
-  {inputstream=in; outputstream=out; atEnd=false; getnextc(); lineno=1;}
+  {
+    inputstream=in; outputstream=out; atEnd=false; 
+    try {getnextc();} 
+    catch (eof) {c='\n';} /* nexttok() reports the end of input */
+    lineno=1;
+  }
 
   int line() const {return lineno;}
 
-- 
2.43.0


From cde700a288954631314d88c375bbf7c9d0023db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 070/116] fix: signatures of overloaded member functions were
 wrong for default arguments with commas, and for several mentions of the
 class within templates

---
 classdesc.cc | 52 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index aaa8131..311f2d2 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -221,7 +221,14 @@ string insertTypename(string type)
   for (size_t i=0; i<type.size(); ++i)
     if (isspace(type[i]))
       type[i]=' ';
-  if (type.find("::")==string::npos || type.find("typename ")!=string::npos)
+  // qualification within template arguments doesn't qualify the type
+  bool qualified=false;
+  int angles=0;
+  for (size_t i=0; i+1<type.size(); ++i)
+    if (type[i]=='<') ++angles;
+    else if (type[i]=='>') --angles;
+    else if (angles==0 && type[i]==':' && type[i+1]==':') qualified=true;
+  if (!qualified || type.find("typename ")!=string::npos)
     return type; // nothing needs to be done
   
   type=trimWS(type);
@@ -346,14 +353,16 @@ string replaceShornTypes(const string& input, const string& shornType, const str
   string r;
   for (size_t i=0, j=input.find(shornType); i!=string::npos; i=j, j=input.find(shornType,i))
     {
-      r+=input.substr(i,j);
+      r+=input.substr(i,j==string::npos? j: j-i);
       if (j!=string::npos)
         {
+          bool partName=j>0 && isIdentifierChar(input[j-1]);
           j+=shornType.size();
+          partName|=j<input.size() && isIdentifierChar(input[j]);
           size_t k=j;
           // check if '<' is the next non white space character
           while (k<input.size() && isspace(input[k])) ++k;
-          if (k>=input.size() || input[k]!='<')
+          if (!partName && (k>=input.size() || input[k]!='<'))
             r+=fullType;
           else
             r+=shornType;
@@ -848,19 +857,32 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                   action+="&"+ /*namespace_name +*/ prefix + memname;
                 // strip any default arguments from argList
                 string al;
-                int braceCnt=0;
+                int braceCnt=0; // of brackets within the default argument
                 bool include=true;
-                for (string::iterator i=argList.begin(); i!=argList.end(); ++i)
-                  switch (*i)
-                    {
-                    case '=': include=false; break;
-                    case '{': braceCnt++; break;
-                    case '}': braceCnt--; break;
-                    case ',': if (braceCnt==0) include=true;
-                      /*fallthrough*/
-                    default:
-                      if (include) al+=*i;
-                    }
+                char literal=0; // terminator of the literal being skipped
+                for (size_t i=0; i<argList.size(); ++i)
+                  {
+                    char c=argList[i];
+                    if (literal)
+                      {
+                        if (c=='\\') ++i;
+                        else if (c==literal) literal=0;
+                      }
+                    else if (include && c=='=')
+                      {
+                        include=false;
+                        braceCnt=0;
+                      }
+                    else if (!include)
+                      {
+                        if (c=='"' || (c=='\'' && !isIdentifierChar(argList[i-1])))
+                          literal=c;
+                        else if (strchr("({[<",c)) braceCnt++;
+                        else if (strchr(")}]>",c) && braceCnt>0) braceCnt--;
+                        else if (c==',' && braceCnt==0) include=true;
+                      }
+                    if (include) al+=c;
+                  }
                 
                 if (prefix.find("<")!=string::npos)
                   {
-- 
2.43.0


From bb194b878de572256e1525423f1e54782b36c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 071/116] fix: the name given by a typedef was missed when
 names of pointers or arrays were given as well

---
 classdesc.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 311f2d2..9b4e7d4 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -992,15 +992,27 @@ class is_ptr {};
 string get_typedef_name(tokeninput& input)
 {
   bool ptr=false;
-  for (; input.token!=";"; input.nexttok())
+  string name; // first name that is not of a pointer or array
+  for (;; input.nexttok())
     {
-      if (input.token=="{") gobble_delimited(input,"{","}");
-      ptr=input.lasttoken=="*";
+      if (input.token=="," || input.token==";")
+        {
+          if (name.empty() && !ptr && isIdentifierStart(input.lasttoken[0]))
+            name=input.lasttoken;
+          if (input.token==";") break;
+          ptr=false;
+        }
+      if (input.token=="{") 
+        {
+          gobble_delimited(input,"{","}");
+          name.erase(); // commas seen were those of base classes
+        }
+      if (input.token=="*") ptr=true;
     }
-  if (ptr||input.lasttoken=="]")
+  if (name.empty())
     throw is_ptr(); /* the buggers have probably declared a pointer to */
                            /*  an anonymous struct data type */
-  return input.lasttoken;
+  return name;
 }
 
 void parse_typedef(tokeninput& input, string prefix)
-- 
2.43.0


From 99d8656dc49fe7b4780df740c226458ae9945591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 072/116] fix: noexcept methods and functions were not
 recognised as such in C++17, so calling one on a const object was refused

---
 function.h | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/function.h b/function.h
index ca65ee2..3136be3 100644
--- a/function.h
+++ b/function.h
@@ -225,6 +225,10 @@ namespace classdesc
     {
       typedef FunctionalHelper<R,Args...> T;
     };
+    template <class R, class C, class... Args> struct FunctionalHelperFor<R(*C::*)(Args...) noexcept>
+    {
+      typedef FunctionalHelper<R,Args...> T;
+    };
     template <class R, class C, class... Args> struct FunctionalHelperFor<R(C::*)(Args...) noexcept>
     {
       typedef FunctionalHelper<R,Args...> T;
@@ -325,6 +329,38 @@ namespace classdesc
       static const bool value=true;
     };
 
+#if defined(__cplusplus) && __cplusplus>=201703L
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_const_method<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+#endif
+
     // true if C is non const, or M is a const member function or static
     template <class C, class M>
     struct ConstCorrect: public
-- 
2.43.0


From 9d4e4fa10b4b1026e7e2ae5cfb0bc11c2bb4c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 073/116] fix: send_recv waited for a message with the tag it
 was sending, and lost the source and tag of the one it received

---
 classdescMP.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d9d930..0d7d66c 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -289,13 +289,15 @@ namespace classdesc
     MPI_Request r1;
 
     MPI_Isend(data(), size(), MPI_CHAR, dest, sendtag, Communicator, &r1);
-    MPI_Probe(source, sendtag, Communicator, &status);
+    MPI_Probe(source, recvtag, Communicator, &status);
     MPI_Get_count(&status, MPI_CHAR, &tempsize);
     
     char *tempdata=realloc(NULL, tempsize);
-    MPI_Recv(tempdata,tempsize, MPI_CHAR,source,recvtag,Communicator,&status);
+    // receive the message just probed, which may not be the only one that matches
+    MPI_Recv(tempdata,tempsize, MPI_CHAR,status.MPI_SOURCE,status.MPI_TAG,Communicator,&status);
     
-    MPI_Wait(&r1,&status); // ensure data is actually sent before deleting storage
+    MPI_Status sendStatus;
+    MPI_Wait(&r1,&sendStatus); // ensure data is actually sent before deleting storage
     realloc(0); m_data=tempdata; m_size=tempsize;
     proc=status.MPI_SOURCE;
     tag=status.MPI_TAG;
-- 
2.43.0


From 8e140ae3c76a1bafa446e26ed82f3a9ff7ea80f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 074/116] fix: only the first part gathered could be read when
 const_buffer is set

---
 classdescMP.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d7d66c..d56a528 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -349,8 +349,8 @@ namespace classdesc
     }
     else
       {
-        rootsz=size();
-        if (myid()==root) rootdata=realloc(NULL,size()*nprocs());
+        rootsz=size()*nprocs();
+        if (myid()==root) rootdata=realloc(NULL,rootsz);
         MPI_Gather(data(),size(),MPI_CHAR,rootdata,size(),
                    MPI_CHAR,root,Communicator);
       }
-- 
2.43.0


From d983cef802cc433b3feccb3e68942627e44d3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 075/116] fix: scattering from the same buffer a second time
 overflowed the table of marks, and read from the wrong position

---
 classdescMP.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classdescMP.h b/classdescMP.h
index d56a528..853c1c6 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -384,7 +384,9 @@ namespace classdesc
       {
         free(rootdata); delete [] sizes;
         for (int i=0; i<np; offsets[i++]=0);
+        offsctr=1;
       }
+    reseto();
     return *this;
   }
 
-- 
2.43.0


From c578f48552f29049274f2c34eae64d5b3cded1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 076/116] fix: assigning to an MPIbuf appended to its previous
 contents, and assigning it to itself destroyed its marks

---
 classdescMP.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 853c1c6..709caa6 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -105,7 +105,9 @@ namespace classdesc
       Communicator=MPI_COMM_WORLD; const_buffer=0;
       offsets=new int[nprocs()+1]; offsctr=1; offsets[0]=0;
     }
-    MPIbuf(const MPIbuf& x): offsets(NULL) {*this=x;}
+    MPIbuf(const MPIbuf& x): 
+      offsets(NULL), request(MPI_REQUEST_NULL), const_buffer(x.const_buffer), 
+      proc(x.proc), tag(x.tag) {*this=x;}
     ~MPIbuf() 
     {
       if (request!=MPI_REQUEST_NULL) wait(); //MPI_Request_free(&request);
@@ -113,12 +115,14 @@ namespace classdesc
     }
     const MPIbuf& operator=(const MPIbuf& x)
     { 
+      if (this==&x) return *this;
+      if (request!=MPI_REQUEST_NULL) wait();
       Communicator=x.Communicator;
       delete [] offsets;
       offsets=new int[nprocs()+1];
       offsctr=x.offsctr;
       for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];
-      request=MPI_REQUEST_NULL;
+      reseti(); reseto();
       packraw(x.data(),x.size());
       return *this;
     }
-- 
2.43.0


From 5eebd1cf65e08f01038533f039305a6ce119f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 077/116] fix: requests completed by the MPIbuf_array methods
 were used again, and completing some failed when none were outstanding

---
 classdescMP.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 709caa6..a113690 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -179,6 +179,9 @@ namespace classdesc
   {
     std::vector<MPIbuf> bufs;
     std::vector<MPI_Request> requests;
+    // MPI updates the requests that have completed, so these need to be copied in and out
+    void getRequests() {for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;}
+    void putRequests() {for (size_t i=0; i<bufs.size(); i++) bufs[i].request=requests[i];}
   public:
     
     MPIbuf_array(unsigned n): bufs(n), requests(n) {}
@@ -189,16 +192,18 @@ namespace classdesc
     bool testall()
     {
       int flag;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testall(bufs.size(),requests.data(),&flag,MPI_STATUSES_IGNORE);
+      putRequests();
       return flag;
     }
     /// return the index of any request that has completed, or MPI_UNDEFINED if none  
     int testany()
     {
       int flag,index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testany(bufs.size(),requests.data(),&index,&flag,MPI_STATUS_IGNORE);
+      putRequests();
       return index;
     }
     /// return the index of the requests that have completed
@@ -206,22 +211,26 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Testsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
+      putRequests();
+      if (count==MPI_UNDEFINED) count=0; // no requests are outstanding
       return std::vector<int>(index.begin(),index.begin()+count);
     }
     /// wait for all outstanding requests to complete
     void waitall() 
     {
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitall(bufs.size(),requests.data(),MPI_STATUSES_IGNORE);
+      putRequests();
     }
     /// wait for any outstanding request to complete, returning index of completed request
     int waitany()
     {
       int index;
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitany(bufs.size(),requests.data(),&index,MPI_STATUSES_IGNORE);
+      putRequests();
       return index;
     }
     /// wait for some outstanding requests to complete, returning an array of request indices
@@ -229,8 +238,10 @@ namespace classdesc
     {
       int count;
       std::vector<int> index(bufs.size());
-      for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
+      getRequests();
       MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUS_IGNORE);
+      putRequests();
+      if (count==MPI_UNDEFINED) count=0; // no requests are outstanding
       return std::vector<int>(index.begin(),index.begin()+count);
     }
   };
-- 
2.43.0


From 822799d74fba36e70ba77db6ba61a71e3854205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 078/116] fix: composing a message that does not start with a
 method on an MPIslave recursed without end

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index a113690..7cf5fb2 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -433,7 +433,7 @@ namespace classdesc
       return *this;
     }
     template <class T> MPIbuf& operator<<(const T& x)
-    {reseti(); return (*this) << x;}
+    {reseti(); return MPIbuf::operator<<(x);}
     /// send a request to the next available slave
     void exec(MPIbuf& x) {x.send(idle.back(),0); idle.pop_back();}
     /// process a return value
-- 
2.43.0


From 3d6dfdeff4623be6e14b9a0d5612cae6f1823ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 079/116] fix: MPIslave::bcast ignored the buffer it was given

---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 7cf5fb2..cf110f7 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -489,7 +489,7 @@ namespace classdesc
   inline void MPIslave<S>::bcast(MPIbuf& c)
   {
     for (unsigned i=1; i<nprocs(); i++) 
-    {MPI_Send(data(),size(),MPI_CHAR,i,0,c.Communicator);}
+    {MPI_Send(c.data(),c.size(),MPI_CHAR,i,0,c.Communicator);}
     c.reseti();
   }
 
-- 
2.43.0


From e6843b107e08f50e51840fed29082c91a790fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 080/116] fix: Java class file counts and lengths above 32767
 were taken as negative, and 64 bit values truncated

---
 javaClass.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/javaClass.h b/javaClass.h
index bda8478..f6d3596 100644
--- a/javaClass.h
+++ b/javaClass.h
@@ -48,12 +48,12 @@ namespace classdesc
   struct u2
   {
     unsigned short v;
-    operator short() const {return v;}
+    operator unsigned short() const {return v;}
     u2(): v(0) {}
-    u2(short v): v(v) {}
-    short operator=(short x) {return v=x;}
-    short operator|=(short x) {return v|=x;}
-    short operator&=(short x) {return v&=x;}
+    u2(unsigned short v): v(v) {}
+    unsigned short operator=(unsigned short x) {return v=x;}
+    unsigned short operator|=(unsigned short x) {return v|=x;}
+    unsigned short operator&=(unsigned short x) {return v&=x;}
     bool operator==(const u2& x)  const {return v==x.v;}
     u2 operator++() {v++; return *this;}
   };
@@ -71,10 +71,10 @@ namespace classdesc
   struct u8
   {
     unsigned long long v;
-    operator long long() const {return v;}
+    operator unsigned long long() const {return v;}
     u8(): v(0) {}
-    u8(unsigned v): v(v) {}
-    unsigned operator=(unsigned x) {return v=x;}
+    u8(unsigned long long v): v(v) {}
+    unsigned long long operator=(unsigned long long x) {return v=x;}
     bool operator==(const u8& x)  const {return v==x.v;}
   };
 
-- 
2.43.0


From 2e2a586c2459094e62627fbe5ba58eded437a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 081/116] fix: Java constants of an unsupported kind were
 skipped as if they had no content

---
 javaClass_serialisation.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 86a9f05..331c574 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -206,6 +206,8 @@ namespace classdesc_access
           break;
         case JVM_CONSTANT_Utf8: 
           a.unpack<std::string>(buf,tag); break;
+        default:
+          throw pack_error("unsupported kind of Java constant");
         }       
     }
   };
-- 
2.43.0


From cde88a25f62d5eefa5153b8df7e7f1bfc33da469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 082/116] fix: the element of a Java constant pool following a
 long or double constant is not part of the class file

---
 javaClass_serialisation.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 331c574..f0860a9 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -212,6 +212,11 @@ namespace classdesc_access
     }
   };
 
+  // long and double constants take up two elements of the
+  // constant_pool, the second of which is not serialised
+  inline bool takesTwo(const classdesc::cp_info& a)
+  {return a.tag()==classdesc::JVM_CONSTANT_Long || a.tag()==classdesc::JVM_CONSTANT_Double;}
+
   // The zeroth element is not serialised in the constant_pool
   template <>
   struct access_pack<classdesc::ConstantPoolVector>
@@ -221,7 +226,7 @@ namespace classdesc_access
     {
       classdesc::u2 size=a.size(); 
       pack(buf,d,size);
-      for (int i=1; i<size; i++)
+      for (int i=1; i<size; i+=takesTwo(a[i])? 2: 1)
         pack(buf,d,a[i]);
     }
   };
@@ -234,7 +239,7 @@ namespace classdesc_access
     {
       classdesc::u2 size; unpack(buf,d,size);
       a.resize(size);
-      for (int i=1; i<size; i++)
+      for (int i=1; i<size; i+=takesTwo(a[i])? 2: 1)
         unpack(buf,d,a[i]);
     }
   };
-- 
2.43.0


From 270f65996ec8cb57b9cabb1caf3b6d8a7e56e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 083/116] fix: the size of a JavaClassVector was written as an
 8 byte count, not the 2 bytes of a class file

---
 javaClass_serialisation.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index f0860a9..5161947 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -33,6 +33,34 @@ namespace classdesc
 }
  
 
+namespace classdesc
+{
+  // the size of a JavaClassVector is a 2 byte field, not a uint64
+  template <class T>
+  void pack(pack_t& buf, const string& d, const JavaClassVector<T>& a)
+  {
+    pack(buf,d,a.size());
+    for (size_t i=0; i<a.size(); ++i)
+      pack(buf,d,a[i]);
+  }
+
+  template <class T>
+  void unpack(unpack_t& buf, const string& d, JavaClassVector<T>& a)
+  {
+    u2 size;
+    unpack(buf,d,size);
+    a.clear();
+    for (size_t i=0; i<size; ++i)
+      {
+        a.push_back(T());
+        unpack(buf,d,a.back());
+      }
+  }
+}
+
+using classdesc::pack;
+using classdesc::unpack;
+
 namespace classdesc_access
 {
 /*
@@ -238,6 +266,7 @@ namespace classdesc_access
     void operator()(classdesc::pack_t& buf, const classdesc::string& d, std::vector<classdesc::cp_info>& a)
     {
       classdesc::u2 size; unpack(buf,d,size);
+      a.clear();
       a.resize(size);
       for (int i=1; i<size; i+=takesTwo(a[i])? 2: 1)
         unpack(buf,d,a[i]);
-- 
2.43.0


From ceef36677a2e4ee3f295db40bf50e9de8a4a939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 084/116] fix: the length of a Java attribute was trusted
 before its content was read

---
 javaClass_serialisation.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 5161947..0d7edad 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -297,9 +297,14 @@ namespace classdesc_access
       classdesc::u4 length;
       unpack(buf,d,length);
       // need to code this explicitly as attribute length is u4 not u2
-      a.info.resize(length);
-      for (size_t i=0; i<a.info.size(); i++)
-        unpack(buf,d,a.info[i]);
+      // length cannot be trusted, so do not allocate before the data is seen
+      a.info.clear();
+      for (size_t i=0; i<length; i++)
+        {
+          classdesc::u1 x;
+          unpack(buf,d,x);
+          a.info.push_back(x);
+        }
     }
   };
 
-- 
2.43.0


From 8d90f44e929cf1569cb349261d0753f0b1838d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 085/116] fix: a truncated string in a Java class file leaked
 memory

---
 javaClass_serialisation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javaClass_serialisation.h b/javaClass_serialisation.h
index 0d7edad..4c17db0 100644
--- a/javaClass_serialisation.h
+++ b/javaClass_serialisation.h
@@ -86,10 +86,10 @@ namespace classdesc_access
     {
       classdesc::u2 length; 
       unpack(buf,d,length);
-      char *s=new char[length];
-      buf.unpackraw(s,length);
-      a=std::string(s,length);
-      delete [] s;
+      std::vector<char> s(length);
+      if (length)
+        buf.unpackraw(&s[0],length);
+      a=std::string(s.begin(),s.end());
     }
   };
 
-- 
2.43.0


From 88d1158eed085b5a6bf9236b8b57ad2882cb9c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 086/116] fix: classes with static member functions could not
 be dumped

---
 dump_base.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dump_base.h b/dump_base.h
index 57403f7..ffbbe4c 100644
--- a/dump_base.h
+++ b/dump_base.h
@@ -134,6 +134,10 @@ namespace classdesc
   /// ignore member functions
   template <class C, class M>
   void dump(dump_t& o, const string& d, C& a, M m) {}
+  /// and static member functions
+  template <class F>
+  typename enable_if<is_function<F>, void>::T
+  dump(dump_t& o, const string& d, F* f) {}
   
   ///handle enums
   template <class T>
-- 
2.43.0


From 3b1dcd7dffe8fd7800eea92881169d66713eea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 087/116] fix: the schema of a class without members was not
 valid

---
 xsd_generate_base.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index d6eba88..b0fb61a 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -150,10 +150,16 @@ namespace classdesc
           // reasons, or for future extensibility
           // namespace attribute to solve Unique Particle Attribution (UPA) rule in XSD 1.0
           if (typeBeingAddedTo.back().baseClass.empty())
-            xsdDefs[typeBeingAddedTo.back().name]+=
-              "      <xs:any minOccurs=\"0\" "
-              "namespace=\"##other\" "
-              "maxOccurs=\"unbounded\" processContents=\"lax\"/>\n";
+            {
+              // class without any members
+              if (!typeBeingAddedTo.back().sequenceAdded)
+                xsdDefs[typeBeingAddedTo.back().name]+="    <xs:sequence>\n";
+              typeBeingAddedTo.back().sequenceAdded=true;
+              xsdDefs[typeBeingAddedTo.back().name]+=
+                "      <xs:any minOccurs=\"0\" "
+                "namespace=\"##other\" "
+                "maxOccurs=\"unbounded\" processContents=\"lax\"/>\n";
+            }
           if (typeBeingAddedTo.back().sequenceAdded)
             xsdDefs[typeBeingAddedTo.back().name]+="    </xs:sequence>\n";
           if (!typeBeingAddedTo.back().baseClass.empty())
-- 
2.43.0


From 2ee4a5505a8e8817e2a5004d3426c117bc9faf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 088/116] fix: generating the schema of a recursive type did
 not terminate

---
 xsd_generate_base.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index b0fb61a..2c69ffc 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -170,6 +170,11 @@ namespace classdesc
       typeBeingAddedTo.pop_back();
     }
 
+    /// true if the type last opened has already been described (or is
+    /// in the process of being so, if recursive)
+    bool typeComplete() const
+    {return !typeBeingAddedTo.empty() && typeBeingAddedTo.back().complete;}
+
     string currentDescription() const 
     {
       if (!typeBeingAddedTo.empty())
@@ -269,7 +274,8 @@ namespace classdesc
       g.addMember(tail(d),xsd_typeName<T>());
 
     g.openType(transformTypeName(typeName<T>()), d);
-    classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
+    if (!g.typeComplete())
+      classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
   }
 
@@ -506,7 +512,8 @@ namespace classdesc
   processExtraClass(xsd_generate_t& g, const string& d, const T& a)
   {
     g.openType(transformTypeName(typeName<T>()), d);
-    classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
+    if (!g.typeComplete())
+      classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
   }
 
-- 
2.43.0


From c092c5f6a58996a5d0827c2d21468ee8f3ba54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:41 +0000
Subject: [PATCH 089/116] fix: the schema of arrays of classes used invalid
 element names, and omitted the definition of the class

---
 xsd_generate_base.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 2c69ffc..e749f4d 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -347,11 +347,18 @@ namespace classdesc
       }
     va_end(ap);
     
+    // element name is given by the type name, as for containers
+    string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
+    // strip leading namespace and qualifiers
+    const char *el=eName.c_str()+eName.length();
+    while (el!=eName.c_str() && *(el-1)!=' ' && *(el-1)!=':') el--;
+
     std::ostringstream os;
     os<<"  <xs:complexType name=\""+type.str()+"\">\n";
     os<<"    <xs:sequence minOccurs=\""<<ncopies<<
       "\" maxOccurs=\""<<ncopies<<"\">\n";
-    os<<"      <xs:element name=\""<<typeName<T>()<<"\" type=\""<<
+    os<<"      <xs:element name=\""<<el<<"\" type=\""<<
       xsd_typeName<T>()<<"\"/>\n";
     os<<"    </xs:sequence>\n";
     os<<"  </xs:complexType>\n";
@@ -359,6 +366,8 @@ namespace classdesc
     g.defineType(type.str(), os.str());
     g.addMember(tail(d), "tns:"+type.str());
     g.addDependency(type.str(), xsd_typeName<T>());
+    // ensure that the value type as a definition also
+    if (ncopies) processExtraClass(g, d+transformTypeName(typeName<T>()), a);
   }
 
   /// enum handling
-- 
2.43.0


From 32acc0d6d65504ced47b9ed2608beb7eda47cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:43 +0000
Subject: [PATCH 090/116] fix: the schema of wide character members referred to
 an undefined type

---
 xsd_generate_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index e749f4d..5672b7f 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -312,6 +312,9 @@ namespace classdesc
   template <> inline string xsd_typeName<unsigned long long>() {return "xs:unsignedLong";}
 #endif
 
+  // a wide character is written as its code
+  template <> inline string xsd_typeName<wchar_t>() {return sizeof(wchar_t)>2? "xs:long": "xs:int";}
+
   template <> inline string xsd_typeName<float>() {return "xs:float";}
   template <> inline string xsd_typeName<double>() {return "xs:double";}
   // long double is not explicitly supported in XSD, so overflows may result
-- 
2.43.0


From 42a0cd1a9bffe0acfde0046d39b3daf5c4f1dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 091/116] fix: json_unpack read beyond the end of JSON arrays
 shorter than the array being unpacked

---
 json_pack_base.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index bd97aed..5fab82a 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -428,12 +428,17 @@ namespace classdesc
       }
     else
       {
+        if (jval.type()!=json5_parser::array_type)
+          throw json_pack_error
+            ("attempt to unpack an array member from a non-array");
+        const json5_parser::mArray& arr=jval.get_array();
         size_t s=dims.back();
         dims.pop_back();
         size_t stride=1;
         for (size_t i=0; i<dims.size(); ++i) stride*=dims[i];
-        for (size_t i=0; i<s; ++i)
-          json_unpack_isarray(jval.get_array()[i],(&val)[i*stride], dims);
+        // elements not present in the JSON array are left as they are
+        for (size_t i=0; i<s && i<arr.size(); ++i)
+          json_unpack_isarray(arr[i],(&val)[i*stride], dims);
       }
   }
                                             
-- 
2.43.0


From ec694bad32f5fab47f9e14da3cd53c3de1e58a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 092/116] fix: json packing of arrays read dimensions, which
 are passed as ints, as size_t

---
 json_pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index 5fab82a..dc9a3d7 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -401,7 +401,7 @@ namespace classdesc
   va_start(ap,ncopies);
   std::vector<size_t> dims(ndims);
   dims[ndims-1]=ncopies;
-  for (int i=ndims-2; i>=0; --i) dims[i]=va_arg(ap,size_t);
+  for (int i=ndims-2; i>=0; --i) dims[i]=va_arg(ap,int);
   va_end(ap);
   try
     {
@@ -450,7 +450,7 @@ namespace classdesc
     va_start(ap,ncopies);
     std::vector<size_t> dims(ndims);
     dims[ndims-1]=ncopies;
-    for (int i=ndims-2; i>=0; --i) dims[i]=va_arg(ap,size_t);
+    for (int i=ndims-2; i>=0; --i) dims[i]=va_arg(ap,int);
     va_end(ap);
     try
       {
-- 
2.43.0


From 50b5286da014749d43d52e8ed91fb72969e11dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 093/116] fix: json_unpack ignored the elements of
 std::vector<bool>

---
 json_pack_base.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json_pack_base.h b/json_pack_base.h
index dc9a3d7..77ef803 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -493,6 +493,14 @@ namespace classdesc
     arg=tmp.substr(0,end-tmp.begin());
   }
 
+  /// elements of std::vector<bool> are proxies, not references
+  inline void json_unpack(json_unpack_t& o, const string& d, std::vector<bool>::reference a)
+  {
+    bool tmp=a;
+    json_unpack(o,d,tmp);
+    a=tmp;
+  }
+
   /** standard container handling */
   template <class T> typename
   enable_if<is_sequence<T>, void>::T
-- 
2.43.0


From f32a3c4f1138058902ebbe07e9c3bd5da9ac75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 094/116] fix: json_pack dropped members that are a std::pair

---
 json_pack_base.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/json_pack_base.h b/json_pack_base.h
index 77ef803..ede38fb 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -533,6 +533,23 @@ namespace classdesc
   void json_pack(json_pack_t& o, const string& d, std::pair<T1,T2>& a)
   {
     o.objectify();
+    if (tail(d)!="")
+      {
+        //create the object holding the pair
+        try
+          {
+            json5_parser::mValue& parent=json_find(o,head(d));
+            if (parent.type()!=json5_parser::obj_type)
+              throw json_pack_error("trying to create object %s in non-object",
+                                    d.c_str());
+            parent.get_obj()[tail(d)]=json5_parser::mObject();
+          }
+        catch (json_pack_error&)
+          {
+            // only throw if this flag is set
+            if (o.throw_on_error) throw; 
+          }
+      }
     json_pack(o,d+".first",a.first);
     json_pack(o,d+".second",a.second);
   }
-- 
2.43.0


From f7b582bfdd252c2266c47ddb0c4b468212dfe8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 095/116] fix: json_unpack cleared enums that are not present
 in the JSON data

---
 json_pack_base.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index ede38fb..25910ce 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -486,7 +486,16 @@ namespace classdesc
                                     Enum_handle<T> arg)
   {
     std::string tmp;
-    json_unpack(x,d,tmp);
+    try
+      {
+        tmp=getValue<string>(json_find(x,d));
+      }
+    catch (const json_pack_error&)
+      {
+        // only throw if this flag is set
+        if (x.throw_on_error) throw; 
+        return;
+      }
     // remove extraneous white space
     int (*isspace)(int)=std::isspace;
     std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
-- 
2.43.0


From e168ac281e25af1f8d1e2f189c05b53076ba7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 096/116] fix: json_unpack did not report errors within
 elements of arrays and containers

---
 json_pack_base.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index 25910ce..ac531ea 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -419,11 +419,12 @@ namespace classdesc
   }
  
   template <class T> void json_unpack_isarray
-  (const json5_parser::mValue& jval, T& val, std::vector<size_t> dims) 
+  (const json5_parser::mValue& jval, T& val, std::vector<size_t> dims, bool throw_on_error) 
   {
     if (dims.empty())
       {
         json_unpack_t j(jval);
+        j.throw_on_error=throw_on_error;
         json_unpack(j,"",val);
       }
     else
@@ -438,7 +439,7 @@ namespace classdesc
         for (size_t i=0; i<dims.size(); ++i) stride*=dims[i];
         // elements not present in the JSON array are left as they are
         for (size_t i=0; i<s && i<arr.size(); ++i)
-          json_unpack_isarray(arr[i],(&val)[i*stride], dims);
+          json_unpack_isarray(arr[i],(&val)[i*stride], dims, throw_on_error);
       }
   }
                                             
@@ -459,7 +460,7 @@ namespace classdesc
           throw json_pack_error
             ("attempt to unpack an array member from a non-object");
         else 
-          json_unpack_isarray(v,a,dims);
+          json_unpack_isarray(v,a,dims,o.throw_on_error);
       }
     catch (json_pack_error&)
       {
@@ -528,6 +529,7 @@ namespace classdesc
             for (typename T::iterator j=a.begin(); i<arr.size() && j!=a.end(); ++i, ++j)
               {
                 json_unpack_t jp(arr[i]);
+                jp.throw_on_error=o.throw_on_error;
                 json_unpack(jp,"",*j);
               }
           }
@@ -628,6 +630,7 @@ namespace classdesc
                 typename NonConstKeyValueType<typename T::value_type>::T v;
 #endif
                 json_unpack_t j(arr[i]);
+                j.throw_on_error=o.throw_on_error;
                 json_unpack(j,"",v);
                 a.insert(v);
               }
-- 
2.43.0


From 18dd09289ac175e4a7ec3ad57104ea873cb42249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 097/116] fix: null pointers packed to JSON came back as
 pointers to uninitialised objects

---
 polyAccessJsonPack.h | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/polyAccessJsonPack.h b/polyAccessJsonPack.h
index 50c68c5..883ce94 100644
--- a/polyAccessJsonPack.h
+++ b/polyAccessJsonPack.h
@@ -11,13 +11,32 @@
 
 namespace classdesc
 {
-  struct ResetThrowOnErrorOnExit
+  /// write the null pointer at \a d as a JSON null
+  inline void json_pack_null_ptr(json_pack_t& x, const string& d)
   {
-    json_pack_t& x;
-    bool prev;
-    ResetThrowOnErrorOnExit(json_pack_t& x): x(x), prev(x.throw_on_error) {}
-    ~ResetThrowOnErrorOnExit() {x.throw_on_error=prev;}
-  };
+    try
+      {
+        json_find(x,d)=json5_parser::mValue();
+      }
+    catch (const json_pack_error&)
+      {
+        // only throw if this flag is set
+        if (x.throw_on_error) throw;
+      }
+  }
+
+  /// true if there is JSON data to unpack a pointer's target from at \a d
+  inline bool json_has_data(json_unpack_t& x, const string& d)
+  {
+    try
+      {
+        return json_find(x,d).type()!=json5_parser::null_type;
+      }
+    catch (const json_pack_error&)
+      {
+        return false;
+      }
+  }
 
 #ifdef CLASSDESC_POLYJSONBASE_H
   // polymorphic version
@@ -31,6 +50,8 @@ namespace classdesc
         ::json_pack(x,d+".type",a->type());
         a->json_pack(x,d);
       }
+    else
+      json_pack_null_ptr(x,d);
   }
 
   // non polymorphic version
@@ -45,6 +66,8 @@ namespace classdesc
   {
     if (a.get())
       ::json_pack(x,d,*a);
+    else
+      json_pack_null_ptr(x,d);
   }
 
 #ifdef CLASSDESC_POLYJSONBASE_H
@@ -82,8 +105,12 @@ namespace classdesc
   json_unpack_smart_ptr(json_pack_t& x, const string& d, T& a,
                            dummy<1> dum=0)
   {
-    ResetThrowOnErrorOnExit r(x);
-    a.reset(new typename T::element_type);
+    if (!json_has_data(x,d))
+      {
+        a.reset(); // data wasn't there
+        return;
+      }
+    a.reset(new typename T::element_type());
     try
       {
         ::json_unpack(x,d,*a);
-- 
2.43.0


From 594c468d3e8471ba44dd752d530d7ee8cf4dcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 098/116] fix: json_unpack never restored polymorphic pointers
 that are members of an object

---
 polyAccessJsonPack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polyAccessJsonPack.h b/polyAccessJsonPack.h
index 883ce94..b892fc0 100644
--- a/polyAccessJsonPack.h
+++ b/polyAccessJsonPack.h
@@ -85,7 +85,7 @@ namespace classdesc
   json_unpack_smart_ptr(json_unpack_t& x, const string& d, T& a,
                          dummy<0> dum=0)
   {
-    if (x.type()==RESTProcessType::object && x.get_obj().count("type"))
+    if (json_has_data(x,d+".type"))
       {
         typename T::element_type::Type type;
         ::json_unpack(x,d+".type",type);
-- 
2.43.0


From 59fc2dd61d7c2b7ff046e2a8a7670e14b1acca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:29 +0000
Subject: [PATCH 099/116] fix: json_pack of members that are JSON values,
 callables or streamed replaced the object they are members of

---
 json_pack_base.h     | 23 ++++++++++++++++++++++
 json_pack_epilogue.h | 47 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 63 insertions(+), 7 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index ac531ea..22795dd 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -245,6 +245,29 @@ namespace classdesc
       throw json_pack_error("%s is not a json object",name.c_str());
   }
 
+  /// place the JSON value \a v at \a d within the json object o
+  inline void json_place(json_pack_t& o, const string& d, const json5_parser::mValue& v)
+  {
+    if (d.empty())
+      {
+        static_cast<json5_parser::mValue&>(o)=v;
+        return;
+      }
+    o.objectify();
+    try
+      {
+        json5_parser::mValue& parent=json_find(o,head(d));
+        if (parent.type()!=json5_parser::obj_type)
+          throw json_pack_error("cannot add %s to a non-object",d.c_str());
+        parent.get_obj()[tail(d)]=v;
+      }
+    catch (const json_pack_error&)
+      {
+        // only throw if this flag is set
+        if (o.throw_on_error) throw; 
+      }
+  }
+
   //json5_parser::mValue does not provide constructors for everything. Oh well..
   template <class T> json5_parser::mValue valueof(T a) 
   {return json5_parser::mValue(a);}
diff --git a/json_pack_epilogue.h b/json_pack_epilogue.h
index e1369e0..5395d82 100644
--- a/json_pack_epilogue.h
+++ b/json_pack_epilogue.h
@@ -110,7 +110,7 @@ namespace classdesc_access
     {
       std::ostringstream o;
       o<<a;
-      b<<o.str();
+      cd::json_place(b,d,json5_parser::mValue(o.str()));
     }
   };
 
@@ -122,7 +122,16 @@ namespace classdesc_access
                     T& a)
     {
       std::string s;
-      b>>s;
+      try
+        {
+          s=cd::getValue<std::string>(cd::json_find(b,d));
+        }
+      catch (const cd::json_pack_error&)
+        {
+          // only throw if this flag is set
+          if (b.throw_on_error) throw; 
+          return;
+        }
       std::istringstream i(s);
       i>>a;
     }
@@ -136,7 +145,7 @@ namespace classdesc_access
   public:
     void operator()(cd::json_unpack_t& b, const cd::string& d, 
                     std::function<T>& a)
-    {b<<cd::typeName<T>();}
+    {cd::json_place(b,d,json5_parser::mValue(cd::typeName<T>()));}
   };
   template <class T>
   struct access_json_unpack<std::function<T>>
@@ -152,11 +161,23 @@ namespace classdesc_access
   {
     template <class U>
     void operator()(cd::json_pack_t& b, const cd::string& d, U& a)
-    {b=a;}
+    {cd::json_place(b,d,a);}
   };
   template <> struct access_json_unpack<cd::json_pack_t>
   {
-    void operator()(cd::json_pack_t& b, const cd::string& d, cd::json_pack_t& a){a=b;}
+    void operator()(cd::json_pack_t& b, const cd::string& d, cd::json_pack_t& a)
+    {
+      try
+        {
+          json5_parser::mValue v=cd::json_find(b,d);
+          static_cast<json5_parser::mValue&>(a)=v;
+        }
+      catch (const cd::json_pack_error&)
+        {
+          // only throw if this flag is set
+          if (b.throw_on_error) throw; 
+        }
+    }
     void operator()(cd::json_pack_t& b, const cd::string& d, const cd::json_pack_t& a){}
   };
 
@@ -164,11 +185,23 @@ namespace classdesc_access
   {
     template <class U>
     void operator()(cd::json_pack_t& b, const cd::string& d, U& a)
-    {b=cd::json_pack_t(a);}
+    {cd::json_place(b,d,a);}
   };
   template <> struct access_json_unpack<json5_parser::mValue>
   {
-    void operator()(cd::json_pack_t& b, const cd::string& d, json5_parser::mValue& a){a=b;}
+    void operator()(cd::json_pack_t& b, const cd::string& d, json5_parser::mValue& a)
+    {
+      try
+        {
+          json5_parser::mValue v=cd::json_find(b,d);
+          a=v;
+        }
+      catch (const cd::json_pack_error&)
+        {
+          // only throw if this flag is set
+          if (b.throw_on_error) throw; 
+        }
+    }
     void operator()(cd::json_pack_t& b, const cd::string& d, const json5_parser::mValue& a){}
   };
 
-- 
2.43.0


From d5403285486e79e115cdffedb2a0361f3b1cfcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:29 +0000
Subject: [PATCH 100/116] fix: tuples did not come back from JSON, and replaced
 the object they are members of

---
 json_pack_epilogue.h | 50 ++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/json_pack_epilogue.h b/json_pack_epilogue.h
index 5395d82..dfa9c3d 100644
--- a/json_pack_epilogue.h
+++ b/json_pack_epilogue.h
@@ -212,36 +212,46 @@ namespace classdesc_access
     template <class U>
     void operator()(cd::json_pack_t& o, const cd::string& d, U& a)
     {
-      if (o.type()!=cd::RESTProcessType::array)
-        o=cd::json_pack_t(json5_parser::mArray());
-      if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
-        {
+      json5_parser::mArray arr;
+      std::apply([&](auto&... element) {
+        auto pack=[&](auto& e) {
           cd::json_pack_t j;
-          auto& head=std::get<0>(a);
-          ::json_pack(j,d,head);
-          auto& arr=o.get_array();
+          ::json_pack(j,"",e);
           arr.emplace_back(j);
-          ::json_pack(o,d,cd::tupleTail(a));
-        }
+        };
+        (pack(element),...);
+      }, a);
+      cd::json_place(o,d,arr);
     }
   };
     
   template <class... A>
   struct access_json_unpack<std::tuple<A...>>
   {
-    void operator()(cd::json_pack_t o, const cd::string& d, std::tuple<A...>& a)
+    void operator()(cd::json_unpack_t& o, const cd::string& d, std::tuple<A...>& a)
     {
-      if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
+      try
         {
-          auto& arr=o.get_array();
-          cd::json_unpack_t j(arr[0]);
-          ::json_unpack(j,d,std::get<0>(a));
-          arr.erase(arr.begin());
-          if constexpr (std::tuple_size<std::tuple<A...>>::value>1)
-            {
-              auto tail=cd::tupleTail(a);
-              ::json_unpack(o,d,tail);
-            }
+          const json5_parser::mValue val=cd::json_find(o,d);
+          if (val.type()!=json5_parser::array_type)
+            throw cd::json_pack_error("%s is not an array",d.c_str());
+          auto& arr=val.get_array();
+          size_t i=0;
+          std::apply([&](auto&... element) {
+            auto unpack=[&](auto& e) {
+              // elements not present in the JSON array are left as they are
+              if (i>=arr.size()) return;
+              cd::json_unpack_t j(arr[i++]);
+              j.throw_on_error=o.throw_on_error;
+              ::json_unpack(j,"",e);
+            };
+            (unpack(element),...);
+          }, a);
+        }
+      catch (const cd::json_pack_error&)
+        {
+          // only throw if this flag is set
+          if (o.throw_on_error) throw; 
         }
     }
   };
-- 
2.43.0


From b42257919260c14e033ceffd76fe3d362c49f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 101/116] fix: json_pack lost entries of a StringKeyMap whose
 key is empty or contains a '.'

---
 stringKeyMap_epilogue.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/stringKeyMap_epilogue.h b/stringKeyMap_epilogue.h
index 620cf0d..def626c 100644
--- a/stringKeyMap_epilogue.h
+++ b/stringKeyMap_epilogue.h
@@ -11,14 +11,20 @@ namespace classdesc
   {
     try
       {
-        json5_parser::mValue& parent=json_find(j,head(d));
-        if (parent.type()!=json5_parser::obj_type)
+        json5_parser::mValue& target=json_find(j,d);
+        if (target.type()!=json5_parser::obj_type)
           throw json_pack_error("attempt to pack an array member into a non-object");
         else
           {
             typename StringKeyMap<T>::const_iterator i=a.begin();
             for (; i!=a.end(); ++i)
-              json_pack(j,d+"."+i->first, i->second);
+              {
+                // a key is not a path: it may contain '.', or be empty
+                json_pack_t e;
+                e.throw_on_error=j.throw_on_error;
+                json_pack(e,"",i->second);
+                target.get_obj()[i->first]=e;
+              }
           }
       }
     catch (json_pack_error&)
@@ -40,7 +46,11 @@ namespace classdesc
               const json5_parser::mObject& arr=val.get_obj();
               a.clear();
               for (json5_parser::mObject::const_iterator i=arr.begin(); i!=arr.end(); ++i)
-                json_unpack(j,d+"."+i->first,a[i->first]);
+                {
+                  json_unpack_t e(i->second);
+                  e.throw_on_error=j.throw_on_error;
+                  json_unpack(e,"",a[i->first]);
+                }
             }
             break;
           case json5_parser::null_type:
-- 
2.43.0


From de0045298ae2be9924578524987c38bfd60b2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:27 +0000
Subject: [PATCH 102/116] fix: assigning a map through RESTProcess lost the
 keys of its entries

---
 RESTProcess_base.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 5e1d45f..795ddf9 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -295,6 +295,19 @@ namespace classdesc
       }
   }
  
+  /// used for removing const attributes of an associative container's value_type
+  template <class T>
+  struct MutableValueType
+  {
+    typedef typename std::remove_const<T>::type type;
+  };
+  
+  template <class K, class V>
+  struct MutableValueType<std::pair<const K, V> >
+  {
+    typedef std::pair<K, V> type;
+  };
+  
   template <class X>
   typename enable_if<And<is_associative_container<X>,Not<is_const<X>>>, void>::T
   convert(X& x, const REST_PROCESS_BUFFER& j)
@@ -307,7 +320,7 @@ namespace classdesc
           x.clear();
           for (auto& ai: arr)
             {
-              typename X::value_type v;
+              typename MutableValueType<typename X::value_type>::type v{};
               REST_PROCESS_BUFFER(ai) >> v;
               x.insert(v);
             }
@@ -828,19 +841,6 @@ namespace classdesc
   RESTProcessp(RESTProcess_t& repo, const string& d, T& a)
   {repo.add(d, new RESTProcessValueSequence<T>(a));}
 
-  /// used for removing const attributes of an associative container's value_type
-  template <class T>
-  struct MutableValueType
-  {
-    typedef typename std::remove_const<T>::type type;
-  };
-  
-  template <class K, class V>
-  struct MutableValueType<std::pair<const K, V> >
-  {
-    typedef std::pair<K, V> type;
-  };
-  
   /// insert element into an associative container
   template <class T> 
   void RPAC_insert(T& obj, const REST_PROCESS_BUFFER& arguments)
-- 
2.43.0


From 050679132bbc9c43f29e997b5b770c145f615766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:27 +0000
Subject: [PATCH 103/116] fix: RESTProcess paths going through a map element
 referred to a temporary copy of it

---
 RESTProcess_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index adcf22e..bea7410 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -356,7 +356,7 @@ namespace classdesc
               }
             else if (tail.empty())
               return makeRESTProcessValueObject(elem_of(i));
-            auto eoi=elem_of(i);
+            auto& eoi=elem_of(i);
             return mapAndProcess(tail, arguments, eoi);
           }
       }
-- 
2.43.0


From 8f78085e2480f079c58128bab3db6246d0401204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 104/116] fix: RESTProcess returned references into values
 returned by functions after these were destroyed

---
 RESTProcess_base.h     | 12 +++++++-----
 RESTProcess_epilogue.h | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 795ddf9..02c6cc5 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -434,12 +434,16 @@ namespace classdesc
   template <class T>
   RPPtr mapAndProcess(const string& query, const REST_PROCESS_BUFFER& arguments, T& a);
 
+  /// process \a query on a temporary object constructed from \a args,
+  /// which is kept alive by the result
+  template <class T, class... Args>
+  RPPtr processTemporary(const string& query, const REST_PROCESS_BUFFER& arguments, Args&&... args);
+
   template <class T>
   inline typename enable_if<is_default_constructible<T>,RPPtr>::T
   mapAndProcessDummy(const string& query, const REST_PROCESS_BUFFER& arguments)
   {
-    T dummy{};
-    return mapAndProcess(query,arguments,dummy);
+    return processTemporary<T>(query,arguments);
   }
 
   template <class T>
@@ -1202,9 +1206,7 @@ namespace classdesc
     auto r=functional::callOnBuffer(argBuf,f);
     if (remainder.empty())
       return makeRESTProcessValueObject(std::move(r));
-    RESTProcess_t map;
-    RESTProcess(map,"",r);
-    return map.process(remainder, arguments);
+    return processTemporary<decltype(r)>(remainder, arguments, std::move(r));
   }
   
   template <class F>
diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index bea7410..cc8ba56 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -518,6 +518,22 @@ namespace classdesc
     return map.process(query,arguments);
   }
 
+  /// holder of a temporary object, and the result of processing it
+  template <class T> struct RESTProcessTemporary
+  {
+    T value;
+    RPPtr result; // may refer to value
+    template <class... Args>
+    RESTProcessTemporary(Args&&... args): value(std::forward<Args>(args)...) {}
+  };
+
+  template <class T, class... Args>
+  RPPtr processTemporary(const string& query, const REST_PROCESS_BUFFER& arguments, Args&&... args)
+  {
+    auto owner=std::make_shared<RESTProcessTemporary<T>>(std::forward<Args>(args)...);
+    owner->result=mapAndProcess(query,arguments,owner->value);
+    return RPPtr(owner, owner->result.get());
+  }
  
   template <class T> typename enable_if<And<is_class<T>, Not<is_container<T>>>,void>::T
   populateFromObj(RESTProcess_t& r, T&obj)
-- 
2.43.0


From c82409290f830d675b6644575ba4e0fec9d033be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 105/116] fix: @elemNoThrow of a missing map key returned a
 default key-value pair instead of a default element

---
 RESTProcess_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index cc8ba56..5974055 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -350,7 +350,7 @@ namespace classdesc
             if (i==obj.end())
               {
                 if (startsWith(remainder,".@elemNoThrow"))
-                  return mapAndProcessDummy<typename T::value_type>(tail, arguments);
+                  return mapAndProcessDummy<typename remove_const<typename MappedType<T>::type>::type>(tail, arguments);
                 else
                   throw std::runtime_error("key "+std::string(keyStart, keyEnd)+" not found");
               }
-- 
2.43.0


From a2eb1ff5ab885b418a639de543fe4caa457f9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 106/116] fix: RESTProcess took map keys that are not numbers
 as 0

---
 RESTProcess_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 02c6cc5..69957d6 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -881,7 +881,9 @@ namespace classdesc
   inline typename enable_if<is_fundamental<U>, void>::T
   assignRawStringToKey(U& key, const std::string& x)
   {
-    std::istringstream is(x); is>>key;
+    std::istringstream is(x);
+    if (!(is>>key) || is.peek()!=std::istringstream::traits_type::eof())
+      throw std::runtime_error("invalid key "+x);
   }
     
   template <class U>
-- 
2.43.0


From 9720aabc0957735b588aae34e099076cf9fafc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 107/116] fix: RESTProcess @type of weak pointers and of
 multidimensional arrays

---
 RESTProcess_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 69957d6..010e938 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -783,7 +783,7 @@ namespace classdesc
     }
     std::vector<Signature> signature() const override {return {};}
     RESTProcess_t list() const override {return {};}
-    std::string type() const override {return "typeName<T>()";}
+    std::string type() const override {return typeName<T>();}
     bool isObject() const override {return true;}
     RPPtr getElem(const REST_PROCESS_BUFFER& index) override {
       size_t idx; index>>idx;
@@ -1100,7 +1100,7 @@ namespace classdesc
         return RESTProcessObject<typename T::element_type>(*p).list();
       return {};
     }
-    std::string type() const override {return typeName<std::weak_ptr<T> >();}
+    std::string type() const override {return typeName<T>();}
     object* getClassdescObject() override {
       auto p=ptr.lock();
       if (!p || is_const<typename T::element_type>::value) return nullptr;
-- 
2.43.0


From 04baeaa77160be4369e3dc2c86b753f3e9a1b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 108/116] fix: RESTProcess passed a function's arguments on to
 members of its result, setting these

---
 RESTProcess_base.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 010e938..110777e 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -1160,6 +1160,18 @@ namespace classdesc
     }
   };
 
+  /// arguments left over once the first N have been passed to a function
+  template <int N>
+  REST_PROCESS_BUFFER remainingArguments(const REST_PROCESS_BUFFER& arguments)
+  {
+    if (N==0) return arguments;
+    if (arguments.type()!=RESTProcessType::array) return {};
+    auto arr=arguments.array();
+    if (arr.size()<=N) return {};
+    arr.erase(arr.begin(), arr.begin()+N);
+    return REST_PROCESS_BUFFER(arr);
+  }
+
   template <class F>
   typename enable_if<
     And<functional::AllArgs<F, functional::ArgAcceptable>,
@@ -1192,7 +1204,7 @@ namespace classdesc
       }
     RESTProcess_t map;
     RESTProcess(map,"",r);
-    return map.process(remainder, arguments);
+    return map.process(remainder, remainingArguments<functional::Arity<F>::value>(arguments));
   }
 
   template <class F>
@@ -1208,7 +1220,8 @@ namespace classdesc
     auto r=functional::callOnBuffer(argBuf,f);
     if (remainder.empty())
       return makeRESTProcessValueObject(std::move(r));
-    return processTemporary<decltype(r)>(remainder, arguments, std::move(r));
+    return processTemporary<decltype(r)>
+      (remainder, remainingArguments<functional::Arity<F>::value>(arguments), std::move(r));
   }
   
   template <class F>
-- 
2.43.0


From c1c981d6095eff3aa92254e4cabf1a9a91c2d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:53 +0000
Subject: [PATCH 109/116] fix: the callback of RESTProcess_t::addFactory is
 optional

---
 RESTProcess_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index 5974055..e491165 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -553,7 +553,7 @@ namespace classdesc
       auto rp=make_unique<RESTProcessHeapObject<T>>();
       rp->obj=make_unique<T>(std::forward<A>(args)...);
       add(name,rp.release());
-      callback(name);
+      if (callback) callback(name);
     };
     
     add(typeName, new RESTProcessFunction<decltype(factory),void>(factory));
-- 
2.43.0


From 40caf2ceef9460b16ad3d607fd34f40097702238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:43 +0000
Subject: [PATCH 110/116] fix: attributes registered again, or hiding those of
 a base class, kept referring to the previous ones in RESTProcess

---
 RESTProcess_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RESTProcess_base.h b/RESTProcess_base.h
index 110777e..36b8a81 100644
--- a/RESTProcess_base.h
+++ b/RESTProcess_base.h
@@ -599,7 +599,7 @@ namespace classdesc
   template <class T>
   typename enable_if<Or<is_fundamental<T>,is_string<T>>, void>::T
   RESTProcessp(RESTProcess_t& repo, const string& d, T& a)
-  {repo.emplace(d, makeRESTProcessRef(a));}
+  {repo.add(d, new RESTProcessObject<T>(a));}
 
   template <class T>
   void RESTProcessp(RESTProcess_t& repo, const string& d, T* a)
-- 
2.43.0


From 4a160e6aaadf3fa33651a6fb3d91c03e9b3edaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 111/116] fix: RESTProcess_t::addFactory did not compile for
 strings nor with using namespace std, make_unique being ambiguous

---
 RESTProcess_epilogue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index e491165..c3459c4 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -550,8 +550,8 @@ namespace classdesc
   {
     std::function<void(const std::string& name, A... args)> factory=
       [this,callback](const std::string& name, A... args) {
-      auto rp=make_unique<RESTProcessHeapObject<T>>();
-      rp->obj=make_unique<T>(std::forward<A>(args)...);
+      auto rp=std::unique_ptr<RESTProcessHeapObject<T>>(new RESTProcessHeapObject<T>);
+      rp->obj=std::unique_ptr<T>(new T(std::forward<A>(args)...));
       add(name,rp.release());
       if (callback) callback(name);
     };
-- 
2.43.0


From 4eafb0068d00eebc7416f13c79bd6487f11f2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 112/116] fix: std::function objects registered with
 RESTProcess could not be called, being replaced by data objects

---
 RESTProcess_epilogue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RESTProcess_epilogue.h b/RESTProcess_epilogue.h
index c3459c4..02c8728 100644
--- a/RESTProcess_epilogue.h
+++ b/RESTProcess_epilogue.h
@@ -176,12 +176,17 @@ namespace classdesc
   typename enable_if<Not<functional::is_nonmember_function_ptr<T>>, void>::T
   RESTProcess(RESTProcess_t& r, const string& d, T& a) {RESTProcessp(r,d,a);}
 
+  template <class T> struct is_function_object: public false_type {};
+  template <class F> struct is_function_object<std::function<F>>: public true_type {};
+
   template <class T>
   typename enable_if<is_classdescGenerated<T>, void>::T
   RESTProcessp(RESTProcess_t& repo, string d, T& obj)
   {
     classdesc_access::access_RESTProcess<typename remove_const<T>::type,void>()(repo,d,obj);
-    if (!is_excluded<T>::value) repo.add(d, new RESTProcessObject<T>(obj));
+    // access_RESTProcess has registered std::function objects as functions
+    if (!is_excluded<T>::value && !is_function_object<typename remove_const<T>::type>::value)
+      repo.add(d, new RESTProcessObject<T>(obj));
   }
 
   inline RPPtr RESTProcessOverloadedFunction::process(const string& remainder, const REST_PROCESS_BUFFER& arguments)
-- 
2.43.0


From 2b94b7acdbfd894212342c3249c3d55c41eb41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:36 +0000
Subject: [PATCH 113/116] fix: swapping pack buffers did not swap the recursion
 limit, so that a graph packed under one could not be read back

---
 pack_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pack_base.h b/pack_base.h
index 000fc42..6e712db 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -152,6 +152,7 @@ namespace classdesc
       std::swap(m_size,other.m_size);
       std::swap(m_pos,other.m_pos);
       std::swap(ptr_flag,other.ptr_flag);
+      std::swap(recur_max,other.recur_max);
       std::swap(alloced,other.alloced);
     }
     enum mode_t {buf, readf, writef};
-- 
2.43.0


From ab1a5b260c2f272069ca57e00fcea1025aa89876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:48 +0000
Subject: [PATCH 114/116] fix: json_pack_t built from an initializer list had
 indeterminate error handling flags

---
 json_pack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index 22795dd..bb3f602 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -144,7 +144,8 @@ namespace classdesc
 //      json5_parser::mValue(x), throw_on_error(false), throw_on_not_found(false) {}
 #if defined(__cplusplus) && __cplusplus>=201103L
     template <class T>
-    explicit json_pack_t(const std::initializer_list<T>& x): json5_parser::mValue(json5_parser::mArray())
+    explicit json_pack_t(const std::initializer_list<T>& x): json5_parser::mValue(json5_parser::mArray()),
+      throw_on_error(false), throw_on_not_found(false)
     {
       auto& arr=get_array();
       for (auto& i: x) arr.emplace_back(i);
-- 
2.43.0


From 53fb3680f226dea17f5c28b408e67469bea95013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:01 +0000
Subject: [PATCH 115/116] fix: packing the first value into a json_pack_t
 cleared its error handling flags

---
 json_pack_base.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json_pack_base.h b/json_pack_base.h
index bb3f602..04787b5 100644
--- a/json_pack_base.h
+++ b/json_pack_base.h
@@ -158,7 +158,7 @@ namespace classdesc
     }
 
     /// convert this to an object type (if not already)
-    void objectify() {if (type()!=RESTProcessType::object) *this=json_pack_t(json5_parser::mObject());}
+    void objectify() {if (type()!=RESTProcessType::object) static_cast<json5_parser::mValue&>(*this)=json5_parser::mObject();}
 
   };
 
@@ -352,8 +352,7 @@ namespace classdesc
     using namespace json5_parser;
     if (d=="")
       {
-        json_pack_t tmp(valueof(a));
-        o=tmp;
+        static_cast<json5_parser::mValue&>(o)=valueof(a); // leaving error handling flags as set
       }
     else
       {
-- 
2.43.0


From 17d8d4ba4bf0b5162abc87203b649f0f0c49b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:03 +0000
Subject: [PATCH 116/116] fix: xdr_pack wrote beyond the end of a buffer which
 had been resized without moving it or changing its size

---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 6e712db..7e34fd6 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -177,7 +177,7 @@ namespace classdesc
       return (char*)classdesc::realloc(d,s);
 #endif
     }
-    void realloc(size_t s) {m_data=realloc(m_data,s);}
+    virtual void realloc(size_t s) {m_data=realloc(m_data,s);}
     /** resizes the buffer, leaving any extra allocated space uninitialised
         use this for expanding an input buffer when reading from a stream
      */
@@ -342,6 +342,9 @@ namespace classdesc
     void finishInput();        ///< update size after encoding
     void prepareOutput();      ///< ensure decoding sees the current buffer
   public:
+    using pack_t::realloc;
+    /// input needs to be set up again, even if the buffer stays where it is
+    virtual void realloc(size_t s) {pack_t::realloc(s); base=NULL;}
     xdr_pack(size_t sz=0);
     xdr_pack(const char *, const char* rw);
     ~xdr_pack();
-- 
2.43.0

