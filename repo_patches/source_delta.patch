From 91e1851f348055a74239c5f50d3173ade7f5ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 01/41] fix: HIID::push_front must move whole elements, not
 bytes

---
 DMI/src/HIID.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/HIID.h b/DMI/src/HIID.h
index 6cce12f..789a145 100644
--- a/DMI/src/HIID.h
+++ b/DMI/src/HIID.h
@@ -411,7 +411,7 @@ inline void HIID::push_front (AtomicID aid,uint n)
   {
     int sz0 = size();
     resize(sz0+n);
-    memmove(&(*this)[n],&(front()),sz0);
+    memmove(&(*this)[n],&(front()),sz0*sizeof(AtomicID));
     iterator iter = begin();
     for( uint i=0; i < n; i++,iter++ )
       *iter = aid;
-- 
2.43.0


From eaefbb83db8f2028f2eb53b5107f9eb7ce93ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 02/41] fix: HIID::subId counts negative positions back from
 the end

---
 DMI/src/HIID.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index d57ea1e..425056e 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -44,8 +44,8 @@ HIID::HIID (const void* block, int sz)
 //##ModelId=3C55695F00CC
 HIID HIID::subId (int first, int last) const
 {
-  const_iterator iter1 = first >= 0 ? begin()+first : end()-first;
-  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()-(last+1);
+  const_iterator iter1 = first >= 0 ? begin()+first : end()+first;
+  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()+(last+1);
   if( iter1 >= iter2 )
     return HIID();
   else
-- 
2.43.0


From b2a16a6cb108e7a8c9231e130feeb48dc8cff098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 03/41] fix: HIID::toString must not read past the end of a
 malformed literal

---
 DMI/src/HIID.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index 425056e..c88b0db 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -195,11 +195,14 @@ string HIID::toString (char separator,bool mark_lit) const
       if( !sep )
         result += separator;
       int len = iter->id()&LITERAL_LENGTH_MASK;
-      int size = (len+LITERAL_RATIO-1)/LITERAL_RATIO;
       iter++;
+      // a malformed ID may claim more characters than it actually holds
+      len = std::min(len,int(end()-iter)*int(LITERAL_RATIO));
+      int size = (len+LITERAL_RATIO-1)/LITERAL_RATIO;
       if( mark_lit )
         result += "$";
-      result += string(reinterpret_cast<const char*>(&(*iter)),len);
+      if( len )
+        result += string(reinterpret_cast<const char*>(&(*iter)),len);
       iter += size-1; // skip over the aids forming the literal string
       sep = false;
     }
-- 
2.43.0


From 14da53ab0e0e903c7bd2c69a96c6cd41a9e531b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 04/41] fix: privatizing the only ref to an anonymous target
 must not leak the old target

---
 DMI/src/CountedRefBase.cc | 8 ++++++++
 DMI/src/CountedRefBase.h  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 9baa38c..933a2c3 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -217,6 +217,8 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
     // invalidate other ref (const violation here, but that's a consequence
     // of our destructive semantics)
     other.empty();
+    // privatizing may destroy the target along with its mutex
+    other_target_lock.release();
     // deep copy? do a privatize now
     if( flags&DMI::DEEP || depth>0 )
     {
@@ -237,13 +239,19 @@ bool CountedRefBase::privatize (int flags, int depth)
   const int mask_local_flags = DMI::LOCKED|DMI::UNLOCKED|DMI::SHARED|DMI::COW;
   FailWhen( !valid(),"can't privatize an invalid ref" );
   dprintf1(2)("%s: privatizing to depth %d\n",debug(),flags&DMI::DEEP?-1:depth);
+  // holds on to the old target while it is being cloned, and releases it (thus 
+  // destroying it if we were the last ref) once the lock below is gone
+  CountedRefBase old_ref;
   Thread::Mutex::Lock target_lock(target_->crefMutex());
   Assert1(!target_->deleted_);
   dprintf1(2)("  %s\n",target_->debug(2,"  "));
   // no cloning is done if the object is anon_ and writable_ and we are the only ref
   bool res = true;
   if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)
+  {
+    old_ref.copy(*this);
     cloneTarget(flags&~mask_local_flags,depth-1);
+  }
   else
     res = false;
   // now change ref properties if asked to
diff --git a/DMI/src/CountedRefBase.h b/DMI/src/CountedRefBase.h
index 2e024eb..a3f3792 100644
--- a/DMI/src/CountedRefBase.h
+++ b/DMI/src/CountedRefBase.h
@@ -143,7 +143,11 @@ class CountedRefBase
         Thread::Mutex::Lock target_lock(target_->crefMutex());
         Assert1(!target_->deleted_);
         if( !isDirectlyWritable() )
+        {
+          // privatizing may destroy the old target along with its mutex
+          target_lock.release();
           privatize();  // do COW
+        }
         return target_;
       }
 
-- 
2.43.0


From 2c06d927f38d87242f9b367dd89eebe2887cbf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 05/41] fix: SmartBlock::resize with DMI::ZERO must keep the
 old contents

---
 DMI/src/SmartBlock.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/SmartBlock.cc b/DMI/src/SmartBlock.cc
index 5d5fb54..70c5a68 100644
--- a/DMI/src/SmartBlock.cc
+++ b/DMI/src/SmartBlock.cc
@@ -135,7 +135,8 @@ void SmartBlock::resize (size_t newsize, int flags)
     // get rid of old block
     }
     destroy();
-    init( newblock,newsize,flags|DMI::ANON,0 );
+    // padding is already in place, so don't let init() zero the whole block
+    init( newblock,newsize,(flags&~DMI::ZERO)|DMI::ANON,0 );
   }
 }
 
-- 
2.43.0


From 0d17259965264caaafe4bee1e465e8deaacdd3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 06/41] fix: BlockSet::flushToCursor must account for the
 discarded blocks

---
 DMI/src/BlockSet.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DMI/src/BlockSet.cc b/DMI/src/BlockSet.cc
index aff7ead..3117816 100644
--- a/DMI/src/BlockSet.cc
+++ b/DMI/src/BlockSet.cc
@@ -105,8 +105,10 @@ int BlockSet::flushToCursor ()
     cursor_offset = 0;
   }
   // erase all refs up to (excluding) the cursor
+  int n = std::distance(refs.begin(),cursor_iter);
   refs.erase(refs.begin(),cursor_iter);
-  return size();
+  cursize -= n;
+  return n;
 }
 
 // Additional Declarations
-- 
2.43.0


From e6d000c402cfb268cb8d0cef62327c4d2646d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 07/41] fix: Timestamp::toString("s") must print seconds, not
 milliseconds

---
 DMI/src/Timestamp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Timestamp.cc b/DMI/src/Timestamp.cc
index dea546e..65af84c 100644
--- a/DMI/src/Timestamp.cc
+++ b/DMI/src/Timestamp.cc
@@ -61,7 +61,7 @@ string Timestamp::toString (const char *format) const
   if( !strcmp(format,"ms") )
     return Debug::ssprintf("%.3f",sec_*1e+3+usec_*1e-3);
   else if( !strcmp(format,"s") )
-    return Debug::ssprintf("%.6f",sec_*1e+3+usec_*1e-3);
+    return Debug::ssprintf("%.6f",sec_+usec_*1e-6);
   else if( !strcmp(format,"us") )
     return Debug::ssprintf("%ld",sec_*1000000+usec_);
   else if( !strcmp(format,"ns") )
-- 
2.43.0


From 8bd21563d1757810e537bab35fd92fff6dd96cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 08/41] fix: Timestamp(double) must be normalised for tiny
 negative values

---
 DMI/src/Timestamp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DMI/src/Timestamp.cc b/DMI/src/Timestamp.cc
index 65af84c..2f3fcc4 100644
--- a/DMI/src/Timestamp.cc
+++ b/DMI/src/Timestamp.cc
@@ -37,6 +37,8 @@ Timestamp::Timestamp (double sec1)
   //## begin Timestamp::Timestamp%3C95C5F90389.body preserve=yes
   sec_ = (long) floor(sec1);
   usec_ = (long) floor((sec1-sec_)*1e+6);
+  // tiny negative values end up with 1000000 us here
+  normalize();
   //## end Timestamp::Timestamp%3C95C5F90389.body
 }
 
-- 
2.43.0


From 91b5d76e067a0425bf52fd7d38c8e961ff19ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:07 +0000
Subject: [PATCH 09/41] fix: removing a record field must hand out its object,
 and leave it alone when refused

---
 DMI/src/Container.cc | 21 +++++++++++++++++++--
 DMI/src/Record.h     |  3 ++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index e734911..907a83c 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -417,8 +417,25 @@ DMI::ObjRef DMI::Container::Hook::remove () const
   resolveToWritableContainer();
   ObjRef ret;
   if( isRef() )
-    ret.xfer(const_cast<ObjRef*>(asRef(false))->unlock());
-  nc->remove(*pid);
+  {
+    // keep the object in place until the container has agreed to remove it
+    ObjRef *ref0 = const_cast<ObjRef*>(asRef(false));
+    bool locked = ref0->isLocked();
+    ret.xfer(ref0->unlock());
+    try
+    {
+      nc->remove(*pid);
+    }
+    catch( ... )
+    {
+      ref0->xfer(ret);
+      if( locked )
+        ref0->lock();
+      throw;
+    }
+  }
+  else
+    nc->remove(*pid);
   target.ptr = 0;
   return ret;
 }
diff --git a/DMI/src/Record.h b/DMI/src/Record.h
index 9f28179..f41d169 100644
--- a/DMI/src/Record.h
+++ b/DMI/src/Record.h
@@ -135,7 +135,8 @@ class Record : public Container
           // clears the field, but xfers the ref into out
           void xfer (ObjRef &out)
           {
-            makeObject();
+            if( !ref_.valid() )
+              makeObject();
             out.xfer(ref_);
             clear();
           }
-- 
2.43.0


From c5207a39945e8320f058a8dd52142172c71ad8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 10/41] fix: a trailing slash in a container subscript must not
 recurse forever

---
 DMI/src/Container.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index 907a83c..e787c03 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -100,7 +100,7 @@ const DMI::Container::Hook & DMI::Container::Hook::operator [] (const HIID &id1)
       if( !sep )                              // trim leading slash
         return (*this)[id1.subId(1)];
       else if( sep == nid-1 )                 // or trim trailing slash
-        return (*this)[id1.subId(0,sep)];
+        return (*this)[id1.subId(0,sep-1)];
       else                                    // or split in two and apply consecutively
         return (*this)[id1.subId(0,sep-1)][id1.subId(sep+1)];
     }
-- 
2.43.0


From 683e99ff3a023b45f1c397f7be0ae0ffd2a55790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 11/41] fix: unpacking damaged blocks must be refused, not read
 or written out of bounds

---
 DMI/src/BlockSet.cc           |  2 +-
 DMI/src/DynamicTypeManager.cc | 12 ++++++++++--
 DMI/src/NumArray.cc           | 12 +++++++++---
 DMI/src/Packer.h              | 33 +++++++++++++++++++--------------
 DMI/src/Record.cc             |  7 ++++---
 DMI/src/Vec.cc                |  2 +-
 6 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/DMI/src/BlockSet.cc b/DMI/src/BlockSet.cc
index 3117816..dd32de1 100644
--- a/DMI/src/BlockSet.cc
+++ b/DMI/src/BlockSet.cc
@@ -32,7 +32,7 @@ namespace DMI
 //##ModelId=3BFA56540172
 int BlockSet::popMove (BlockSet& outset, int count)
 {
-  FailWhen( count>size(),"Too many refs requested in popMove" );
+  FailWhen( count<0 || count>size(),"Too many refs requested in popMove" );
   for( int i=0; i<count; i++ )
   {
     outset.pushNew().xfer(refs.front());
diff --git a/DMI/src/DynamicTypeManager.cc b/DMI/src/DynamicTypeManager.cc
index cba8e66..25aad41 100644
--- a/DMI/src/DynamicTypeManager.cc
+++ b/DMI/src/DynamicTypeManager.cc
@@ -30,12 +30,20 @@ namespace DMI
     
 DefineRegistry(DynamicTypeManager,0);
 
+// reads object type from the header in the first block of a set
+static TypeId getHeaderType (const BlockSet &bset)
+{
+  FailWhen( bset.empty() || bset.front()->size() < sizeof(BObj::Header),
+            "malformed header block" );
+  return static_cast<const BObj::Header *>(bset.front()->data())->tid;
+}
+
 ObjRef DynamicTypeManager::construct (TypeId tid, BlockSet& bset)
 {
   if( bset.empty() )
     return ObjRef(construct(tid));
   if( tid == 0 )
-    tid = static_cast<const BObj::Header *>(bset.front()->data())->tid;
+    tid = getHeaderType(bset);
   BObj * pobj = construct(tid);
   if( pobj )
   {
@@ -50,7 +58,7 @@ ObjRef DynamicTypeManager::construct (TypeId tid, BlockSet& bset)
 BObj * DynamicTypeManager::construct (TypeId tid, BlockSet& bset, int n)
 {
   if( tid == 0 )
-    tid = static_cast<const BObj::Header *>(bset.front()->data())->tid;
+    tid = getHeaderType(bset);
   BObj *obj = construct(tid,n);
   for( int i=0; i<(n?n:1); i++ )
     obj[i].fromBlock(bset);
diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 62aa43c..923c580 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -461,16 +461,22 @@ int DMI::NumArray::fromBlock (BlockSet& set)
               "invalid array element type" + itsScaType.toString() ); 
     uint rank = hdr->rank;
     FailWhen( rank < 1 || rank > MaxLorrayRank,"invalid array rank" );
-    FailWhen( hsize < (2+rank)*sizeof(int), "malformed data block" );
+    FailWhen( hsize < sizeof(Header) + rank*sizeof(uint), "malformed data block" );
     // derive array type & element size
     itsType = TpArray(itsScaType,rank);
     itsElemSize = itsScaType == Tpstring ? sizeof(string) : typeinfo.size;
 
     // get shape from header & compute total size
     itsShape.resize(rank);
-    itsSize = 1;
+    size_t nelem = 1;
     for( uint i=0; i<rank; i++ )
-      itsSize *= itsShape[i] = hdr->shape[i];
+    {
+      itsShape[i] = hdr->shape[i];
+      nelem *= hdr->shape[i];
+      // each element takes up at least one byte of the block
+      FailWhen( itsShape[i]<0 || nelem>hsize, "malformed data block" );
+    }
+    itsSize = nelem;
 
     // compute size of data block & offset into it
     size_t blocksize = sizeof(Header) + sizeof(uint)*rank;
diff --git a/DMI/src/Packer.h b/DMI/src/Packer.h
index 9a78ad7..3608d2b 100644
--- a/DMI/src/Packer.h
+++ b/DMI/src/Packer.h
@@ -431,7 +431,8 @@ void SeqPacker<Seq,ElemPacker>::unpack (Seq &seq, const void *block, size_t sz)
   const size_t *hdr = static_cast<const size_t*>(block);
   size_t n   = *(hdr++),
          sz0 = (1+(ElemPacker::binary()?0:n))*sizeof(size_t);
-  FailWhen(sz<sz0,"corrupt block");
+  // each element takes up at least this much of the block
+  FailWhen(n>sz/(ElemPacker::binary()?ElemPacker::binary():sizeof(size_t)) || sz<sz0,"corrupt block");
   const char *data = static_cast<const char*>(block) + sz0;
   seq.clear();
   seq.reserve(n);
@@ -448,8 +449,9 @@ void SeqPacker<Seq,ElemPacker>::unpack (Seq &seq, const void *block, size_t sz)
     }
     else
     {
-      sz0 += s1 = ElemPacker::binary() ? ElemPacker::binary() : *hdr++;
-      FailWhen(sz<sz0,"corrupt block");
+      s1 = *hdr++;
+      FailWhen(s1>sz-sz0,"corrupt block");
+      sz0 += s1;
       ElemPacker::unpack(val,data,s1);
     }
     data += s1;
@@ -529,7 +531,7 @@ void MapPacker<Map,KeyPacker,ValuePacker>::unpack (Map &mp, const void *block, s
     *hdr = const_cast<size_t*>(static_cast<const size_t*>(block)),
     n   = *(hdr++),
     sz0 = (1+ (KeyPacker::binary()?0:n) + (ValuePacker::binary()?0:n))*sizeof(size_t);
-  FailWhen(sz<sz0,"corrupt block");
+  FailWhen(n>sz || sz<sz0,"corrupt block");
   const char *data = static_cast<const char*>(block) + sz0;
   for( size_t i=0; i<n; i++ )
   {
@@ -544,8 +546,8 @@ void MapPacker<Map,KeyPacker,ValuePacker>::unpack (Map &mp, const void *block, s
     else
     {
       s1 = *(hdr++);
+      FailWhen(s1>sz-sz0,"corrupt block");
       sz0 += s1;
-      FailWhen(sz<sz0,"corrupt block");
       KeyPacker::unpack(key,data,s1);
     }
     data += s1;
@@ -558,8 +560,8 @@ void MapPacker<Map,KeyPacker,ValuePacker>::unpack (Map &mp, const void *block, s
     else
     {
       s2 = *(hdr++);
-      sz0 += s1;
-      FailWhen(sz<sz0,"corrupt block");
+      FailWhen(s2>sz-sz0,"corrupt block");
+      sz0 += s2;
       ValuePacker::unpack(mp[key],data,s2);
     }
     data += s2;
@@ -573,8 +575,8 @@ size_t MapPacker<Map,KeyPacker,ValuePacker>::packSize (const Map &mp)
 {
   size_t sz = 0, count = 0;
   for( CIter iter = mp.begin(); iter != mp.end(); iter++,count++ )
-    sz += KeyPacker::binary() ? KeyPacker::binary() : KeyPacker::packSize(iter->first) 
-       +  ValuePacker::binary() ? ValuePacker::binary() : ValuePacker::packSize(iter->second);
+    sz += ( KeyPacker::binary() ? KeyPacker::binary() : KeyPacker::packSize(iter->first) )
+       +  ( ValuePacker::binary() ? ValuePacker::binary() : ValuePacker::packSize(iter->second) );
   // for storage, we need 1 size_t for # of objects, N size_ts for
   // object sizes, plus the total data size
   return sz +  (1+ (KeyPacker::binary()?0:count) + (ValuePacker::binary()?0:count))*sizeof(size_t);
@@ -642,15 +644,15 @@ void ArrayPacker<T,ElemPacker>::unpack (T* arr, int n, const void *block, size_t
   {
     sz0 += elsize *= n;
     FailWhen(sz<sz0,"corrupt block");
-    memcpy(arr,block,elsize);
+    memcpy(arr,data,elsize);
   }
   else // variable-length elements
   {
     for( int i=0; i<n; i++,arr++ )
     {
       size_t s1 = *(hdr++);
+      FailWhen(s1>sz-sz0,"corrupt block");
       sz0 += s1;
-      FailWhen(sz<sz0,"corrupt block");
       ElemPacker::unpack(*arr,data,s1);
       data += s1;
     }
@@ -677,13 +679,16 @@ template <class T, class ElemPacker>
 T* ArrayPacker<T,ElemPacker>::allocate (const void *block, size_t sz, int& n)
 {
   FailWhen(sz<sizeof(size_t),"corrupt block");
-  n = (int) *static_cast<const size_t*>(block);
+  size_t n0 = *static_cast<const size_t*>(block);
+  // each element takes up at least this much of the block
+  FailWhen(n0>sz/(ElemPacker::binary()?ElemPacker::binary():sizeof(size_t)),"corrupt block");
+  n = (int) n0;
   T *ptr = new T[n];
   try {
     unpack(ptr,n,block,sz);
-  } catch( std::exception &exc ) {
+  } catch( ... ) {
     delete [] ptr;
-    throw(exc);
+    throw;
   }
   return ptr;
 }
diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 1aa3da2..c931336 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -239,6 +239,7 @@ int DMI::Record::fromBlock (BlockSet& set)
   int blockcount = BObj::checkHeader(phead);
   // get # of fields
   int nfields = phead->num_fields;
+  FailWhen( nfields<0,"malformed header block" );
   const BlockFieldInfo *fieldinfo = phead->fields;
   size_t off_hids = sizeof(Header) + sizeof(BlockFieldInfo)*nfields; // IDs start at this offset
   FailWhen( hsize < off_hids,"malformed header block" );
@@ -248,7 +249,7 @@ int DMI::Record::fromBlock (BlockSet& set)
   {
     // extract ID from header block
     int idsize = fieldinfo->idsize;
-    FailWhen( hsize < off_hids+idsize,"malformed header block" );
+    FailWhen( idsize<0 || hsize < off_hids+idsize,"malformed header block" );
     HIID id(chead+off_hids,idsize);
     off_hids += idsize;
     // create field container object
@@ -256,7 +257,7 @@ int DMI::Record::fromBlock (BlockSet& set)
     int bc = fieldinfo->blockcount;
     if( bc )
     {
-      FailWhen(set.size()<bc,"Record::fromBlock: unexpectedly ran out of blocks");
+      FailWhen(bc<0 || set.size()<bc,"Record::fromBlock: unexpectedly ran out of blocks");
       field.fromBlock(set,bc);
       nref += bc;
     }
@@ -336,7 +337,7 @@ int DMI::Record::get (const HIID &id,ContentInfo &info,
   FailWhen(!id.size(),"null field id");
   bool writing = flags&DMI::WRITE;
   Assert1(nonconst || !writing);
-  CFMI iter;
+  CFMI iter = fields.begin();
   // "AidHash" followed by a single numeric index is field #
   if( id.size() == 2 && id[0] == AidHash && id[1].index() >= 0 )
   {
diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index d260c3a..180b79f 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -310,11 +310,11 @@ int DMI::Vec::fromBlock (BlockSet& set)
   // get header block, privatize & cache it as headref_
   set.pop(headref_);  
   size_t hsize = headref_->size();
+  FailWhen( hsize < sizeof(HeaderBlock),"malformed header block" );
   phead_ = static_cast<HeaderBlock*>(const_cast<void*>(headref_->data()));
   // verify BObj header
   int blockcount = BObj::checkHeader(phead_);
   // first two ints in header block are type and size
-  FailWhen( hsize < sizeof(HeaderBlock),"malformed header block" );
   // get type and size from header
   mytype  = phead_->type;
   mysize_ = phead_->size;
-- 
2.43.0


From 1d5ee774481fef4afc37e6d136229381e384e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 12/41] fix: packing a sequence or map into a buffer without
 room for its header must be refused before writing

---
 DMI/src/Packer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DMI/src/Packer.h b/DMI/src/Packer.h
index 3608d2b..5f2f2ee 100644
--- a/DMI/src/Packer.h
+++ b/DMI/src/Packer.h
@@ -401,9 +401,10 @@ size_t SeqPacker<Seq,ElemPacker>::pack (const Seq& seq, void* block, size_t &nle
   //   1 x size_t: N - number of objects in sequence
   //   N x size_t: size of each object's data, in bytes (unless binary)
   // This is followed by the objects' data
-  size_t *hdr = static_cast<size_t*>(block), n = *(hdr++) = seq.size();
+  size_t *hdr = static_cast<size_t*>(block), n = seq.size();
   size_t sz = ( 1 + (ElemPacker::binary()?0:n) )*sizeof(size_t);
   FailWhen(sz>nleft,"block too small");
+  *(hdr++) = n;
   nleft -= sz;
   char   *data = static_cast<char*>(block) + sz;
   for( CIter iter = seq.begin(); iter != seq.end(); iter++ )
@@ -491,10 +492,11 @@ size_t MapPacker<Map,KeyPacker,ValuePacker>::pack (const Map& mp, void* block, s
   //   1 x size_t: N - number of entries in map
   //   N x 2 x size_t: size of each key and value's data, in bytes (unless binary)
   // This is followed by the key/values data
-  size_t *hdr = static_cast<size_t*>(block), n = *(hdr++) = mp.size();
+  size_t *hdr = static_cast<size_t*>(block), n = mp.size();
   size_t sz = (1+ (KeyPacker::binary()?0:n) + (ValuePacker::binary()?0:n))*sizeof(size_t);
   char   *data = static_cast<char*>(block) + sz;
   FailWhen(sz>nleft,"block too small");
+  *(hdr++) = n;
   nleft -= sz;
   for( CIter iter = mp.begin(); iter != mp.end(); iter++ )
   {
-- 
2.43.0


From 54dc86335f728cec9a1d6c8b3e74c1ce8e15113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 13/41] fix: resizing a vector must keep the scalar flag in the
 header and zero new elements

---
 DMI/src/Vec.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index 180b79f..c5c86e5 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -206,7 +206,10 @@ void DMI::Vec::resize (int newsize)
   {
     headref_().resize(sizeof(HeaderBlock)+typeinfo.size*newsize);
     phead_ = static_cast<HeaderBlock*>(headref_().data());
-    phead_->size = newsize;
+    phead_->size = scalar ? -newsize : newsize;
+    // new elements are zeroed, same as in init()
+    if( newsize > mysize_ )
+      memset(phead_->data + typeinfo.size*mysize_,0,typeinfo.size*(newsize-mysize_));
   }
   else if( dynamic_type )
   {
-- 
2.43.0


From 4f09eed69a518f8a453c1f41db8868e6fee933f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 14/41] fix: list positions must be checked, and counted
 correctly from the end

---
 DMI/src/List.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 41c23d0..6732e03 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -62,22 +62,18 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
 {
   if( n<0 )
   {
-    ItemList::const_reverse_iterator riter = items.rbegin();
-    n++;
-    while( n<0 && riter != items.rend() )
-      ++n,++riter;
-    FailWhen(n,"index out of range"); 
-    return riter.base();
+    FailWhen(-n > numItems(),"index out of range"); 
+    ItemList::const_iterator iter = items.end();
+    while( n<0 )
+      ++n,--iter;
+    return iter;
   }
   else 
   {
+    FailWhen(n >= numItems(),"index out of range"); 
     ItemList::const_iterator iter = items.begin();
     while( n>0 )
-    {
-      n--;
-      iter++;
-      FailWhen(iter == items.end(),"index out of range"); 
-    }
+      --n,++iter;
     return iter;
   }
 }
@@ -129,7 +125,9 @@ void DMI::List::append (const List &other,int flags)
 {
   Thread::Mutex::Lock _nclock(mutex());
   Thread::Mutex::Lock _nclock2(other.mutex());
-  for( ItemList::const_iterator iter = other.items.begin(); iter != other.items.end(); iter++ )
+  // count the items beforehand, as the other list may be ourselves
+  ItemList::const_iterator iter = other.items.begin();
+  for( int n = other.numItems(); n>0; n--,iter++ )
     items.push_back(iter->copy(flags));
 }
 
-- 
2.43.0


From 5dc16947780f0223cc2d87f1d6bf272746d0a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 15/41] fix: array slices must stay inside the array, keep
 every element of the range, and keep axes left out of the id

---
 DMI/src/NumArray.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 923c580..c355c22 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -704,7 +704,7 @@ int DMI::NumArray::get (const HIID& id, ContentInfo &info,bool nonconst,int flag
     // if keeping the axis, then add it to output shape & stride
     if( keepAxes[i] )
     {
-      subshape[iax] = (end[i]-st[i])/incr[i];
+      subshape[iax] = (end[i]-st[i]+incr[i]-1)/incr[i];
       substride[iax] = incr[i]*stride;
       iax--;
     }
@@ -760,6 +760,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
 		    << " does not have a value before range delimiter");
       // 'Colon' found, thus next value for this axis.
       // More than a single start value is given, thus keep the axis.
+      // Unless an end value follows, the range extends to the end of the axis.
+      if( !nr )
+        end[nraxes] = itsShape[nraxes];
       nr++;
       keepAxes[nraxes] = true;
       hadRange = true;
@@ -799,6 +802,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
 	        AssertMsg (end[nraxes] > st[nraxes], "End " << end[nraxes]-1
 		           << " should be >= start " << st[nraxes]
 		           << " in HIID " << id.toString());
+	        AssertMsg (end[nraxes] <= itsShape[nraxes], "End " << end[nraxes]-1
+		           << " should be < axis length " << itsShape[nraxes]
+		           << " in HIID " << id.toString());
         }
         else if( nr == 2 ) 
         {
@@ -817,6 +823,10 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
   AssertMsg (!hadRange, "HIID " << id.toString()
 	     << " does not have a value after range delimiter");
   
+  // axes not mentioned in the id at all are kept whole
+  for( int i=nraxes+1; i<ndim; i++ )
+    keepAxes[i] = true;
+  
   int nkeep = 0;
   for( int i=0; i<ndim; i++ )
     if( keepAxes[i] )
-- 
2.43.0


From 327c6b5730bc326f7152b9068795ab57d0b61dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 16/41] fix: copying, serialising or writing a NumArray that
 references a slice must use the slice, not the whole block

---
 DMI/src/NumArray.cc | 19 +++++++++++++++++--
 DMI/src/NumArray.h  | 12 ++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index c355c22..4a5ed59 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -225,7 +225,16 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
   Thread::Mutex::Lock _nclock1(other.mutex());
   Assert (!valid());
   itsWritableRef = false;
-  if( other.itsArrayValid ) 
+  if( other.itsArrayValid && other.itsStrides.size() )
+  {
+    // other is a reference to a slice: copy the slice only
+    itsScaType  = other.itsScaType;
+    itsType     = other.itsType;
+    itsElemSize = other.itsElemSize;
+    init(other.itsShape,DMI::NOZERO,realtype);
+    copyArray(itsScaType,rank(),itsArray,other.itsArray);
+  }
+  else if( other.itsArrayValid ) 
   {
     itsScaType  = other.itsScaType;
     itsType     = other.itsType;
@@ -241,7 +250,6 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
       Header *hdr = itsData().pdata<Header>();
       BObj::fillHeader(hdr,1,realtype);
     }
-    else
     itsArrayData = const_cast<char*>(itsData->cdata()) + itsDataOffset;
     // strings need to be initialized & copied over explicitly
     if( itsScaType == Tpstring )
@@ -365,6 +373,7 @@ void DMI::NumArray::make_reference (void * pdata,bool writable,
   itsSize     = shape.product();
   itsElemSize = other.itsElemSize;
   itsDataOffset = other.itsDataOffset;
+  itsStrides  = strides;
   itsArrayData = static_cast<char*>(pdata);
   itsData.unlock().copy(other.itsData).lock();
   // make array as a subarray
@@ -405,6 +414,7 @@ void DMI::NumArray::clear()
   }
 #endif
   itsShape.resize (0);
+  itsStrides.resize (0);
   
   itsData.unlock().detach();
 }
@@ -577,6 +587,11 @@ int DMI::NumArray::toBlock (BlockSet& set) const
     }
     set.push(ref);
   }
+  else if( itsStrides.size() ) // reference to a slice: push out a copy of the slice
+  {
+    NumArray copy(*this,0,0,objectType());
+    set.push(copy.itsData);
+  }
   else // else simply push out copy of data block
   {
     set.push(itsData);
diff --git a/DMI/src/NumArray.h b/DMI/src/NumArray.h
index d9c805b..7c02e9c 100644
--- a/DMI/src/NumArray.h
+++ b/DMI/src/NumArray.h
@@ -442,10 +442,15 @@ public:
     Thread::Mutex::Lock _nclock(mutex());
     if( itsWritableRef )
       return;
+    // the array's data may start anywhere in the block, if it is a slice
+    ptrdiff_t offset = itsData.valid() ? itsArrayData - itsData->cdata() : 0;
     if( itsData.privatize() )
     {
-      itsArrayData = itsData().cdata() + itsDataOffset;
-      NumArrayFuncs::assignDataReference(itsScaType,itsArray,itsArrayData,itsShape);
+      itsArrayData = itsData().cdata() + offset;
+      if( itsStrides.size() )
+        NumArrayFuncs::assignWithStride(itsScaType,itsArray,itsArrayData,itsShape,itsStrides);
+      else
+        NumArrayFuncs::assignDataReference(itsScaType,itsArray,itsArrayData,itsShape);
     }
   }
   
@@ -522,6 +527,9 @@ private:
   // no attempt is made to COW the underlying block.
   bool       itsWritableRef;
 
+  // strides (in elements), if array is a reference to a slice, else empty
+  LoShape    itsStrides;
+
   //##ModelId=3DB949AE0370
   BlockRef    itsData;
   
-- 
2.43.0


From 06f726242a57c3fe76dc8b0759953d2e8381944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 17/41] fix: messages must initialise their flags, copy the
 forwarder, and refuse damaged headers; popping an empty block set must be
 refused

---
 DMI/src/BlockSet.h       |  2 ++
 OCTOPUSSY/src/Message.cc | 16 +++++++++++-----
 OCTOPUSSY/src/Message.h  |  2 +-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/DMI/src/BlockSet.h b/DMI/src/BlockSet.h
index ae8c8c6..7a055cc 100644
--- a/DMI/src/BlockSet.h
+++ b/DMI/src/BlockSet.h
@@ -97,6 +97,7 @@ class BlockSet
       //## Removes & returns first reference in set
       BlockRef pop ()
       {
+        FailWhen( refs.empty(),"no blocks left in set" );
         BlockRef out = refs.front();
         refs.pop_front();
         --cursize;
@@ -107,6 +108,7 @@ class BlockSet
       //## Removes & returns first reference in set via out
       void pop (BlockRef &out)
       {
+        FailWhen( refs.empty(),"no blocks left in set" );
         out.xfer(refs.front());
         refs.pop_front();
         --cursize;
diff --git a/OCTOPUSSY/src/Message.cc b/OCTOPUSSY/src/Message.cc
index b318469..0c4acad 100755
--- a/OCTOPUSSY/src/Message.cc
+++ b/OCTOPUSSY/src/Message.cc
@@ -91,13 +91,13 @@ Message::Message (const HIID &id1, const char *data, size_t sz, int pri)
 
 //##ModelId=3DB936B40140
 Message::Message (const HIID &id1, const DMI::BObj *pload, int flags, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1),payload_(pload,flags)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1),payload_(pload,flags)
 {
 }
 
 //##ModelId=3DB936B80024
 Message::Message (const HIID &id1, const SmartBlock *bl, int flags, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1),block_(bl,flags)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1),block_(bl,flags)
 {
 }
 
@@ -159,6 +159,7 @@ void Message::cloneOther (const Message &other,int flags, int depth)
   to_ = other.to_;
   state_ = other.state_;
   hops_ = other.hops_;
+  forwarder_ = other.forwarder_;
   //  timestamp_ = other.timestamp_;
 #ifdef ENABLE_LATENCY_STATS
   latency = other.latency;
@@ -174,11 +175,15 @@ int Message::fromBlock (BlockSet& set)
   // get and unpack header
   BlockRef href;
   set.pop(href);
+  // check sizes before anything in the header is relied upon
+  FailWhen(href->size() < sizeof(HeaderBlock),"corrupt header block");
   const HeaderBlock & hdr = *href->pdata<HeaderBlock>();
   int expect_blockcount = BObj::checkHeader(&hdr);
-  FailWhen(href->size() < sizeof(HeaderBlock) ||
-           href->size() != sizeof(HeaderBlock) + 
-            hdr.idsize + hdr.fromsize + hdr.tosize + hdr.latsize,"corrupt header block");
+  // (the sum is formed in 64 bits, so it can't overflow)
+  FailWhen(hdr.idsize<0 || hdr.fromsize<0 || hdr.tosize<0 || hdr.latsize<0 ||
+           href->size() != sizeof(HeaderBlock) + size_t(hdr.idsize) +
+            size_t(hdr.fromsize) + size_t(hdr.tosize) + size_t(hdr.latsize),
+           "corrupt header block");
   priority_ = hdr.priority;
   state_    = hdr.state;
   hops_     = hdr.hops;
@@ -187,6 +192,7 @@ int Message::fromBlock (BlockSet& set)
   id_.unpack(buf,hdr.idsize);     buf += hdr.idsize;
   from_.unpack(buf,hdr.fromsize); buf += hdr.fromsize;
   to_.unpack(buf,hdr.tosize);     buf += hdr.tosize;
+  FailWhen(from_.size() != 4 || to_.size() != 4,"corrupt header block");
 #ifdef ENABLE_LATENCY_STATS
   if( hdr.latsize )
     latency.unpack(buf,hdr.latsize);
diff --git a/OCTOPUSSY/src/Message.h b/OCTOPUSSY/src/Message.h
index f739aa4..a931f64 100755
--- a/OCTOPUSSY/src/Message.h
+++ b/OCTOPUSSY/src/Message.h
@@ -320,7 +320,7 @@ class Message : public DMI::BObj
 
 //##ModelId=3C7B9D0A01FB
 inline Message::Message (const HIID &id1, int pri)
-   : priority_(pri),state_(0),hops_(0),id_(id1)
+   : flags_(0),priority_(pri),state_(0),hops_(0),id_(id1)
 {
 }
 
-- 
2.43.0


From efcca26a0c45dd5ab4dea78e6db2de1f75ff8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 18/41] fix: give every recipient its own copy of a message,
 keep the scope of published messages

---
 OCTOPUSSY/src/WPInterface.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..ee83609 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -806,7 +806,7 @@ bool WPInterface::do_poll (ulong tick)
       }
     }
     else  
-      res = receive(mref);
+      res = receive(mref2);
     receive_lock = false;
   }
   lock.relock(queue_cond);
@@ -852,7 +852,7 @@ bool WPInterface::do_poll (ulong tick)
     dprintf(3)("result code: REQUEUE, requeueing\n");
     // re-insert into queue according to priority. Ask enqueue() to not
     // raise the repoll flag, since we do that explicitly just below
-    enqueue(mref,tick,ENQ_NOREPOLL);
+    enqueue(Message::Ref(mref,DMI::COW),tick,ENQ_NOREPOLL);
     if( !queue().empty() )
     {
       // this resets the age at the head of the queue. Effectively, this means
@@ -1117,10 +1117,10 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 }
 
 //##ModelId=3CBDACCC028F
-int WPInterface::publish (const HIID &id,int,int scope, int priority)
+int WPInterface::publish (const HIID &id,int flags,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,flags,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From 3dffdf244245d0d36c65e72e07513819a73f01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 19/41] fix: remove all matching timeouts and inputs, stop
 watching fired one-shot inputs, restore signal handlers

---
 OCTOPUSSY/src/Dispatcher.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..ac9bc4d 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -669,6 +669,7 @@ void Dispatcher::addSignal (WPInterface* pwp, int signum, int flags, int priorit
 //##ModelId=3C7D28F202F3
 bool Dispatcher::removeTimeout (WPInterface* pwp, const HIID &id)
 {
+  bool res = false;
   Thread::Mutex::Lock lock(tomutex);
   for( TOILI iter = timeouts.begin(); iter != timeouts.end(); )
   {
@@ -678,12 +679,12 @@ bool Dispatcher::removeTimeout (WPInterface* pwp, const HIID &id)
       if( pwp->dequeue(iter->msg->id()) )
         repoll = true;
       timeouts.erase(iter++);
-      return true;
+      res = true;
     }
     else
       iter++;
   }
-  return false;
+  return res;
 }
 
 //##ModelId=3C7D2947002F
@@ -691,8 +692,9 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
 {
   if( fd<0 )  // fd<0 means remove everything
     flags = ~0;
+  bool res = false;
   Thread::Mutex::Lock lock(inpmutex);
-  for( IILI iter = inputs.begin(); iter != inputs.end(); iter++ )
+  for( IILI iter = inputs.begin(); iter != inputs.end(); )
   {
     // is an input message sitting enqueued and still undelivered?
     // (WPInterface::poll() will reset its state to 0 when delivered)
@@ -707,13 +709,18 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
         pmsg->setState(pmsg->state()&~flags);
       }
       // clear flags of input
-      if( ( iter->flags &= ~flags ) == 0 ) // removed all modes? 
-        inputs.erase(iter);
-      rebuildInputs();
-      return true;
+      if( ( ( iter->flags &= ~flags ) & EV_FDALL ) == 0 ) // removed all modes? 
+        inputs.erase(iter++);
+      else
+        iter++;
+      res = true;
     }
+    else
+      iter++;
   }
-  return false;
+  if( res )
+    rebuildInputs();
+  return res;
 }
 
 //##ModelId=3C7DFF57025C
@@ -859,7 +866,7 @@ void Dispatcher::rebuildSignals (WPInterface *remove)
     else if( !newsig && oldsig ) // stop handling?
     {
       Assert(orig_sigaction[sig]);
-      sigaction(sig,0,orig_sigaction[sig]); // reset old handler
+      sigaction(sig,orig_sigaction[sig],0); // reset old handler
       delete orig_sigaction[sig];
       orig_sigaction[sig] = 0;
     }
@@ -917,6 +924,7 @@ bool Dispatcher::checkEvents()
   }
   if( num_active_fds>0 )
   {
+    bool inputs_removed = false;
     // iterate over all inputs
     for( IILI iter = inputs.begin(); iter != inputs.end(); )
     {
@@ -963,6 +971,7 @@ bool Dispatcher::checkEvents()
         if( iter->flags&EV_ONESHOT )
         {
           inputs.erase(iter++);
+          inputs_removed = true;
           continue;
         }
       }
@@ -970,6 +979,9 @@ bool Dispatcher::checkEvents()
     }
     // clear active fds 
     num_active_fds = 0;
+    // stop watching the fds of one-shot inputs that have fired
+    if( inputs_removed )
+      rebuildInputs();
   }
   // ------ check signal_map
   lock.release();
-- 
2.43.0


From 4a7460f71eec49ad33f390c40b51ccf2d5b7d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 20/41] fix: writable pointers to objects taken through hooks
 are private copies

---
 DMI/src/Container.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index e787c03..9393818 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -602,6 +602,9 @@ const DMI::BObj * DMI::Container::Hook::get_address_bo (ContentInfo &info,
     const DMI::BObj *ptr = static_cast<const ObjRef *>(targ)->deref_p();
     if( (*can_convert)(ptr) )
     {
+      // writable object requested: make sure it is not shared with anyone
+      if( must_write )
+        ptr = static_cast<ObjRef *>(const_cast<void*>(targ))->dewr_p();
       if( target.size > 1 && !pointer )
         ThrowExc(ConvError,"can't access array of "+target.obj_tid.toString()+"s as a scalar");
       info = target;
-- 
2.43.0


From a0d6907afa56bce83ca9e04cea6cf720babf9db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 21/41] fix: copied cells keep their segments, undefined axes
 do not add to the rank, empty cells compare equal

---
 MEQ/src/Cells.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 779809b..f83df11 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -216,6 +216,9 @@ void Cells::setAxisShape (int iaxis,int num)
 {
   Thread::Mutex::Lock lock(mutex());
   int sz = shape_.size();
+  // an undefined axis beyond the current rank does not add to the rank
+  if( !num && iaxis >= sz )
+    return;
   if( iaxis >= sz )
   {
     shape_.resize(iaxis+1);
@@ -431,9 +434,12 @@ void Cells::validateContent (bool)
         // now, the axis must be present in all other records, and shapes must match
         cell_size_[iaxis].reference(LoVec_double(const_cast<double*>(rcs[id].as_p<double>(np)),shape,blitz::neverDeleteData));
         Assert(np==shape[0]);
+        // the segment vectors have their own size
         int np1,np2;
-        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FStartIndex].as_p<int>(np1)),shape,blitz::neverDeleteData));
-        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FEndIndex].as_p<int>(np2)),shape,blitz::neverDeleteData));
+        const int * pstart = rseg[id][FStartIndex].as_p<int>(np1);
+        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(pstart),LoShape1(np1),blitz::neverDeleteData));
+        const int * pend = rseg[id][FEndIndex].as_p<int>(np2);
+        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(pend),LoShape1(np2),blitz::neverDeleteData));
         Assert(np1==np2);
       }
       protectField(FDomain);
@@ -539,7 +545,7 @@ void Cells::superset (Cells::Ref &ref,const Cells &a,const Cells &b)
 int Cells::compare (const Cells &that) const
 {
   if( !domain_.valid() ) // are we empty?
-    return !that.domain_.valid(); // equal if that is empty too, else not
+    return that.domain_.valid() ? -1 : 0; // equal if that is empty too, else not
   // check for equality of domains & shapes
   if( !that.domain_.valid() ||
       domain() != that.domain() )
-- 
2.43.0


From ccc3e3872f9857003f2bb41d598d783f51160b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 22/41] fix: arg() of real Vells read a second double behind
 the value

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..f590473 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -602,7 +602,7 @@ inline T UNARY_MINUS_impl (T x)
 
 inline double arg (const double x)
 {
-    return std::arg(*reinterpret_cast<const std::complex<double>*>(&x));
+    return std::arg(x);
 }
 #else
 
-- 
2.43.0


From b928c9fea0e3025da260b6e45398c95f5b6d6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 23/41] fix: posdiff() wrapped angles by 2/pi instead of 2*pi

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index f590473..1679814 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -1212,7 +1212,7 @@ Meq::Vells::BinaryOperPtr Meq::Vells::binfunc_polar_lut[VELLS_LUT_SIZE][VELLS_LU
 static inline double posdiff (double x,double y)
 {
   double diff = x-y;
-  return diff < -M_PI ? diff + M_2_PI : ( diff > M_PI ? diff - M_2_PI : diff );
+  return diff < -M_PI ? diff + 2*M_PI : ( diff > M_PI ? diff - 2*M_PI : diff );
 }
 defineBinaryFuncTemplate(posdiff,posdiff,);
 defineErrorFunc2(error_binary_posdiff,"posdiff() can only be applied to two real Meq::Vells");
-- 
2.43.0


From d0cfb8a57b69641b9cf58d5ee5a52f4748f9f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 24/41] fix: operator ~ on flag Vells inverted the
 uninitialised result instead of its operand

---
 MEQ/src/Vells.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 1679814..2fff35f 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -692,8 +692,9 @@ DoForAllUnaryOperators(implementUnaryOperator,);
   Meq::Vells Meq::Vells::operator OPER () const \
   { \
     Vells result(*this,VF_FLAGTYPE,"operator "#OPER); \
-    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++ ) \
-       (*ptr) = OPER (*ptr); \
+    const FT *px = begin<FT>(); \
+    for( FT *py = result.begin<FT>(); py != result.end<FT>(); px++,py++ ) \
+       (*py) = OPER (*px); \
     return result; \
   }
 
-- 
2.43.0


From 5e58045603866ccf2adace087c52361b0f49c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 25/41] fix: max() reduction of negative values returned the
 smallest positive double

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 2fff35f..a8c7210 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -844,7 +844,7 @@ inline dcomplex mkconst (int x,dcomplex *)
 defineReductionFuncTemplate(min,std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(min,"min() can only be applied to a real Meq::Vells");
 #define Do_max(y,x) y=max(x,y)
-defineReductionFuncTemplate(max,std::numeric_limits<TY>::min());
+defineReductionFuncTemplate(max,-std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(max,"max() can only be applied to a real Meq::Vells");
 
 Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_min_lut[VELLS_LUT_SIZE] =
-- 
2.43.0


From 50e09f0f80819dc60907ca824432455d2284034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 26/41] fix: sum() and product() counted points twice along
 axes where only the flags vary

---
 MEQ/src/Vells.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index a8c7210..a2e0e38 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -875,13 +875,25 @@ Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_mean_lut[VELLS_LUT_SIZE] =
 // these functions require a renormalization term, to take into account the
 // fact that a Vells constant along axis #i will only contain one
 // actual value to represent Ni points.
-// The renormalization term is (N points in full shape)/(N actual points in Vells)
+// The renormalization term is the number of points of the full shape represented
+// by each point visited by the reduction, i.e. the product of the extents along
+// those axes where neither the Vells nor (if used) its flags vary.
+static int collapsed_points (const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
+{
+  bool useflags = flagmask && x.hasDataFlags();
+  int n = 1;
+  for( uint i=0; i<shape.size(); i++ )
+    if( shape[i] > 1 && x.extent(i) == 1 && !( useflags && x.dataFlags().extent(i) > 1 ) )
+      n *= shape[i];
+  return n;
+}
+
 template<class TY,class TX>
 static void implement_sum (Meq::Vells &y,const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
 {
   int nel;
   TY y0 = implement_sum_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = collapsed_points(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = y0 * mkconst(renorm,&y0);
 }
 
@@ -892,7 +904,7 @@ static void implement_product (Meq::Vells &y,const Meq::Vells &x,const Meq::Vell
 {
   int nel;
   TY y0 = implement_product_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = collapsed_points(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = pow(y0,renorm);
 }
 
-- 
2.43.0


From 32876553187b4106fff953bdede91c8ec090dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 27/41] fix: VellSet::addFail keeps the fails that were added
 before

clear() wiped the record, fail list included, before the new fail was added.
---
 MEQ/src/VellSet.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index b22f9d7..264ddcf 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -589,17 +589,12 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
 void VellSet::addFail (const ObjRef &ref)
 {
   Thread::Mutex::Lock lock(mutex());
+  // clear out the DR, but keep any fails that were added previously
+  ObjRef oldfails = Record::removeField(FFail,true,0);
   clear();
+  if( oldfails.valid() )
+    Record::addField(FFail,oldfails,0);
   is_fail_ = true;
-  // clear out the DR
-  Record::removeField(FValue,true,0);
-  Record::removeField(FSpids,true,0);
-  Record::removeField(FShape,true,0);
-  for( int i=0; i<2; i++ )
-  {
-    Record::removeField(FiPerturbations(i),true,0);
-    Record::removeField(FiPerturbations(i),true,0);
-  }
   // plist!=0 if fail is a list (otherwise treat it as a single fail-record)
   const DMI::List *plist = dynamic_cast<const DMI::List *>(ref.deref_p());
   // do we have a fail field already?
-- 
2.43.0


From 8872ef54bd74affa37043dadf04a35c8bdac7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 28/41] fix: VellSet::clearDataFlags on a vellset without
 perturbed values

pertval_vec is null when there are no spids.
---
 MEQ/src/VellSet.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 264ddcf..6f6ba79 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -529,6 +529,8 @@ void VellSet::clearDataFlags ()
   // clear flags in all values
   if( pvalue_ && pvalue_->deref().hasDataFlags() )
     pvalue_->dewr().clearDataFlags();
+  if( !numSpids() )   // no perturbed values in that case
+    return;
   for( int iset=0; iset<numPertSets(); iset++ )
   {
     const DMI::Vec * pvec = pset_[iset].pertval_vec->deref_p();
-- 
2.43.0


From 721f88240d4b1d7b26fc3235b3be97c7818744ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 29/41] fix: VellSet::verifyShape(reset) replaces the old shape

setShape() refuses to change a non-empty shape, so a narrower one threw.
---
 MEQ/src/VellSet.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 6f6ba79..f2b7118 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -172,7 +172,12 @@ void VellSet::verifyShape (bool reset)
       adjusted |= adjustShape(shp,getPerturbedValue(i,iset));
   // set new shape if needed
   if( adjusted )
+  {
+    // on reset, the recomputed shape replaces the old one
+    if( reset )
+      shape_.clear();
     setShape(shp);
+  }
 }
 
 bool VellSet::adjustShape (LoShape &shp,const Vells &vells)
-- 
2.43.0


From 5c16722786900737b35d0f92c53b5e5074c432de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 30/41] fix: VellSet copies do not share shortcuts with the
 original

The implicit copy constructor and assignment copied raw pointers into the
other object's record; the Record constructor, clear() and validation of a
fail left some of them unset.
---
 MEQ/src/VellSet.cc | 31 +++++++++++++++++++++++++++++++
 MEQ/src/VellSet.h  |  4 ++++
 2 files changed, 35 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index f2b7118..9547083 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -107,6 +107,9 @@ void VellSet::init ()
 //##ModelId=400E53550322
 VellSet::VellSet (const DMI::Record &other,int flags,int depth)
 : Record(),
+  pvalue_       (0),
+  pflags_       (0),
+  pweights_     (0),
   default_pert_ (0.),
   pset_         (0),
   spids_        (0),
@@ -119,6 +122,27 @@ VellSet::VellSet (const DMI::Record &other,int flags,int depth)
   Record::cloneOther(other,flags,depth,true);
 }
 
+// a memberwise copy would share shortcuts with (the fields of) the other object
+VellSet::VellSet (const VellSet &other,int flags,int depth)
+: Record(),
+  pvalue_       (0),
+  pflags_       (0),
+  pweights_     (0),
+  default_pert_ (other.default_pert_),
+  pset_         (0),
+  spids_        (0),
+  numspids_     (0),
+  is_fail_      (false)
+{
+  Record::cloneOther(other,flags,depth,true);
+}
+
+VellSet & VellSet::operator = (const VellSet &other)
+{
+  Record::operator = (other); // this calls validateContent()
+  return *this;
+}
+
 //##ModelId=400E53550329
 VellSet::~VellSet()
 {
@@ -234,6 +258,12 @@ void VellSet::validateContent (bool)
     if( Record::hasField(FFail) ) // a fail result
     {
       is_fail_ = true;
+      // which contains nothing else
+      shape_.clear();
+      numspids_ = 0;
+      spids_ = 0;
+      pset_.clear();
+      pvalue_ = pflags_ = pweights_ = 0;
     }
     else
     {
@@ -384,6 +414,7 @@ void VellSet::clear()
   pset_.clear();
   pvalue_ = 0;
   pflags_ = 0;
+  pweights_ = 0;
   is_fail_ = false;
 }
 
diff --git a/MEQ/src/VellSet.h b/MEQ/src/VellSet.h
index ab017bb..2622602 100644
--- a/MEQ/src/VellSet.h
+++ b/MEQ/src/VellSet.h
@@ -62,6 +62,10 @@ public:
     //##ModelId=400E53550322
   VellSet (const DMI::Record &other,int flags=0,int depth=0);
 
+  // Copy constructor and assignment (by-reference copies of the contents)
+  VellSet (const VellSet &other,int flags=0,int depth=0);
+  VellSet & operator = (const VellSet &other);
+
   // destructor
     //##ModelId=400E53550329
   ~VellSet();
-- 
2.43.0


From da4adb71a8abc9e1b66dd9404aab07b8dc268037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 31/41] fix: Result::allocateVellSets(Dims) stores dims only
 when non-trivial

A single vellset with dims like (1,1) was scalar in the original, but had
rank 2 in a copy.
---
 MEQ/src/Result.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Result.cc b/MEQ/src/Result.cc
index 7a9d970..1bbbbb3 100644
--- a/MEQ/src/Result.cc
+++ b/MEQ/src/Result.cc
@@ -234,7 +234,7 @@ int Result::allocateVellSets (const Dims &dims)
   else
     dims_ = dims;
   // if dims are non-trivial, store them in record
-  if( dims.size() > 1 )
+  if( dims_.size() > 1 )
   {
     ref <<= new DMI::Vec(Tpint,dims.size(),&(dims[0]));
     Record::addField(FDims,ref,DMI::REPLACE|Record::PROTECT);
-- 
2.43.0


From 8e8faa0b05a06fec72c6a9d88a2327ba7b158de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 32/41] fix: Result copies do not share shortcuts with the
 original

---
 MEQ/src/Result.cc | 14 ++++++++++++++
 MEQ/src/Result.h  |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/MEQ/src/Result.cc b/MEQ/src/Result.cc
index 1bbbbb3..023790a 100644
--- a/MEQ/src/Result.cc
+++ b/MEQ/src/Result.cc
@@ -54,6 +54,20 @@ Result::Result (const DMI::Record &other,int flags,int depth)
   Record::cloneOther(other,flags,depth,true);
 }
 
+// a memberwise copy would share shortcuts with (the fields of) the other object
+Result::Result (const Result &other,int flags,int depth)
+: Record(),
+  pvellsets_(0),pcells_(0)
+{
+  Record::cloneOther(other,flags,depth,true);
+}
+
+Result & Result::operator = (const Result &other)
+{
+  Record::operator = (other); // this calls validateContent()
+  return *this;
+}
+
 //##ModelId=3F86887000D3
 Result::~Result()
 {
diff --git a/MEQ/src/Result.h b/MEQ/src/Result.h
index 40a0c2b..f48f32a 100644
--- a/MEQ/src/Result.h
+++ b/MEQ/src/Result.h
@@ -66,6 +66,10 @@ public:
     //##ModelId=400E53550116
   Result (const DMI::Record &other,int flags=0,int depth=0);
 
+  // Copy constructor and assignment (by-reference copies of the contents)
+  Result (const Result &other,int flags=0,int depth=0);
+  Result & operator = (const Result &other);
+
     //##ModelId=3F86887000D3
   ~Result();
 
-- 
2.43.0


From 8c84a9483062529ef022bfc4b7eddf7479a389dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:07 +0000
Subject: [PATCH 33/41] fix: Forest lookups read past the end of the repository

An index equal to the repository size passed the range check.
---
 MEQ/src/Forest.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 713888a..71a2ce3 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -196,7 +196,7 @@ void Forest::initAll ()
 //##ModelId=3F5F5CA300E0
 int Forest::remove (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -220,7 +220,7 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -249,7 +249,7 @@ NodeFace & Forest::findNode (const string &name)
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
   int node_index = iter->second;
   // debug-fails here since name map should be consistent with repository
-  DbgFailWhen(node_index<=0 || node_index>int(nodes.size()),"invalid node index");
+  DbgFailWhen(node_index<=0 || node_index>=int(nodes.size()),"invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   DbgFailWhen(!ref.valid(),"invalid node index");
   return ref();
@@ -258,7 +258,7 @@ NodeFace & Forest::findNode (const string &name)
 //##ModelId=3F7048570004
 const NodeFace::Ref & Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   return nodes[node_index];
 }
-- 
2.43.0


From 7b8da4b355f34a51988bd954c37608203eba9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:33 +0000
Subject: [PATCH 34/41] fix: Function::getResult reported failed planes as
 missing data

Failed child vellsets were counted as missing, so a result in which every
plane is a fail was returned as RES_MISSING and the fails were dropped.
---
 MEQ/src/Function.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..7971e5d 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -197,7 +197,8 @@ int Function::getResult (Result::Ref &resref,
     // Otherwise, we have a case of some values present, and some missing. This is only supported by some node classes:
     // these will have called allowMissingData() in their constructor. If this is not supported, then we return no
     // data as well.
-    if( nmissing )
+    // (a fail of some child takes precedence, and is handled below)
+    if( nmissing && !vellset.isFail() )
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-- 
2.43.0


From 7e6ee615def32bc78a23a94bb012424883ea85bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:11 +0000
Subject: [PATCH 35/41] fix: Function::getResult read perturbed values a child
 does not have

With children of different numbers of perturbation sets the loop ran over
the largest number for every child.
---
 MEQ/src/Function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 7971e5d..1720313 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -251,7 +251,7 @@ int Function::getResult (Result::Ref &resref,
             int inx = vs.isDefined(spids[j],indices[ich]);
             if( inx >= 0 )
             {
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
 //                childpvv_lock[ipert][ich].relock(pvv.mutex());
-- 
2.43.0


From 806d81706bb1da0947727927066ca3b7409c0679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:44 +0000
Subject: [PATCH 36/41] fix: a refused child_poll_order left children polled
 twice or not at all

---
 MEQ/src/NodeNursery.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..59f890b 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -117,6 +117,7 @@ void NodeNursery::enableMultiThreaded (bool enable)
 void NodeNursery::setChildPollOrder (const std::vector<string> &order)
 {
   std::vector<bool> specified(numChildren(),false);
+  std::vector<int> poll_order(numChildren());
   int nord = 0;
   FailWhen(order.size()>uint(numChildren()),"child_poll_order: too many elements");
   for( uint i=0; i<order.size(); i++ )
@@ -129,7 +130,7 @@ void NodeNursery::setChildPollOrder (const std::vector<string> &order)
       {
         FailWhen(specified[ich],"child_poll_order: duplicate child \""+child_name+"\"");
         specified[ich] = true;
-        child_poll_order_[nord++] = ich;
+        poll_order[nord++] = ich;
         break;
       }
     }
@@ -140,9 +141,11 @@ void NodeNursery::setChildPollOrder (const std::vector<string> &order)
   {
     for( int ich=0; ich<numChildren(); ich++ )
       if( !specified[ich] )
-        child_poll_order_[nord++] = ich;
+        poll_order[nord++] = ich;
   }
   Assert(nord == numChildren());
+  // only change the order once we know it is valid
+  child_poll_order_ = poll_order;
 }
 
 void NodeNursery::setFailPolicy (AtomicID policy)
-- 
2.43.0


From eed694db1936cbe837b63a0150e6a8de0f1c1c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:44 +0000
Subject: [PATCH 37/41] fix: a fail while processing a rider was cached for all
 later requests

---
 MEQ/src/Node.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..ebbedcc 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1003,6 +1003,9 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
       {
         setExecState(CS_ES_COMMAND);
         stage = "processing rider";
+        // if this throws an exception, the fail depends on everything in the
+        // request, and must not be reused for other requests
+        retcode = (1<<RQIDM_NBITS)-1;
         retcode = processRequestRider(ref,req);
       }
     } // endif( new_request_ )
-- 
2.43.0


From 267f9bc189bdd1ffc43f57a258375e535cee63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:36 +0000
Subject: [PATCH 38/41] fix: stepchildren were polled or not by the wrong
 policy when data is missing

---
 MEQ/src/Node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index ebbedcc..5849609 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -906,7 +906,7 @@ int Node::pollChildren (Result::Ref &resref,
   // if aborted, return without polling stepchildren
   if( retcode&RES_ABORT ||
       ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate ) ||
-      ( retcode&RES_MISSING && children().failPolicy() == AidAbandonPropagate ) )
+      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )
   {
     timers().children.stop();
     return retcode;
-- 
2.43.0


From 177edbded11e64c27c9af945a182b1d7ff505ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 39/41] fix: Rider::getCmdRec_ByList returned the by-nodeindex
 commands

---
 MEQ/src/Rider.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Rider.cc b/MEQ/src/Rider.cc
index 18ace63..24a37a1 100644
--- a/MEQ/src/Rider.cc
+++ b/MEQ/src/Rider.cc
@@ -110,7 +110,7 @@ DMI::Vec & Rider::getCmdRec_ByList (Request::Ref &reqref,const HIID &group,int f
 {
   // get or insert Rider subrecord
   DMI::Record &cmdrec = getGroupRec(reqref,group,flags);
-  return getOrInsert(cmdrec,FCommandByNodeIndex,Type2Type<DMI::Vec>(),flags&NEW_ALL);
+  return getOrInsert(cmdrec,FCommandByList,Type2Type<DMI::Vec>(),flags&NEW_ALL);
 }
     
 } // namespace Meq
-- 
2.43.0


From ccf40fbcce01fc14e3412e227e9f513729b658ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 40/41] fix: Request copies do not share shortcuts with the
 original

---
 MEQ/src/Request.cc | 14 ++++++++++++++
 MEQ/src/Request.h  |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/MEQ/src/Request.cc b/MEQ/src/Request.cc
index 5626d98..890ef49 100644
--- a/MEQ/src/Request.cc
+++ b/MEQ/src/Request.cc
@@ -43,6 +43,20 @@ Request::Request (const DMI::Record &other,int flags,int depth)
   Record::cloneOther(other,flags,depth,true);
 }
 
+// a memberwise copy would share shortcuts with (the fields of) the other object
+Request::Request (const Request &other,int flags,int depth)
+: Record(),
+  pcells_(0),prider_(0)
+{
+  Record::cloneOther(other,flags,depth,true);
+}
+
+Request & Request::operator = (const Request &other)
+{
+  Record::operator = (other); // this calls validateContent()
+  return *this;
+}
+
 //##ModelId=400E535403DD
 Request::Request (const Cells& cells,const HIID &id,int cellflags)
 : prider_(0)
diff --git a/MEQ/src/Request.h b/MEQ/src/Request.h
index 1b9b9c3..18cb045 100644
--- a/MEQ/src/Request.h
+++ b/MEQ/src/Request.h
@@ -104,6 +104,10 @@ public:
   //##Documentation
   //## Construct from DMI::Record 
   Request (const DMI::Record &other,int flags=0,int depth=0);
+
+  // Copy constructor and assignment (by-reference copies of the contents)
+  Request (const Request &other,int flags=0,int depth=0);
+  Request & operator = (const Request &other);
   
     //##ModelId=400E535403DD
   //##Documentation
-- 
2.43.0


From 5d9bdd170bd2eeee0ee62cc57575d396cffe06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:57 +0000
Subject: [PATCH 41/41] fix: Rider functions could not change a rider once it
 had been validated

---
 MEQ/src/Request.cc | 7 +++++++
 MEQ/src/Request.h  | 4 ++++
 MEQ/src/Rider.cc   | 4 +++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Request.cc b/MEQ/src/Request.cc
index 890ef49..04b24bc 100644
--- a/MEQ/src/Request.cc
+++ b/MEQ/src/Request.cc
@@ -148,6 +148,13 @@ void Request::validateRider ()
     prider_ = 0;
 }
 
+void Request::unprotectRider ()
+{
+  Field * prf = findField(FRider);
+  if( prf )
+    prf->protect(false);
+}
+
 void Request::clearRider ()
 {
   Thread::Mutex::Lock lock(mutex());
diff --git a/MEQ/src/Request.h b/MEQ/src/Request.h
index 18cb045..1209e4c 100644
--- a/MEQ/src/Request.h
+++ b/MEQ/src/Request.h
@@ -211,6 +211,10 @@ public:
   //## re-checks elf_ for a rider record, sets the has_rider_ flag.
   //## should be called after an app has changed the rider
   void validateRider ();
+
+  //##Documentation
+  //## allows the rider field to be changed, until validateRider() is called
+  void unprotectRider ();
   
 private: 
   Record::protectField;  
diff --git a/MEQ/src/Rider.cc b/MEQ/src/Rider.cc
index 24a37a1..d1cf9bd 100644
--- a/MEQ/src/Rider.cc
+++ b/MEQ/src/Rider.cc
@@ -59,11 +59,13 @@ void Rider::clear (Request::Ref &reqref)
 {
   DMI::Record::Hook rhook(reqref,FRider);
   if( rhook.exists() )
-    rhook.remove();
+    reqref().clearRider();
 }
 
 DMI::Record & Rider::getRider (Request::Ref &reqref,int flags)
 {
+  // the field is protected once validated
+  reqref().unprotectRider();
   return getOrInsert(reqref,FRider,Type2Type<DMI::Record>(),flags&NEW_RIDER);
 }
 
-- 
2.43.0

