From 5fbe68b8a2d013ea3394e0ea01261bd4ea7c7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 001/113] fix: IGES_ENTITY::delReference never advanced its
 iterator over the optional entities

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..76c828d 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -451,7 +451,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From a9fbf7e3c249608558d1d619bd3aac9b8d6f74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 002/113] fix: IGES_ENTITY_124::unlink ignored optional
 entities

---
 src/entities/entity124.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..bec707d 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -234,21 +234,13 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return false;
     }
 
-    if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
-    {
-        ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
-        cerr << aChildEntity->GetEntityType() << ")\n";
+    if( !IGES_ENTITY::unlink( aChildEntity ) )
         return false;
-    }
 
-    if( aChildEntity == pTransform )
-    {
-        pTransform = NULL;
+    if( !pTransform )
         transform = 0;
-        return true;
-    }
 
-    return false;
+    return true;
 }
 
 
-- 
2.43.0


From 80ff9c1ae814b2e72e347b1b0d90d8d89fa19fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 003/113] fix: IGES_ENTITY_504::unlink called back the vertex
 list being destroyed

---
 src/entities/entity504.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..6c3bd7c 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -787,7 +787,10 @@ bool IGES_ENTITY_504::delVertexList( IGES_ENTITY_502* aVertexList, bool aFlagAll
 
             if( aFlagAll || 0 == sV->second )
             {
-                sV->first->delReference(this);
+                // aFlagAll: the vertex list is being destroyed and must not be called back
+                if( !aFlagAll )
+                    sV->first->delReference(this);
+
                 vertices.erase( sV );
             }
 
-- 
2.43.0


From c836c57c47e4f26eb2e98e92d91adea20d0348e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 004/113] fix: IGES_ENTITY_144::DelPTI left a stale parent
 reference in the removed curve

---
 src/entities/entity144.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..ffb4168 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -875,6 +875,7 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
         if( aPtr == *bref )
         {
             PTI.erase( bref );
+            aPtr->delReference( this );
             N2 = (int)PTI.size();
             return true;
         }
-- 
2.43.0


From 640483215abca402759a2dc1aca64539721516d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 005/113] fix: IGES_ENTITY_308::DelDE left a stale parent
 reference in the removed entity

---
 src/entities/entity308.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..f715d98 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -599,6 +599,7 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
         if( aPtr == *bref )
         {
             DE.erase( bref );
+            aPtr->delReference( this );
             N = (int)DE.size();
             return true;
         }
-- 
2.43.0


From 10c6a8ef23a9054731f7dad03be7bf6360517411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 006/113] fix: IGES_ENTITY::DelOptionalEntity never removed the
 parent reference from the optional entity

---
 src/entities/iges_entity.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 76c828d..fb6148c 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2909,16 +2909,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
 
     int eType = aEntity->GetEntityType();
 
-    if( eType != 402 && eType != 212 && eType != 312 )
+    if( eType != 402 && eType != 406 && eType != 212 && eType != 312 )
     {
         ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
+        cerr << "); only types 402, 406, 212, and 312 are valid.\n";
         return false;
     }
 
@@ -2930,13 +2924,18 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         if( *sL == aEntity )
         {
             extras.erase( sL );
+
+            // note: Type 402 is a 'back-pointer' and holds no reference to this entity
+            if( eType != 402 )
+                aEntity->delReference( this );
+
             return true;
         }
 
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] no such entity in the list of optional entities\n";
     return false;
 }
 
-- 
2.43.0


From 523a172ae3211f064ddc0d468ff85522f2c11095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 007/113] fix: IGES_ENTITY_122::SetDE dereferenced a NULL curve

---
 src/entities/entity122.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..8fc5e47 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -403,6 +403,9 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         DE = NULL;
     }
 
+    if( NULL == aPtr )
+        return true;
+
     bool dup = false;
 
     if( !aPtr->addReference(this, dup) )
-- 
2.43.0


From a52822dece4e1b2a5fe1a826dde6e908a54df2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 008/113] fix: IGES_ENTITY_180::unlink left stale parent
 references in the other operands

---
 src/entities/entity180.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..3757893 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -313,6 +313,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,7 +322,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
     return true;
 }
-- 
2.43.0


From 5aac3b102147f5805a61c0ca68b4f8a0e8fa0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 009/113] fix: IGES_ENTITY_510::AddBound did not register
 itself as parent of the loop

---
 src/entities/entity510.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..4b22137 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -546,10 +546,21 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     if( NULL == aLoop )
         return false;
 
-    // XXX - TO BE IMPLEMENTED:
-    // we may require refcounts for the bound though in principle
-    // it should not be necessary to use a boundary more than
-    // once
+    // a boundary may not be used more than once
+    bool dup = false;
+
+    if( !aLoop->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
-- 
2.43.0


From 6b10cb1831e78dcb58f1b437075df6ea533892c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 010/113] fix: IGES_ENTITY_510::SetSurface did not register
 itself as parent of the surface

---
 src/entities/entity510.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 4b22137..de1a1a5 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -575,6 +575,26 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( msurface == aSurface )
+        return true;
+
+    bool dup = false;
+
+    if( !aSurface->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG]: adding duplicate entry\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference( this );
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From c8d07b16ce842b439c9aab68cec08e38f788aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 011/113] fix: IGES_ENTITY_508 removal of edges and parameter
 curves corrupted its lists and left stale references

---
 src/entities/entity508.cpp | 145 ++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 74 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..c47c348 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -100,7 +100,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
         while( sP != eP )
         {
-            (*sP)->curve->unlink(this);
+            (*sP)->curve->delReference(this);
             delete *sP;
             ++sP;
         }
@@ -117,7 +117,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
@@ -748,59 +748,51 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
-    {
-        IGES_ENTITY* ep = sE->first;
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
+
+    if( sE == eE )
+        return false;
+
+    if( !aFlagAll && --sE->second > 0 )
+        return true;
 
-        if( aEdge == ep )
+    redges.erase( sE );
+
+    // aFlagUnlink: the entity is being destroyed and must not be called back
+    if( !aFlagUnlink )
+        aEdge->delReference(this);
+
+    vector< LOOP_DATA* >::iterator sF = edges.begin();
+
+    while( sF != edges.end() )
+    {
+        if( (*sF)->data != aEdge )
         {
-            ok = true;
+            ++sF;
+            continue;
+        }
 
-            if( !aFlagUnlink )
-                ep->delReference(this);
+        LOOP_DATA* ld = *sF;
+        sF = edges.erase( sF );
 
-            if( aFlagAll || (--sE->second == 0) )
-            {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
-
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
-
-                    ++sF;
-                }
-
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+        vector< LOOP_PAIR* >::iterator sP = ld->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = ld->pcurves.end();
 
-        ++sE;
-    }   // searched list of entities
+        while( sP != eP )
+        {
+            (*sP)->curve->delReference(this);
+            delete *sP;
+            ++sP;
+        }
 
-    return ok;
+        delete ld;
+    }
+
+    return true;
 }
 
 
@@ -858,39 +850,43 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 
     while( sF != eF )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
-        while( sP != eP )
+        while( sP != eP && (*sP)->curve != aCurve )
+            ++sP;
+
+        if( sP == eP )
         {
-            if( (*sP)->curve == aCurve )
+            ++sF;
+            continue;
+        }
+
+        LOOP_DATA* ld = *sF;
+
+        // aFlagUnlink: the curve is being destroyed and must not be called back
+        if( !aFlagUnlink )
+            aCurve->delReference(this);
+
+        delete *sP;
+        ld->pcurves.erase( sP );
+
+        if( aFlagDelEdge )
+        {
+            edges.erase( sF );
+
+            for( sP = ld->pcurves.begin(); sP != ld->pcurves.end(); ++sP )
             {
-                if( aFlagDelEdge )
-                {
-                    while( !(*sF)->pcurves.empty() )
-                    {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
-                    }
-
-                    delEdge( (*sF)->data, false, false );
-                }
-                else
-                {
-                    if( !aFlagUnlink )
-                        (*sP)->curve->delReference(this);
-
-                    delete *sP;
-                    (*sF)->pcurves.pop_back();
-                }
-
-                return true;
+                (*sP)->curve->delReference(this);
+                delete *sP;
             }
 
-            ++sP;
+            IGES_ENTITY* edge = ld->data;
+            delete ld;
+            delEdge( edge, false, false );
         }
 
-        ++sF;
+        return true;
     }
 
     return false;
@@ -933,13 +929,14 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
     {
         if( !addPCurve( (*sP)->curve ) )
         {
+            // release the PS curves added so far and the edge
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
-- 
2.43.0


From 8efb4ce9d03b3229e336ae400dbaa90616c4d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 012/113] fix: IGES_ENTITY_NULL::unlink kept references to
 entities being destroyed

---
 src/entities/entityNULL.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index c8a4026..4b11881 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -182,8 +182,9 @@ bool IGES_ENTITY_NULL::associate(std::vector<IGES_ENTITY *> *entities)
 
 bool IGES_ENTITY_NULL::unlink(IGES_ENTITY *aChild)
 {
-    // there are no properly established links so in
-    // effect this routine always succeeds
+    // only the links managed by the base class (directory entry
+    // items and optional entities) can have been established
+    IGES_ENTITY::unlink(aChild);
     return true;
 }
 
-- 
2.43.0


From 3c5bc1ea037dbd7d0227082b14113c59aa1a7358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 013/113] fix: API handles check that the object exists in
 property name, board curve and wall functions

---
 src/dllapi/dll_entity406.cpp     | 6 ++++++
 src/dllapi/dll_iges_geom_pcb.cpp | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..a630981 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -95,6 +95,9 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     const char *result = NULL;
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
@@ -110,6 +113,9 @@ const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 
 bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     bool result = false;
 
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..293b24f 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From ae0b579c52903521c7c6ad1f8eed65445a4b6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 014/113] fix: DLL_IGES::NewAPIEntity adds one entity to the
 model and removes it from the model on failure

---
 src/dllapi/dll_iges.cpp | 52 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..5c85a70 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,103 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
-- 
2.43.0


From c1df0d030724cf4e4a9dc986d1197a759e677ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 015/113] fix: NewEntity refuses a null argument, NewIGESEntity
 passes its argument on

---
 src/dllapi/dll_iges.cpp | 1 -
 src/iges/iges.cpp       | 6 ++++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 5c85a70..b05e59e 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -364,7 +364,6 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..a788abc 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -824,6 +824,12 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 // create an entity of the given type
 bool IGES::NewEntity( int aEntityType, IGES_ENTITY** aEntityPointer )
 {
+    if( !aEntityPointer )
+    {
+        ERRMSG << "\n + [BUG] NewEntity() invoked with NULL argument\n";
+        return false;
+    }
+
     IGES_ENTITY* ep = NULL;
     *aEntityPointer = NULL;
 
-- 
2.43.0


From c9e37967b85eeaed68c755bba2eeae94662bec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 016/113] fix: scale the conic coefficients so that the conic
 keeps its shape

---
 src/entities/entity104.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..33210ef 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // A x^2 + B xy + C y^2 + D x + E y + F = 0 must hold for the scaled points
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From 3a6ddc3e489410798fb4d64f9b3ba97e0585a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 017/113] fix: scale the plane distance and display symbol of a
 plane entity

---
 src/entities/entity108.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 87d9841..aca9568 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -302,7 +302,13 @@ bool IGES_ENTITY_108::format( int &index )
 
 bool IGES_ENTITY_108::rescale( double sf )
 {
-    // there is nothing to scale
+    // the unit normal (A,B,C) is unchanged; the distance and the display symbol are lengths
+    D *= sf;
+    X *= sf;
+    Y *= sf;
+    Z *= sf;
+    Size *= sf;
+
     return true;
 }
 
-- 
2.43.0


From 98a4c63fbdac7ca41e936d3c4c4b2141dc824775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 018/113] fix: a placeholder entity must not stop the rescaling
 of a model half way

---
 src/entities/entityNULL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index 4b11881..4d7a98d 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -416,6 +416,6 @@ bool IGES_ENTITY_NULL::SetHierarchy(IGES_STAT_HIER aHierarchy)
 
 bool IGES_ENTITY_NULL::rescale( double sf )
 {
-    ERRMSG << "\n + [BUG] invoking function in NULL Entity\n";
-    return false;
+    // a placeholder has no parameters, hence there is nothing to scale
+    return true;
 }
-- 
2.43.0


From abd3f9ea131b56922d8f6fd1b998bf5d8b9ba46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 019/113] fix: scale the minimum resolution of a model by the
 change of its scale

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a788abc..18bf5f0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1848,7 +1848,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From 4fe52d75d592eb0ed0410dd1e50e20fd93b0cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 020/113] fix: initialise the bounding curve and symbol size of
 a plane entity

---
 src/entities/entity108.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index aca9568..07e2bc6 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -52,11 +52,13 @@ IGES_ENTITY_108::IGES_ENTITY_108( IGES* aParent ) : IGES_ENTITY( aParent )
 
     /* default no bounding curve */
     iPtr = 0;
+    PTR = NULL;
 
     /* default symbol location and size */
     X = 0.0;
     Y = 0.0;
     Z = 0.0;
+    Size = 0.0;
     return;
 }
 
-- 
2.43.0


From 6847ef78bc71fb2b9643074e68979e0fa4dc6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 021/113] fix: a refused line font, level, view, transform,
 label or colour leaves the entity unchanged

---
 src/entities/iges_entity.cpp | 160 +++++++++++++++++++++++------------
 1 file changed, 107 insertions(+), 53 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index fb6148c..4a1eb8c 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1958,12 +1958,6 @@ bool IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY** aPattern)
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 {
-    if( pLineFontPattern )
-    {
-        pLineFontPattern->delReference(this);
-        pLineFontPattern = NULL;
-    }
-
     if( aPattern < LINEFONT_NONE || aPattern >= LINEFONT_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid linefont pattern (";
@@ -1971,6 +1965,12 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
         return false;
     }
 
+    if( pLineFontPattern )
+    {
+        pLineFontPattern->delReference(this);
+        pLineFontPattern = NULL;
+    }
+
     lineFontPattern = aPattern;
     return true;
 }
@@ -1978,16 +1978,21 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_LINEFONT_PATTERN aPattern )
 
 bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
 {
-    lineFontPattern = 0;
-
-    if( pLineFontPattern )
+    if( aPattern == pLineFontPattern )
     {
-        pLineFontPattern->delReference(this);
-        pLineFontPattern = NULL;
+        if( !aPattern )
+            lineFontPattern = 0;
+
+        return true;
     }
 
     if( !aPattern )
+    {
+        pLineFontPattern->delReference(this);
+        pLineFontPattern = NULL;
+        lineFontPattern = 0;
         return true;
+    }
 
     int tEnt = aPattern->GetEntityType();
 
@@ -2014,7 +2019,11 @@ bool IGES_ENTITY::SetLineFontPattern( IGES_ENTITY* aPattern )
         return false;
     }
 
+    if( pLineFontPattern )
+        pLineFontPattern->delReference(this);
+
     pLineFontPattern = aPattern;
+    lineFontPattern = 0;
 
 
     if( NULL != parent && parent != aPattern->parent )
@@ -2060,12 +2069,6 @@ bool IGES_ENTITY::GetLevelEntity(IGES_ENTITY** aLevel)
 
 bool IGES_ENTITY::SetLevel( int aLevel )
 {
-    if( pLevel )
-    {
-        pLevel->delReference(this);
-        pLevel = NULL;
-    }
-
     if( aLevel < 0 )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid level (< 0) in entity type #";
@@ -2073,6 +2076,12 @@ bool IGES_ENTITY::SetLevel( int aLevel )
         return false;
     }
 
+    if( pLevel )
+    {
+        pLevel->delReference(this);
+        pLevel = NULL;
+    }
+
     level = aLevel;
     return true;
 }
@@ -2080,16 +2089,21 @@ bool IGES_ENTITY::SetLevel( int aLevel )
 
 bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
 {
-    level = 0;
-
-    if( pLevel )
+    if( aLevel == pLevel )
     {
-        pLevel->delReference(this);
-        pLevel = NULL;
+        if( !aLevel )
+            level = 0;
+
+        return true;
     }
 
     if( !aLevel )
+    {
+        pLevel->delReference(this);
+        pLevel = NULL;
+        level = 0;
         return true;
+    }
 
     int tEnt = aLevel->GetEntityType();
     int tFrm = aLevel->GetEntityForm();
@@ -2117,7 +2131,11 @@ bool IGES_ENTITY::SetLevel( IGES_ENTITY* aLevel )
         return false;
     }
 
+    if( pLevel )
+        pLevel->delReference(this);
+
     pLevel = aLevel;
+    level = 0;
 
     if( NULL != parent && parent != aLevel->parent )
         parent->AddEntity( aLevel );
@@ -2142,16 +2160,21 @@ bool IGES_ENTITY::GetView(IGES_ENTITY** aView)
 
 bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
 {
-    view = 0;
-
-    if( pView )
+    if( aView == pView )
     {
-        pView->delReference(this);
-        pView = NULL;
+        if( !aView )
+            view = 0;
+
+        return true;
     }
 
     if( !aView )
+    {
+        pView->delReference(this);
+        pView = NULL;
+        view = 0;
         return true;
+    }
 
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
@@ -2179,7 +2202,11 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
         return false;
     }
 
+    if( pView )
+        pView->delReference(this);
+
     pView = aView;
+    view = 0;
 
     if( NULL != parent && parent != aView->parent )
         parent->AddEntity( aView );
@@ -2204,16 +2231,21 @@ bool IGES_ENTITY::GetTransform(IGES_ENTITY** aTransform)
 
 bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 {
-    transform = 0;
-
-    if( pTransform )
+    if( aTransform == pTransform )
     {
-        pTransform->delReference(this);
-        pTransform = NULL;
+        if( !aTransform )
+            transform = 0;
+
+        return true;
     }
 
     if( !aTransform )
+    {
+        pTransform->delReference(this);
+        pTransform = NULL;
+        transform = 0;
         return true;
+    }
 
     int tEnt = aTransform->GetEntityType();
 
@@ -2226,9 +2258,9 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
         return false;
     }
 
-    pTransform = dynamic_cast<IGES_ENTITY_124*>(aTransform);
+    IGES_ENTITY_124* tp = dynamic_cast<IGES_ENTITY_124*>(aTransform);
 
-    if( !pTransform )
+    if( !tp )
     {
         ERRMSG << "\n + [BUG] could not cast IGES_ENTITY* to IGES_ENTITY_124*\n";
         return false;
@@ -2236,9 +2268,8 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
     bool dup = false;
 
-    if( !pTransform->addReference(this, dup) )
+    if( !tp->addReference(this, dup) )
     {
-        pTransform = NULL;
         ERRMSG << "\n + [BUG] could not add reference to child entity\n";
         return false;
     }
@@ -2246,10 +2277,15 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
     if( dup )
     {
         ERRMSG << "\n + [CORRUPT FILE]: duplicate entity added\n";
-        pTransform = NULL;
         return false;
     }
 
+    if( pTransform )
+        pTransform->delReference(this);
+
+    pTransform = tp;
+    transform = 0;
+
     if( NULL != parent && parent != aTransform->parent )
         parent->AddEntity( aTransform );
 
@@ -2278,16 +2314,21 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 
 bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 {
-    labelAssoc = 0;
-
-    if( pLabelAssoc )
+    if( aLabelAssoc == pLabelAssoc )
     {
-        pLabelAssoc->delReference(this);
-        pLabelAssoc = NULL;
+        if( !aLabelAssoc )
+            labelAssoc = 0;
+
+        return true;
     }
 
     if( !aLabelAssoc )
+    {
+        pLabelAssoc->delReference(this);
+        pLabelAssoc = NULL;
+        labelAssoc = 0;
         return true;
+    }
 
     int tEnt = aLabelAssoc->GetEntityType();
     int tFrm = aLabelAssoc->GetEntityForm();
@@ -2315,7 +2356,11 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
         return false;
     }
 
+    if( pLabelAssoc )
+        pLabelAssoc->delReference(this);
+
     pLabelAssoc = aLabelAssoc;
+    labelAssoc = 0;
 
     if( NULL != parent && parent != aLabelAssoc->parent )
         parent->AddEntity( aLabelAssoc );
@@ -2364,12 +2409,6 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
 bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 {
-    if( pColor )
-    {
-        pColor->delReference(this);
-        pColor = NULL;
-    }
-
     if( aColor < COLOR_NONE || aColor >= COLOR_END )
     {
         ERRMSG << "\n + [BUG] method invoked with invalid color (";
@@ -2377,6 +2416,12 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
         return false;
     }
 
+    if( pColor )
+    {
+        pColor->delReference(this);
+        pColor = NULL;
+    }
+
     colorNum = aColor;
 
     return true;
@@ -2385,16 +2430,21 @@ bool IGES_ENTITY::SetColor( IGES_COLOR aColor )
 
 bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
 {
-    colorNum = 0;
-
-    if( pColor )
+    if( aColor == pColor )
     {
-        pColor->delReference(this);
-        pColor = NULL;
+        if( !aColor )
+            colorNum = 0;
+
+        return true;
     }
 
     if( !aColor )
+    {
+        pColor->delReference(this);
+        pColor = NULL;
+        colorNum = 0;
         return true;
+    }
 
     int tEnt = aColor->GetEntityType();
 
@@ -2421,7 +2471,11 @@ bool IGES_ENTITY::SetColor( IGES_ENTITY* aColor )
         return false;
     }
 
+    if( pColor )
+        pColor->delReference(this);
+
     pColor = aColor;
+    colorNum = 0;
 
     if( NULL != parent && parent != aColor->parent )
         parent->AddEntity( aColor );
-- 
2.43.0


From eb5e7d5d2d2a1abeaae81b5ae5b6d131f3342770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 022/113] fix: report the color and label association entities
 that were set

---
 src/entities/iges_entity.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 4a1eb8c..f4dafc2 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2295,20 +2295,14 @@ bool IGES_ENTITY::SetTransform( IGES_ENTITY* aTransform )
 
 bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
-    *aLabelAssoc = NULL;
+    *aLabelAssoc = pLabelAssoc;
 
-    if( 0 == (labelAssoc & 0x80000000) )
+    if( pLabelAssoc || 0 == (labelAssoc & 0x80000000) )
         return true;
 
-    if( !pLabelAssoc )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
-    *aLabelAssoc = pLabelAssoc;
-    return true;
+    ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
+    cerr << entityType << "\n";
+    return false;
 }
 
 
@@ -2371,7 +2365,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( pColor || (colorNum & 0x80000000) )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2384,7 +2378,10 @@ bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 
 bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
-    *aColor = NULL;
+    *aColor = pColor;
+
+    if( pColor )
+        return true;
 
     if( 0 == (colorNum & 0x80000000) )
     {
@@ -2395,15 +2392,9 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 
     }
 
-    if( pColor == NULL )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
-
-    *aColor = pColor;
-    return true;
+    ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
+    cerr << entityType << "\n";
+    return false;
 }
 
 
-- 
2.43.0


From 71251ebfeb1f48d353277eb026ab2885fcdc6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 023/113] fix: refuse dependency, use and hierarchy values
 outside their range

---
 src/entities/entity102.cpp   |  3 +--
 src/entities/entity308.cpp   |  3 +--
 src/entities/entity408.cpp   |  3 +--
 src/entities/entity508.cpp   |  3 +--
 src/entities/iges_entity.cpp | 21 +++++++++++++++++++++
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/entities/entity102.cpp b/src/entities/entity102.cpp
index 4bf0a51..b6f5254 100644
--- a/src/entities/entity102.cpp
+++ b/src/entities/entity102.cpp
@@ -604,8 +604,7 @@ bool IGES_ENTITY_102::SetEntityForm( int aForm )
 
 bool IGES_ENTITY_102::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
-    hierarchy = aHierarchy;
-    return true;
+    return IGES_ENTITY::SetHierarchy( aHierarchy );
 }
 
 
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index f715d98..1d58dc5 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -467,8 +467,7 @@ bool IGES_ENTITY_308::SetEntityUse( IGES_STAT_USE aUseCase )
 
 bool IGES_ENTITY_308::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
-    hierarchy = aHierarchy;
-    return true;
+    return IGES_ENTITY::SetHierarchy( aHierarchy );
 }
 
 
diff --git a/src/entities/entity408.cpp b/src/entities/entity408.cpp
index 554d174..81bf46d 100644
--- a/src/entities/entity408.cpp
+++ b/src/entities/entity408.cpp
@@ -401,8 +401,7 @@ bool IGES_ENTITY_408::SetEntityForm( int aForm )
 
 bool IGES_ENTITY_408::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
-    hierarchy = aHierarchy;
-    return true;
+    return IGES_ENTITY::SetHierarchy( aHierarchy );
 }
 
 
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index c47c348..cdeef35 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -691,8 +691,7 @@ bool IGES_ENTITY_508::SetDependency( IGES_STAT_DEPENDS aDependency )
 
 bool IGES_ENTITY_508::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
-    hierarchy = aHierarchy;
-    return true;
+    return IGES_ENTITY::SetHierarchy( aHierarchy );
 }
 
 
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index f4dafc2..bc29129 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3081,6 +3081,13 @@ bool IGES_ENTITY::ClearComments( void )
 
 bool IGES_ENTITY::SetDependency( IGES_STAT_DEPENDS aDependency )
 {
+    if( aDependency < STAT_INDEPENDENT || aDependency >= STAT_DEP_END )
+    {
+        ERRMSG << "\n + [BUG] method invoked with invalid value (";
+        cerr << aDependency << ") in entity type #" << entityType << "\n";
+        return false;
+    }
+
     depends = aDependency;
     return true;
 }
@@ -3088,6 +3095,13 @@ bool IGES_ENTITY::SetDependency( IGES_STAT_DEPENDS aDependency )
 
 bool IGES_ENTITY::SetEntityUse( IGES_STAT_USE aUseCase )
 {
+    if( aUseCase < STAT_USE_GEOMETRY || aUseCase >= STAT_USE_END )
+    {
+        ERRMSG << "\n + [BUG] method invoked with invalid value (";
+        cerr << aUseCase << ") in entity type #" << entityType << "\n";
+        return false;
+    }
+
     use = aUseCase;
     return true;
 }
@@ -3095,6 +3109,13 @@ bool IGES_ENTITY::SetEntityUse( IGES_STAT_USE aUseCase )
 
 bool IGES_ENTITY::SetHierarchy( IGES_STAT_HIER aHierarchy )
 {
+    if( aHierarchy < STAT_HIER_ALL_SUB || aHierarchy >= STAT_HIER_END )
+    {
+        ERRMSG << "\n + [BUG] method invoked with invalid value (";
+        cerr << aHierarchy << ") in entity type #" << entityType << "\n";
+        return false;
+    }
+
     if( aHierarchy == STAT_HIER_USE_PROP
         || hierarchy == STAT_HIER_USE_PROP )
     {
-- 
2.43.0


From 9909e968d05f8c5eec933278e1544007509e356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 024/113] fix: refuse invalid form numbers of a transformation
 matrix

---
 src/entities/entity124.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index bec707d..eb15760 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -363,7 +363,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && (aForm < 10 || aForm > 12) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From 01bd63311c8b567dac58107c3fc08eeaf60c50a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:35 +0000
Subject: [PATCH 025/113] fix: accept view entities and view associativities as
 the view of an entity

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index bc29129..08333cf 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2179,7 +2179,7 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
 
-    if( tEnt != ENT_VIEW || tEnt != ENT_ASSOCIATIVITY_INSTANCE
+    if( (tEnt != ENT_VIEW && tEnt != ENT_ASSOCIATIVITY_INSTANCE)
         || (tEnt == ENT_ASSOCIATIVITY_INSTANCE && tFrm != 3 && tFrm != 4 && tFrm != 19) )
     {
         ERRMSG << "\n + [BUG] invalid entity (" << tEnt << "-" << tFrm;
-- 
2.43.0


From 6819447607896c8b6d157a9e000da2a9ae4b8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 026/113] fix: refuse form numbers of a plane entity other than
 -1, 0 and 1

---
 src/entities/entity108.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity108.cpp b/src/entities/entity108.cpp
index 07e2bc6..b8668c0 100644
--- a/src/entities/entity108.cpp
+++ b/src/entities/entity108.cpp
@@ -521,6 +521,7 @@ bool IGES_ENTITY_108::SetEntityForm( int aForm )
     {
         ERRMSG << "\n + [WARNING] [BUG] Entity 108 only supports Forms -1,0,1 (requested form: ";
         cerr << aForm << ")\n";
+        return false;
     }
 
     form = aForm;
-- 
2.43.0


From 3b66c8c7b6bd91a75aa623cb6e3741c19d799b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 027/113] fix: FormatDEInt leaves an empty field when it
 refuses a number

---
 src/iges/iges_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..4fdf906 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -473,6 +473,8 @@ bool ParseReal( const std::string& data, int& idx, double& param, bool& eor, cha
 
 bool FormatDEInt( std::string& out, const int num )
 {
+    out.clear();
+
     if( num > 99999999 || num < -9999999 )
     {
         ERRMSG << "\n + [BUG] integer to format (" << num;
@@ -483,7 +485,6 @@ bool FormatDEInt( std::string& out, const int num )
     ostringstream ostr;
     ostr << num;
 
-    out.clear();
     size_t len = ostr.str().length();
 
     if( len < 8 )
-- 
2.43.0


From 2bb7e1cab9babbefe7ffb4fbd96f8b54217e7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 028/113] fix: free-format readers refuse a negative start
 position

---
 src/iges/iges_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 4fdf906..be28475 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -232,7 +232,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 {
     param.clear();
 
-    if( idx >= (int)data.length() )
+    if( idx < 0 || idx >= (int)data.length() )
     {
         ERRMSG << "\n + [BUG] out of bounds\n";
         return false;
@@ -316,7 +316,7 @@ bool ParseLString( const std::string& data, int& idx, std::string& param, bool&
     param.clear();
     int tidx = idx;
 
-    if( idx >= (int)data.length() )
+    if( idx < 0 || idx >= (int)data.length() )
     {
         ERRMSG << "\n + [BUG] out of bounds\n";
         return false;
-- 
2.43.0


From ae126de3136a7b7f4dccbf71107c0bdc5deb7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 029/113] fix: ParseHString does not truncate or overflow an
 oversized string length

---
 src/iges/iges_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index be28475..bb4c73b 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -251,7 +251,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
     if( errno || cp == rp )
     {
@@ -278,7 +278,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( idx + i >= (int)data.length() )
+    if( i >= (long)data.length() - idx )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string length (" << i << ")\n";
         cerr << " + requested string length exceeds record length\n";
@@ -288,7 +288,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 
     param = data.substr(idx, i);
 
-    idx += i;
+    idx += (int)i;
 
     if( data[idx] == rd )
     {
-- 
2.43.0


From 311e865cd8116d167bfe65d8ecbef95da59a33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 030/113] fix: ParseInt refuses values outside the range of int

---
 src/iges/iges_io.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index bb4c73b..a96841c 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -26,6 +26,7 @@
 
 #include <cstdlib>
 #include <cerrno>
+#include <climits>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -396,9 +397,9 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    if( errno || cp == rp || i > INT_MAX || i < INT_MIN )
     {
         ERRMSG << "\n + [BAD DATA]: invalid integer\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -412,7 +413,7 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         cerr << "Data: " << data.substr(tidx) << "\n";
     }
 
-    param = i;
+    param = (int)i;
     return true;
 }
 
-- 
2.43.0


From 915c3f3a48cd08209af9bdb08bfb3feb7abe2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 031/113] fix: AddPDItem refuses an empty item

---
 src/iges/iges_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index a96841c..1896354 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -624,6 +624,12 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
 bool AddPDItem( std::string& tStr, std::string& fStr, std::string& fOut,
                 int& pdIndex, int deIndex, char pd, char rd )
 {
+    if( tStr.empty() )
+    {
+        ERRMSG << "\n + [BUG] item (tStr) is a null string\n";
+        return false;
+    }
+
     if( tStr.length() > 64 )
     {
         ERRMSG << "\n + [BUG] parameter length exceeds max. permissible by IGES specification\n";
-- 
2.43.0


From 0c03aa7f3f428ee6dbaaadd743106b4c46aa1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 032/113] fix: string writers refuse an overlong pending record

---
 src/iges/iges_io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 1896354..7d2a2da 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -851,6 +851,12 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
         return false;
     }
 
+    if( fStr.length() > 72 )
+    {
+        ERRMSG << "\n + [BUG] global entry exceeds max. permissible by IGES specification\n";
+        return false;
+    }
+
     if( !GetHConst( tStr, hc ) )
     {
         ERRMSG << "\n + [BUG] could not retrieve Hollerith constant for '";
@@ -952,6 +958,12 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
         return false;
     }
 
+    if( fStr.length() > 64 )
+    {
+        ERRMSG << "\n + [BUG] PD entry exceeds max. permissible by IGES specification\n";
+        return false;
+    }
+
     if( !GetHConst( tStr, hc ) )
     {
         ERRMSG << "\n + [BUG] could not retrieve Hollerith constant for '";
-- 
2.43.0


From ed9240d82b7316b3b2b2fa2a43b9ff4c382fdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 033/113] fix: section records with a sequence number beyond
 seven digits are refused

---
 src/iges/iges_io.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 7d2a2da..1a1c167 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -661,7 +661,7 @@ bool AddPDItem( std::string& tStr, std::string& fStr, std::string& fOut,
         fStr += seq;
 
         // add PD Sequence Number
-        if( !FormatDEInt( seq, pdIndex ) )
+        if( pdIndex > 9999999 || !FormatDEInt( seq, pdIndex ) )
         {
             ERRMSG << "\n + [BUG] cannot tack on PD Sequence Number\n";
             return false;
@@ -704,7 +704,7 @@ bool AddPDItem( std::string& tStr, std::string& fStr, std::string& fOut,
         fStr += seq;
 
         // add PD Sequence Number
-        if( !FormatDEInt( seq, pdIndex ) )
+        if( pdIndex > 9999999 || !FormatDEInt( seq, pdIndex ) )
         {
             ERRMSG << "\n + [BUG] cannot tack on PD Sequence Number\n";
             return false;
@@ -764,7 +764,7 @@ bool AddSecItem( std::string& tStr, std::string& fStr, std::string& fOut,
         // add global section sequence number
         std::string seq;
 
-        if( !FormatDEInt( seq, index ) )
+        if( index > 9999999 || !FormatDEInt( seq, index ) )
         {
             ERRMSG << "\n + [BUG] cannot tack on Global Sequence Number\n";
             return false;
@@ -792,7 +792,7 @@ bool AddSecItem( std::string& tStr, std::string& fStr, std::string& fOut,
         // add sequence number
         std::string seq;
 
-        if( !FormatDEInt( seq, index ) )
+        if( index > 9999999 || !FormatDEInt( seq, index ) )
         {
             ERRMSG << "\n + [BUG] cannot tack on Global Sequence Number\n";
             return false;
@@ -870,7 +870,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
     {
         fStr.append( 72 - fStr.length(), ' ' );
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( index > 9999999 || !FormatDEInt( tmp, index++ ) )
         {
             ERRMSG << "\n + [BUG] could not format global section sequence number\n";
             return false;
@@ -897,7 +897,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
         if( fStr.length() == 72 )
         {
-            if( !FormatDEInt( tmp, index++ ) )
+            if( index > 9999999 || !FormatDEInt( tmp, index++ ) )
             {
                 ERRMSG << "\n + [BUG] could not format global section sequence number\n";
                 return false;
@@ -916,7 +916,7 @@ bool AddSecHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
         if( fStr.length() != 72 )
             fStr.append( 72 - fStr.length(), ' ' );
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( index > 9999999 || !FormatDEInt( tmp, index++ ) )
         {
             ERRMSG << "\n + [BUG] could not format global section sequence number\n";
             return false;
@@ -985,7 +985,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
         fStr += tmp;
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( index > 9999999 || !FormatDEInt( tmp, index++ ) )
         {
             ERRMSG << "\n + [BUG] could not format PD section index\n";
             return false;
@@ -1021,7 +1021,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
             fStr += tmp;
 
-            if( !FormatDEInt( tmp, index++ ) )
+            if( index > 9999999 || !FormatDEInt( tmp, index++ ) )
             {
                 ERRMSG << "\n + [BUG] could not format PD section index\n";
                 return false;
@@ -1049,7 +1049,7 @@ bool AddPDHStr( const std::string& tStr, std::string& fStr, std::string& fOut,
 
         fStr += tmp;
 
-        if( !FormatDEInt( tmp, index++ ) )
+        if( index > 9999999 || !FormatDEInt( tmp, index++ ) )
         {
             ERRMSG << "\n + [BUG] could not format PD section index\n";
             return false;
-- 
2.43.0


From 0981a5af0027591081a9261d513cc7b714072c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 034/113] fix: a directory entry that refers to itself is
 reported, not dereferenced through NULL

---
 src/entities/iges_entity.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 08333cf..50a5960 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -500,8 +500,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pStructure->addReference(this, dup) )
+            else if( !pStructure->addReference(this, dup) )
             {
                 if( pStructure->GetEntityType() != 0 )
                 {
@@ -561,8 +560,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLineFontPattern->addReference(this, dup) )
+            else if( !pLineFontPattern->addReference(this, dup) )
             {
                 if( pLineFontPattern->GetEntityType() != 0 )
                 {
@@ -633,8 +631,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLevel->addReference(this, dup) )
+            else if( !pLevel->addReference(this, dup) )
             {
                 if( pLevel->GetEntityType() != 0 )
                 {
@@ -705,8 +702,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pView->addReference(this, dup) )
+            else if( !pView->addReference(this, dup) )
             {
                 if( pView->GetEntityType() != 0 )
                 {
@@ -785,8 +781,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pTransform->addReference(this, dup) )
+            else if( !pTransform->addReference(this, dup) )
             {
                 if( pTransform->GetEntityType() != 0 )
                 {
@@ -856,8 +851,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLabelAssoc->addReference(this, dup) )
+            else if( !pLabelAssoc->addReference(this, dup) )
             {
                 if( pLabelAssoc->GetEntityType() != 0 )
                 {
@@ -928,8 +922,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pColor->addReference(this, dup) )
+            else if( !pColor->addReference(this, dup) )
             {
                 if( pColor->GetEntityType() != 0 )
                 {
-- 
2.43.0


From 1e49e6b703012be2c7782d7c38261bfa39320fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 035/113] fix: an entity of the wrong type named by a directory
 entry keeps no reference to its rejected parent

---
 src/entities/iges_entity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 50a5960..2cb2ea0 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -597,6 +597,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference(this);
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -668,6 +669,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference(this);
                     pLevel = NULL;
                     ok = false;
                 }
@@ -740,6 +742,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference(this);
                     pView = NULL;
                     ok = false;
                 }
@@ -817,6 +820,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference(this);
                     pTransform = NULL;
                     ok = false;
                 }
@@ -888,6 +892,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference(this);
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -958,6 +963,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference(this);
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From da887f3d3a7c1485437f2c7d1083d01812b5400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 036/113] fix: a directory entry whose level is a pointer
 (negative value) can be read back

---
 src/entities/iges_entity.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 2cb2ea0..7c00f59 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1158,19 +1158,13 @@ bool IGES_ENTITY::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aSeque
 
     lineFontPattern = tmpInt;
 
-    // DE5: Level
+    // DE5: Level (a negative value is a pointer to a Definition Levels Property)
     if( !DEItemToInt(aRecord->data, 4, tmpInt, &defInt))
     {
         ERRMSG << "\n + could not extract Level value\n";
         return false;
     }
 
-    if( tmpInt < 0 )
-    {
-        ERRMSG << "\n + invalid Level value (" << tmpInt << "); must be >= 0\n";
-        return false;
-    }
-
     level = tmpInt;
 
     // DE6: View
-- 
2.43.0


From 84febce018a05368364c451ae3d6c2d0af5052f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 037/113] fix: a structure pointer (negative value) is resolved
 to the entity it refers to

---
 src/entities/iges_entity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 7c00f59..171840a 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -485,9 +485,9 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
     int tEnt;
     bool dup = false;
 
-    if( structure > 0 )
+    if( structure < 0 )
     {
-        idx = structure >> 1;
+        idx = (-structure) >> 1;
 
         if( idx < (int)entities->size() )
         {
-- 
2.43.0


From e1d598a461b8b93e96a53b8b2d1264831988c20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 038/113] fix: a transformation matrix with an undefined form
 number is refused on reading

---
 src/entities/entity124.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index eb15760..b5dacf8 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -281,7 +281,7 @@ bool IGES_ENTITY_124::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     visible = true;                 // N.A., but true => Blank Status = 0
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
-    if( form != 0 && form != 1 && form < 10 && form > 12 )
+    if( form != 0 && form != 1 && ( form < 10 || form > 12 ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Transform\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From 0c0aca5777e9d1cab89f19670dbf210195e10405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 039/113] fix: an open shell (form 2) can be read back

---
 src/entities/entity514.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 273f5c1..06df0f0 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -298,7 +298,7 @@ bool IGES_ENTITY_514::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     lineWeightNum = 0;              // N.A.
     colorNum = 0;                   // N.A.
 
-    if( form != 1 )
+    if( form != 1 && form != 2 )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Shell\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From efe4e4f5b76f2a19f1abfe93dcaae58fadd92637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 040/113] fix: comment records of an entity carry the owning DE
 number and a valid sequence number

---
 src/entities/iges_entity.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 171840a..d2ef5e9 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2839,13 +2839,22 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
 
-            if( !FormatDEInt( tmp1, pdSeq++ ) )
+            // owning DE in columns 65..72
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format DE Sequence Number\n";
+                return false;
+            }
+
+            tmp += tmp1;
+
+            if( pdSeq > 9999999 || !FormatDEInt( tmp1, pdSeq++ ) )
             {
                 ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
                 return false;
-- 
2.43.0


From efc1315ef24b84938c581bc3e06606c8bae1ad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 041/113] fix: parameter data which did not fit is not reported
 as formatted

---
 src/entities/iges_entity.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index d2ef5e9..180245f 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2822,6 +2822,18 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
         return false;
     }
 
+    // the parameters must have been written in full
+    size_t eop = std::string::npos;
+
+    if( parent && !pdout.empty() )
+        eop = pdout.find_last_not_of( ' ', pdout.length() - 18 );
+
+    if( eop == std::string::npos || pdout[eop] != parent->globalData.rdelim )
+    {
+        ERRMSG << "\n + [INFO] the Parameter Data is not terminated by a Record Delimeter\n";
+        return false;
+    }
+
     if( comments.empty() )
         return true;
 
-- 
2.43.0


From b8a49a8a7c5d98cacca4e8c00bca5f6ef582a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 042/113] fix: the number of void shells is written (Entity
 186)

---
 src/entities/entity186.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..b3cb285 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -228,6 +228,13 @@ bool IGES_ENTITY_186::format( int &index )
         tStr = ostr.str();
         AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
     }
+    else
+    {
+        ostr.str("");
+        ostr << mvoids.size() << pd;
+        tStr = ostr.str();
+        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+    }
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-- 
2.43.0


From 0af72f9e3a7a5a6fda0bfb50a1a5959aebc06023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 043/113] fix: operands of a boolean tree can be read (Entity
 180)

---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 3757893..b3e7b0f 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -445,7 +445,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && 0 == (ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From c98a5bec03d2b734910519f805be51d3aa8efbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:02 +0000
Subject: [PATCH 044/113] fix: color names of any length and optional
 parameters are written (Entity 314)

---
 src/entities/entity314.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..525b766 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -188,17 +188,12 @@ bool IGES_ENTITY_314::format( int &index )
 
     char idelim;
 
-    if( cname.empty() )
-    {
-        if( extras.empty() )
-            idelim = rd;
-        else
-            idelim = pd;
-    }
+    // note: the name is the 4th parameter; it must be present
+    // (possibly defaulted) if there are optional parameters
+    if( cname.empty() && extras.empty() )
+        idelim = rd;
     else
-    {
         idelim = pd;
-    }
 
     if( !FormatPDREal( tStr, blue, idelim, 0.1 ) )
     {
@@ -209,17 +204,19 @@ bool IGES_ENTITY_314::format( int &index )
 
     AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
-    if( !cname.empty() )
+    if( !cname.empty() || !extras.empty() )
     {
         if( extras.empty() )
             idelim = rd;
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format the color name\n";
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
-- 
2.43.0


From c2e3a14d8f9723cfb56e28b4b97df0b63099f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 045/113] fix: a trimmed surface without an outer boundary
 entity can be read (Entity 144)

---
 src/entities/entity144.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index ffb4168..36d9fa6 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -581,7 +581,7 @@ bool IGES_ENTITY_144::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
-    if( iPTO < 0 || (iPTO & 1) == 0 || iPTO > 9999997 )
+    if( iPTO < 0 || ( iPTO && (iPTO & 1) == 0 ) || iPTO > 9999997 )
     {
         ERRMSG << "\n + [INFO] invalid outline DE pointer (" << iPTO << ")\n";
         pdout.clear();
-- 
2.43.0


From 6d57f1580cc683c7f35f9b63a127a8e100d029ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 046/113] fix: radius limit and default axis on reading a
 cylinder (Entity 154)

---
 src/entities/entity154.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..7889346 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -280,7 +280,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
         if( R > 0.0 )
         {
             ERRMSG << "\n + [BAD FILE] Right Circular Cylinder radius < MinRes \n";
-            H = minRes;
+            R = minRes;
         }
         else
         {
@@ -366,7 +366,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     if( !eor )
     {
-        if( !ParseReal( pdout, idx, K1, eor, pd, rd ) )
+        if( !ParseReal( pdout, idx, K1, eor, pd, rd, &ddef ) )
         {
             ERRMSG << "\n + [BAD FILE] no K1 value for Right Circular Cylinder\n";
             pdout.clear();
-- 
2.43.0


From 51186b70cec33cd4410be48f8870a9c9a2853b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 047/113] fix: default extrusion direction is +Z (Entity 164)

---
 src/entities/entity164.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index eac03ad..95370c2 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -388,7 +388,7 @@ bool IGES_ENTITY_164::readPD(std::ifstream &aFile, int &aSequenceVar)
     }
     else
     {
-        K1 = 0.0;
+        K1 = 1.0;
     }
 
     // ensure (I1,J1,K1) is a unit vector
-- 
2.43.0


From fcd2e9e153c96a5229d1c38a3b9c6f8a6c4e526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 048/113] fix: a vertex list has a single record delimiter
 (Entity 502)

---
 src/entities/entity502.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..d4569e4 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -133,7 +133,7 @@ bool IGES_ENTITY_502::format( int &index )
 
     for( int i = 0; i < 3; ++i )
     {
-        if( !FormatPDREal( tStr, vals[i], idelim, uir ) )
+        if( !FormatPDREal( tStr, vals[i], i < 2 ? pd : idelim, uir ) )
         {
             ERRMSG << "\n + [INFO] could not format Point[" << acc << "]\n";
             return false;
-- 
2.43.0


From cdbef0ec3792f551c9d35e40ea6601e66715bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 049/113] fix: all parameter space curves of a loop are written
 (Entity 508)

---
 src/entities/entity508.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index cdeef35..4650314 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -284,7 +284,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -294,7 +294,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -312,7 +312,7 @@ bool IGES_ENTITY_508::format( int &index )
             // CURV(n, k)
             ostr.str("");
 
-            if( sV == iV && sP == eP && extras.empty() )
+            if( sV == iV && ( sP + 1 ) == eP && extras.empty() )
                 ostr << (*sP)->curve->getDESequence() << rd;
             else
                 ostr << (*sP)->curve->getDESequence() << pd;
-- 
2.43.0


From 3468c1ff9c0dbe22fd4c4b793d118c56721aebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 050/113] fix: radii of a circular arc are compared, not their
 squares (Entity 100)

---
 src/entities/entity100.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..c9bd453 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -368,7 +368,7 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
 
     double d1 = p1.x*p1.x + p1.y*p1.y;
     double d2 = p2.x*p2.x + p2.y*p2.y;
-    d1 = d2 - d1;
+    d1 = sqrt( d2 ) - sqrt( d1 );
 
     if( abs( d1 ) > uir )
     {
-- 
2.43.0


From 467f53cb917dcb644da0a8cddaee6cf563e81fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 051/113] fix: values above the stated resolution are not
 written as zero

---
 src/iges/iges_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 1a1c167..8cec07c 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -520,7 +520,7 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 791c3211565a3a571eb6006686aaee1b090651e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 052/113] fix: an empty vertex list, edge list or loop is
 refused on output

---
 src/entities/entity502.cpp | 6 ++++++
 src/entities/entity504.cpp | 6 ++++++
 src/entities/entity508.cpp | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index d4569e4..9ac0980 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -72,6 +72,12 @@ bool IGES_ENTITY_502::format( int &index )
         return false;
     }
 
+    if( vertices.empty() )
+    {
+        ERRMSG << "\n + [INFO] there are no vertices\n";
+        return false;
+    }
+
     parameterData = index;
 
     if( !parent )
diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 6c3bd7c..422ab24 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -177,6 +177,12 @@ bool IGES_ENTITY_504::format( int &index )
         return false;
     }
 
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] there are no edges\n";
+        return false;
+    }
+
     parameterData = index;
 
     if( !parent )
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 4650314..49a2f50 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -216,6 +216,12 @@ bool IGES_ENTITY_508::format( int &index )
         return false;
     }
 
+    if( edges.empty() )
+    {
+        ERRMSG << "\n + [INFO] there are no edges\n";
+        return false;
+    }
+
     parameterData = index;
 
     if( !parent )
-- 
2.43.0


From ebdd69eba626f46a1305be064d053d7de5b07f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 053/113] fix: no iterator before the first void shell is
 formed (Entity 186)

---
 src/entities/entity186.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index b3cb285..ec89ecf 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -238,7 +238,10 @@ bool IGES_ENTITY_186::format( int &index )
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = --(mvoids.end());
+    list<pair<IGES_ENTITY_514*, bool> >::iterator iV = eV;
+
+    if( !mvoids.empty() )
+        --iV;
 
     while( sV != eV )
     {
-- 
2.43.0


From 8be572a1ec3315c3bd1befd62a8ba51e92f0f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 054/113] fix: the date check reads its month table only for a
 valid month

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 18bf5f0..b1af4e6 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( iday < 1 || imon < 1 || imon > 12 || iday > mdays[imon -1] )
         ok = false;
 
     errno = 0;
-- 
2.43.0


From e36cf8ce224c83efe0775a66cbe921e70c60b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 055/113] fix: the date check tests the range of the seconds

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b1af4e6..30137cd 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From 1316f14f08256992e1d9af86f01519087a909c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 056/113] fix: date fields with blanks or signs are refused

---
 src/iges/iges.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 30137cd..94696c9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -123,6 +123,15 @@ static bool checkDate( const std::string aDate )
     int idx = 0;
     bool ok = true;
 
+    // strtol() also accepts blanks and signs; only digits are valid here
+    size_t npos = aDate.find_first_not_of( "0123456789" );
+
+    if( npos != aDate.length() - 7
+        || std::string::npos != aDate.find_first_not_of( "0123456789", npos + 1 ) )
+    {
+        return false;
+    }
+
     if( aDate.length() == 13 )
     {
         dyear = "19" + aDate.substr( 0, 2 );
-- 
2.43.0


From be5d56a9e4edf9cae68c38bf62f1371e676aae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 057/113] fix: 29 February is a date in leap years only

---
 src/iges/iges.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 94696c9..79712e3 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -208,6 +208,13 @@ static bool checkDate( const std::string aDate )
     if( iday < 1 || imon < 1 || imon > 12 || iday > mdays[imon -1] )
         ok = false;
 
+    // note: the century of a 2-digit year is not known (see above)
+    if( imon == 2 && iday == 29
+        && ( ( iyear % 4 ) || ( aDate.length() == 15 && 0 == ( iyear % 100 ) && ( iyear % 400 ) ) ) )
+    {
+        ok = false;
+    }
+
     errno = 0;
     cp0 = dhour.c_str();
     ihour = strtol( cp0, &cp1, 10 );
-- 
2.43.0


From 41ca90030bd1d8e9193c8e2fd1c3947814e53192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 058/113] fix: the record delimiter of the Global section is
 read and checked

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 79712e3..9c1acb1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1116,7 +1116,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1124,12 +1124,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+        || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 4928d00d273240e377427f0539ef18cc3a6a60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 059/113] fix: a missing preprocessor version is refused

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 9c1acb1..5584278 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1201,7 +1201,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
-- 
2.43.0


From 3816c35ab7fbb1072829fd23e1ed711239599415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 060/113] fix: the receiving system defaults to the product of
 the sending system

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 5584278..7d01e60 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1302,7 +1302,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From 5cd273dc2b5867d1c3483c025b16ded3a64c4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 061/113] fix: a model space scale which is not positive is
 refused

---
 src/iges/iges.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7d01e60..2e5cdc9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1316,6 +1316,13 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         return false;
     }
 
+    if( !( globalData.modelScale > 0.0 ) )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] invalid Model Space Scale (";
+        cerr << globalData.modelScale << ")\n";
+        return false;
+    }
+
     // G14: Model Units
     int tint;
     int idefault = 1;
-- 
2.43.0


From b95d0c57966841b519aebf9018a9d9038157849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 062/113] fix: an invalid drafting standard is refused

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 2e5cdc9..324ec37 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1508,6 +1508,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid Drafting Standard (";
             cerr << tint << ")\n";
+            return false;
         }
 
         globalData.draftStandard = (IGES_DRAFTING_STANDARD)tint;
-- 
2.43.0


From d5c8e410290252b02fed4f8973e1850166990f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 063/113] fix: the modification date may be left out

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 324ec37..d41719d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1527,7 +1527,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From 062b43c4c05db5ec06326550b144bd91989ee36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 064/113] fix: scale and units are normalised when the Global
 section ends before its last parameter

---
 src/iges/iges.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d41719d..7e7e40e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1539,10 +1539,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From cb5e4593b9f36c2b0596e738100dbf836ac6a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 065/113] fix: user-defined units are kept, and not taken for
 millimetres

---
 src/iges/iges.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 7e7e40e..e52faaf 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1561,7 +1561,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.convert = true;
     }
 
-    if( globalData.unitsFlag != UNIT_MILLIMETER )
+    // the size of a user-defined unit is not known
+    if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
@@ -2229,7 +2230,12 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( globalData.unitsFlag == UNIT_EXTERN && !globalData.unitsName.empty() )
+        tstr = globalData.unitsName;
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
-- 
2.43.0


From 26e10f7a50498fde828cac2e3b39346e1ee6a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 066/113] fix: the units name follows the units flag

---
 src/iges/iges.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index e52faaf..55301d0 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1355,7 +1355,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
     }
-    else if( globalData.unitsFlag != UNIT_EXTERN )
+
+    if( globalData.unitsFlag != UNIT_EXTERN )
     {
         if( globalData.unitsName.compare( UNIT_NAMES[globalData.unitsFlag - UNIT_START] ) )
             globalData.unitsName = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
@@ -1567,6 +1568,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
+        globalData.unitsName = UNIT_NAMES[UNIT_MILLIMETER - UNIT_START];
         globalData.convert = true;
     }
 
@@ -1851,6 +1853,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
     }
 
     globalData.unitsFlag = newUnit;
+    globalData.unitsName = UNIT_NAMES[newUnit - UNIT_START];
 
     return true;
 }
-- 
2.43.0


From 8caf51a23e8fbdfe72abae6a45d1d9bcc25ab064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 067/113] fix: the reported name is that of the units of the
 model

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 55301d0..08a3d81 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2699,5 +2699,5 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From a92129c487e7956b49be4c4f0d93b51f3a774347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 068/113] fix: the maximum line width is written as such

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 08a3d81..9802ea5 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2262,9 +2262,9 @@ bool IGES::writeGlobals( std::ofstream& file )
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
     if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+        globalData.maxLinewidth = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, globalData.maxLinewidth, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From 1daf815126a8c50cb3db9ee5733ae16ec3f26390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 069/113] fix: unknown units are refused

---
 src/iges/iges.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 9802ea5..be52f4e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1829,6 +1829,12 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
         return false;
     }
 
+    if( newUnit < UNIT_INCH || newUnit > UNIT_MICROINCH )
+    {
+        ERRMSG << "\n + [BUG] invalid units (" << newUnit << ")\n";
+        return false;
+    }
+
     double cf;
 
     // + Calculate a scale factor to convert units.
-- 
2.43.0


From eb7635c9d3be1d1f789e2f0532c5d1de72c6fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 070/113] fix: the base name of a file without extension is
 returned

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 17aad6c..83be48b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -307,7 +307,7 @@ const char* MCAD_FILEPATH::GetBaseName( void )
     {
         *m_basename = m_fullpath->substr( lastSep, lastDot - lastSep );
 
-        if( m_ext->empty() )
+        if( m_ext->empty() && lastDot < m_fullpath->size() )
             *m_ext = m_fullpath->substr( lastDot + 1 );
     }
     else
-- 
2.43.0


From c0130164289f29450b48ebeb88cdd8f720e83b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 071/113] fix: the old extension is replaced also when it was
 asked for before

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 83be48b..ab6e30c 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -358,7 +358,7 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         return false;
     }
 
-    if( m_ext->empty() && NULL != GetExtension() )
+    if( NULL != GetExtension() )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
     m_filename->clear();
-- 
2.43.0


From f6d8b7b130e9a18de9732f9851274b27df3f41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 072/113] fix: an extension given with its dot is separated
 from the base name

---
 src/iges/mcad_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index ab6e30c..804438e 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -377,6 +377,7 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         if( 0 == anExt[1] )
             return false;
 
+        m_fullpath->append( 1, '.' );
         *m_ext = &anExt[1];
     }
 
-- 
2.43.0


From 8da00d1ec4c521b36b96c6f623f05632973aac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 073/113] fix: a refused extension leaves the path as it was

---
 src/iges/mcad_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 804438e..bbf856a 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -358,6 +358,9 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         return false;
     }
 
+    if( NULL != anExt && '.' == anExt[0] && 0 == anExt[1] )
+        return false;
+
     if( NULL != GetExtension() )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
@@ -374,9 +377,6 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
     }
     else
     {
-        if( 0 == anExt[1] )
-            return false;
-
         m_fullpath->append( 1, '.' );
         *m_ext = &anExt[1];
     }
-- 
2.43.0


From 2414e700305e425473e6d9f7ada9e0a6d1e25e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 074/113] fix: the reported parts agree with the path after a
 change of extension

---
 src/iges/mcad_utils.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index bbf856a..5ebf89b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -365,23 +365,16 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
     m_filename->clear();
+    m_basename->clear();
     m_ext->clear();
 
     if( NULL == anExt || 0 == anExt[0] )
         return true;
 
     if( '.' != anExt[0] )
-    {
         m_fullpath->append( 1, '.' );
-        *m_ext = anExt;
-    }
-    else
-    {
-        m_fullpath->append( 1, '.' );
-        *m_ext = &anExt[1];
-    }
 
-    m_fullpath->append( *m_ext );
+    m_fullpath->append( anExt );
     return true;
 }
 
-- 
2.43.0


From 8c311656b5404a1f1dc758dcc8c7669f04625d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 075/113] fix: a successful Append is reported as such

---
 src/iges/mcad_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 5ebf89b..5078d6b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -402,6 +402,7 @@ bool MCAD_FILEPATH::Append( const char* aSubPath )
         m_filename->clear();
         m_basename->clear();
         m_ext->clear();
+        return true;
     }
 
     return false;
-- 
2.43.0


From 2b0c8bafd4a66fa1645497c8600f0004758d67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 076/113] fix: a path appended to an empty path does not become
 absolute

---
 src/iges/mcad_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 5078d6b..a0c79e9 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -397,7 +397,9 @@ bool MCAD_FILEPATH::Append( const char* aSubPath )
         if( subp.size() == 1 && subp[0] == pathsep )
             return true;
 
-        m_fullpath->append( 1, pathsep );
+        if( !m_fullpath->empty() )
+            m_fullpath->append( 1, pathsep );
+
         m_fullpath->append( subp );
         m_filename->clear();
         m_basename->clear();
-- 
2.43.0


From 2cf7bce64055831f37327c3ef190c170653fa73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 077/113] fix: TNM, and no other text, is read as the TNM unit
 of a component outline

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..f5d7c11 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3251,7 +3251,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     {
         unit = UNIT_THOU;
     }
-    else if( aIdfVersion == IDF_V2 && !CompareToken( "TNM", token ) )
+    else if( aIdfVersion == IDF_V2 && CompareToken( "TNM", token ) )
     {
         unit = UNIT_TNM;
     }
-- 
2.43.0


From cedb46906636a6ae7fbc1f6b229002392351f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 078/113] fix: component positions in TNM are converted to
 millimetres

---
 src/idf/idf_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..a1dabbe 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -637,6 +637,11 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
         yoff *= IDF_THOU_TO_MM;
         zoff *= IDF_THOU_TO_MM;
     }
+    else if( ( aIdfVersion == IDF_V2 ) && ( aBoard->GetUnit() == IDF3::UNIT_TNM ) )
+    {
+        xoff *= IDF_TNM_TO_MM;
+        yoff *= IDF_TNM_TO_MM;
+    }
 
     parent = aBoard->FindComponent( refdes );
 
-- 
2.43.0


From 721284224cfb0e680faab07844fbce8f025907d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 079/113] fix: WriteFile writes millimetres when they are asked
 for, and THOU otherwise

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index a1dabbe..51deb71 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3103,7 +3103,7 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From 5ab14a72140f339a891ddc2c5d65b8035cce279b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 080/113] fix: the side of an OTHER_OUTLINE ends its record

---
 src/idf/idf_outlines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index f5d7c11..84d087d 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1900,6 +1900,7 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
             case LYR_TOP:
             case LYR_BOTTOM:
                 WriteLayersText( aBoardFile, side );
+                aBoardFile << "\n";
                 break;
 
             default:
-- 
2.43.0


From 446a1443138afcab7e533535c67927b266a3223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:40 +0000
Subject: [PATCH 081/113] fix: a placement outline without a height is written
 without one

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 84d087d..f8bdd6b 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2597,7 +2597,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From 4d0afbb4c01200179103de18e90567f8b4007791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 082/113] fix: notes in TNM are converted to millimetres

---
 src/idf/idf_common.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/idf/idf_common.cpp b/src/idf/idf_common.cpp
index 40a285a..ccd8592 100644
--- a/src/idf/idf_common.cpp
+++ b/src/idf/idf_common.cpp
@@ -246,6 +246,13 @@ bool IDF_NOTE::readNote( std::ifstream& aBoardFile, IDF3::FILE_STATE& aBoardStat
         height *= IDF_THOU_TO_MM;
         length *= IDF_THOU_TO_MM;
     }
+    else if( aBoardUnit == UNIT_TNM )
+    {
+        xpos *= IDF_TNM_TO_MM;
+        ypos *= IDF_TNM_TO_MM;
+        height *= IDF_TNM_TO_MM;
+        length *= IDF_TNM_TO_MM;
+    }
 
     return true;
 }
-- 
2.43.0


From 97806d100e70f1eef9d59789fe47a538260708d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 083/113] fix: a header line of exactly 72 characters is not
 dropped

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index be52f4e..fb8bc85 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1951,7 +1951,7 @@ bool IGES::AddToHeader( const char*& comments )
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From 031e6295c0ae5c0371ba122eb181b37f2e897fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 084/113] fix: header lines of a cleared model are not handed
 out

---
 src/iges/iges.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index fb8bc85..5d05ce2 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -408,6 +408,7 @@ bool IGES::init(void)
     globalData.convert = false;
 
     startSection.clear();
+    vStartSection.clear();
     nGlobSecLines = 0;
     nDESecLines = 0;
     nPDSecLines = 0;
-- 
2.43.0


From e8de14b7c30a1ffcc0aa16805f45f91691c2dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 085/113] fix: a file can be read into an empty model which has
 header lines

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 5d05ce2..d238b06 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -485,6 +485,10 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+    // the header lines of the file replace those of the (empty) model
+    startSection.clear();
+    vStartSection.clear();
+
     if( rec.section_type != 'S' )
     {
         ERRMSG << "\n + [CORRUPT FILE] file does not contain a START section\n";
-- 
2.43.0


From 6a083f76fdde2dc1b0f40e3fe003abae7ac6f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:48 +0000
Subject: [PATCH 086/113] fix: a file with broken associations leaves the model
 empty like any refused file

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d238b06..6e1d85f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -630,6 +630,8 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            file.close();
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From f43a480859e86bebd6815d7a769aabc50ad06c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:37 +0000
Subject: [PATCH 087/113] fix: nothing left in an empty model takes part in
 reading a file

---
 src/iges/iges.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 6e1d85f..b965b53 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -485,9 +485,9 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
-    // the header lines of the file replace those of the (empty) model
-    startSection.clear();
-    vStartSection.clear();
+    // the contents of the file replace what is left in the (empty) model:
+    // header lines, global data and the number of lines in each section
+    init();
 
     if( rec.section_type != 'S' )
     {
-- 
2.43.0


From 8760b8f043017536920bb692b65e275d8b585949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 088/113] fix: culling leaves no entity orphaned by the culling
 of its parent

---
 src/iges/iges.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index b965b53..3bf3ced 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1810,6 +1810,10 @@ void IGES::Cull( bool vicious )
     entities.clear();
     entities = tmpEnts;
 
+    // the deletion of an entity may orphan entities which precede it
+    if( nCulled )
+        Cull( false );
+
 #ifdef DEBUG
     cerr << " + [INFO] Entities culled: " << nCulled << "\n";
     cerr << " + [INFO] Entities remaining: " << entities.size() << "\n";
-- 
2.43.0


From ddbdef2a44c8205d2e009a2cdf272708c62814e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 089/113] fix: a file which could not be written out completely
 is not reported as written

---
 src/iges/iges.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 3bf3ced..03a4253 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -833,13 +833,15 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     oline += "\n";
     file << oline;
 
+    // the last of the data is only passed on when the file is closed
+    file.close();
+
     if( file.fail() )
     {
-        file.close();
+        ERRMSG << "\n + [INFO] could not write data to file\n";
         return false;
     }
 
-    file.close();
     return true;
 }
 
-- 
2.43.0


From 98c7d91727f3736c118266e635b03a4be66188e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 090/113] fix: a new Shell has a valid form number

---
 src/entities/entity514.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 06df0f0..1223018 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -41,6 +41,7 @@ using namespace std;
 IGES_ENTITY_514::IGES_ENTITY_514( IGES* aParent ) : IGES_ENTITY( aParent )
 {
     entityType = 514;
+    form = 1;           // closed shell unless set otherwise
     visible = true;
 
     return;
-- 
2.43.0


From 9b64f2fda8b5e97c769d321bac10726863dbd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:56 +0000
Subject: [PATCH 091/113] fix: a B-Spline curve claiming more data than it has
 is refused before allocating it

---
 src/entities/entity126.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..2e58df2 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -487,6 +487,14 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // each of the knots, weights and coordinates takes at least one character
+    if( (size_t)M > pdout.length() || (size_t)K > pdout.length() / 5 )
+    {
+        ERRMSG << "\n + [INFO] not enough data for K=" << K << ", M=" << M << "\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:planar/nonplanar)\n";
-- 
2.43.0


From 5e74ca85014d5e4199e4fc2a3cda4d576e854d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 092/113] fix: a B-Spline surface claiming more data than it
 has is refused before allocating it

---
 src/entities/entity128.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..c192b20 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -520,6 +520,17 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // each of the knots, weights and coordinates takes at least one character
+    if( (size_t)M1 > pdout.length() || (size_t)M2 > pdout.length()
+        || (size_t)K1 > pdout.length() || (size_t)K2 > pdout.length()
+        || ((size_t)K1 + 1) * ((size_t)K2 + 1) > pdout.length() / 4 )
+    {
+        ERRMSG << "\n + [INFO] not enough data for K1=" << K1 << ", K2=" << K2;
+        cerr << ", M1=" << M1 << ", M2=" << M2 << "\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:open/closed for all U)\n";
-- 
2.43.0


From 5ded706886303d09a34c4ca0499af42932b49ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 093/113] fix: entities of a file with broken associations are
 destroyed safely

---
 src/iges/iges.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 03a4253..2ab6eae 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -630,6 +630,19 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+
+            // sever the associations: the last of them may have been recorded
+            // by the child entity only
+            for( iEnt = 0; iEnt < nEnt; ++iEnt )
+            {
+                while( !entities[iEnt]->refs.empty() )
+                {
+                    IGES_ENTITY* ep = entities[iEnt]->refs.front();
+                    entities[iEnt]->refs.pop_front();
+                    ep->unlink( entities[iEnt] );
+                }
+            }
+
             file.close();
             Clear();
             return false;
-- 
2.43.0


From c1ffddbc87941a7c5bc4ef52c48c25624d3e9625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 094/113] fix: the vertices of an Edge List in a file are only
 taken from Vertex Lists

---
 src/entities/entity504.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index 422ab24..dfdb259 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -137,7 +137,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp0 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp0 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         lI = sI->tvp >> 1;
 
@@ -149,7 +149,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp1 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
         {
-- 
2.43.0


From fe408da8124519883ab63f1a62bd6272e5d339c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 095/113] fix: a Loop only refers to vertex and edge lists as
 its edges

---
 src/entities/entity508.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 49a2f50..0caf27a 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -711,6 +711,14 @@ bool IGES_ENTITY_508::SetView( IGES_ENTITY* aView )
 // add a parent reference to a Vertex or Edge list entity and maintain a refcount
 bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 {
+    int eType = aEdge->GetEntityType();
+
+    if( ENT_VERTEX != eType && ENT_EDGE != eType )
+    {
+        ERRMSG << "\n + [BUG] not a vertex or edge list (Type " << eType << ")\n";
+        return false;
+    }
+
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
@@ -804,6 +812,14 @@ bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnli
 // add a parent reference to a parameter space curve and ensure no duplicates
 bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 {
+    int eType = aCurve->GetEntityType();
+
+    if( ENT_VERTEX == eType || ENT_EDGE == eType )
+    {
+        ERRMSG << "\n + [BUG] not a parameter space curve (Type " << eType << ")\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
-- 
2.43.0


From 25d05bb6e24354ff08248b4b04149f74e7e5ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:44 +0000
Subject: [PATCH 096/113] fix: no entity is recorded as its own parent

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 180245f..a9dd9ec 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -370,7 +370,7 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
     }
 
     // Ensure we have no direct circular references
-    if( aParentEntity == pStructure || aParentEntity == pLineFontPattern
+    if( aParentEntity == this || aParentEntity == pStructure || aParentEntity == pLineFontPattern
         || aParentEntity == pLevel || aParentEntity == pView
         || aParentEntity == pTransform || aParentEntity == pLabelAssoc
         || aParentEntity == pColor )
-- 
2.43.0


From 85894f5eb116f52ae688bfd53cb457dfc5a985b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 097/113] fix: a Face which names a loop twice is refused

---
 src/entities/entity510.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index de1a1a5..ddad988 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -145,6 +145,13 @@ bool IGES_ENTITY_510::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate loop\n";
+            iloops.clear();
+            return false;
+        }
+
         mloops.push_back( (IGES_ENTITY_508*)((*entities)[iEnt]) );
         ++sL;
     }
-- 
2.43.0


From 7a8fde305a39ffaa9828b2a3c8dd784f644d3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 098/113] fix: a Shell which names a face twice is refused

---
 src/entities/entity514.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 1223018..54f1010 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -116,6 +116,13 @@ bool IGES_ENTITY_514::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate face\n";
+            ifaces.clear();
+            return false;
+        }
+
         mfaces.push_back( pair<IGES_ENTITY_510*, bool>( (IGES_ENTITY_510*)ep, sF->second ) );
         ++sF;
     }
-- 
2.43.0


From 1d57ba29eefd2c38c27c6f5629103a1fe7241d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 099/113] fix: a solid which names a shell twice is refused

---
 src/entities/entity186.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index ec89ecf..176e3ae 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -167,6 +167,13 @@ bool IGES_ENTITY_186::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
+        if( dup )
+        {
+            ERRMSG << "\n + [CORRUPT FILE]: adding duplicate shell\n";
+            ivoids.clear();
+            return false;
+        }
+
         mvoids.push_back( pair<IGES_ENTITY_514*, bool>( (IGES_ENTITY_514*)ep, sV->second ) );
         ++sV;
     }
-- 
2.43.0


From 25173c906bdd129439ea6482d5a8ad564d9a47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:11 +0000
Subject: [PATCH 100/113] fix: the number of header lines is handed back to the
 caller

---
 src/iges/iges.cpp       | 2 +-
 src/include/core/iges.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 2ab6eae..c4794b9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1925,7 +1925,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From 162a947103e289ccf9cf39113db90beb0c6f4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:45 +0000
Subject: [PATCH 101/113] fix: directory entries must be numbered consecutively

---
 src/iges/iges.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c4794b9..c5f26f6 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1615,6 +1615,14 @@ bool IGES::readDE( IGES_RECORD& rec, std::ifstream& file )
 
     while( rec.section_type == 'D' )
     {
+        // references between entities are resolved via the sequence number
+        if( rec.index != nDESecLines + 1 )
+        {
+            ERRMSG << "\n + [CORRUPT FILE] DE sequence number (" << rec.index;
+            cerr << ") does not match expected (" << (nDESecLines + 1) << ")\n";
+            return false;
+        }
+
         if( !DEItemToInt( rec.data, 0, tmpInt, NULL) )
         {
             ERRMSG << "\n + could not extract Entity Type number\n";
-- 
2.43.0


From f5e2468dfe02b0c38f5fcb74264a7b6fd79d0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:45 +0000
Subject: [PATCH 102/113] fix: parameter lines must be numbered consecutively

---
 src/entities/iges_entity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index a9dd9ec..7e3cb11 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1487,12 +1487,13 @@ bool IGES_ENTITY::readPD(std::ifstream &aFile, int &aSequenceVar)
             return false;
         }
 
-        if( rec.index != (parameterData + i) )
+        if( rec.index != (parameterData + i) || rec.index != (aSequenceVar + 1) )
         {
             ERRMSG << "\n + [BAD FILE] incorrect Parameter Line # (" << rec.index << ")\n";
             cerr << " + [INFO] Parameter Data Index (" << parameterData << ")\n";
             cerr << " + [INFO] Parameter Line Count (" << paramLineCount << ")\n";
             cerr << " + [INFO] Expected Parameter Line # (" << (parameterData + i) << ")\n";
+            cerr << " + [INFO] Number of lines read so far (" << aSequenceVar << ")\n";
             pdout.clear();
             return false;
         }
-- 
2.43.0


From 0c80d033bc119355cc7633ef4e2e80aa71f28b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:53 +0000
Subject: [PATCH 103/113] fix: the remaining part of a split clockwise arc must
 keep normalized angles

---
 src/geom/mcad_segment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index f6b0896..a112af9 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -1844,6 +1844,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
         // adjust the extent of this arc
         mend = p0;
         meang = a0;
+        NORMALIZE_ANGLES( msang, meang );
 
         return true;
     }
@@ -1931,6 +1932,7 @@ bool MCAD_SEGMENT::splitArc( std::list<MCAD_POINT>& aIntersectList,
     // adjust the extent of this arc
     mend = p0;
     meang = a0;
+    NORMALIZE_ANGLES( msang, meang );
 
     return true;
 }
-- 
2.43.0


From 7f0c799eeeaa60dcab3a6ebb0bed04c822457db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:53 +0000
Subject: [PATCH 104/113] fix: an intersection must be looked for on the other
 arc by its angle around that arc's centre

---
 src/geom/mcad_segment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geom/mcad_segment.cpp b/src/geom/mcad_segment.cpp
index a112af9..f057f31 100644
--- a/src/geom/mcad_segment.cpp
+++ b/src/geom/mcad_segment.cpp
@@ -763,8 +763,8 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
     }
     else
     {
-        // check if each point lies on the arc
-        tang = angX0;
+        // check if each point lies on the other arc
+        tang = atan2( p1.y - c2.y, p1.x - c2.x );
 
         if( tang > b1 )
             tang -= 2.0 * M_PI;
@@ -777,7 +777,7 @@ bool MCAD_SEGMENT::checkArcs( const MCAD_SEGMENT& aSegment,
             ++isOnArc[0];
         }
 
-        tang = angX1;
+        tang = atan2( p2.y - c2.y, p2.x - c2.x );
 
         if( tang > b1 )
             tang -= 2.0 * M_PI;
-- 
2.43.0


From 0bab9ecf5e2a67b45cac75506ccdded38a6cfeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:10 +0000
Subject: [PATCH 105/113] fix: the point-in-outline test must use the current
 extent of the outline

---
 src/geom/mcad_outline.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index b7c11d5..023ffef 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -299,6 +299,10 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     //    are <= aPoint.y.
     // 3. odd nodes = inside, even nodes = outside
 
+    // the extent is stale if the outline has been operated upon
+    if( !mBBisOK )
+        calcBoundingBox();
+
     MCAD_POINT bb0 = mBottomLeft;
     MCAD_POINT bb1 = mTopRight;
 
-- 
2.43.0


From bcb226a6bd11aa40a8b5d53d7ea73947272a151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:10 +0000
Subject: [PATCH 106/113] fix: outlines must be joined at their actual end
 points also where the segments are clockwise arcs

---
 src/geom/mcad_outline.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 023ffef..2c1b790 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1880,13 +1880,13 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
             else
                 --tmpT;
 
-            lastPt = (*tmpT)->GetEnd();
+            lastPt = (*tmpT)->mend;
 
         } while(0);
 
         // ensure that we start with the segment whose Start Point matches lastPt;
         // this maintains the correct segment order.
-        while( !PointMatches( (*eT)->GetStart(), lastPt, 1e-8 ) )
+        while( !PointMatches( (*eT)->mstart, lastPt, 1e-8 ) )
         {
             ++eT;
 
-- 
2.43.0


From f59155bad9fb34d968b1d306b2a5499a12936b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:27 +0000
Subject: [PATCH 107/113] fix: a circle which leaves only the middle of a
 segment must not break the outline

---
 src/geom/mcad_outline.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 2c1b790..0d42ea3 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1019,6 +1019,22 @@ bool MCAD_OUTLINE::opOutline( MCAD_SEGMENT* aCircle, bool& error, bool opsub )
                 return false;
             }
 
+            if( !PointMatches( sList.front()->mstart, pF[0], 1e-8 ) )
+            {
+                // the arc joins the end of the middle section to its
+                // start; only the middle section and the arc remain
+                while( !msegments.empty() )
+                {
+                    delete msegments.back();
+                    msegments.pop_back();
+                }
+
+                delete sList.back();
+                msegments.push_back( sList.front() );
+                msegments.push_back( sp );
+                return true;
+            }
+
             // replace the first new segment with the arc
             delete sList.front();
             sList.pop_front();
-- 
2.43.0


From 2f810b970871265476feb45540e2a6751786db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 108/113] fix: a subtracted outline must be joined from its
 last kept segment backwards

---
 src/geom/mcad_outline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index 0d42ea3..a8e1f11 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -1833,7 +1833,7 @@ bool MCAD_OUTLINE::opOutline( MCAD_OUTLINE* aOutline, bool& error, bool opsub )
         }
 
         aOutline->msegments = tSegs;
-        oSegs.front() = --aOutline->msegments.end();
+        oSegs.front() = aOutline->msegments.begin();
         eSegO = --aOutline->msegments.end();
     }
 
-- 
2.43.0


From 87f1e789111250c42af38db0b87f510e49c7aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:26 +0000
Subject: [PATCH 109/113] fix: the point-in-outline test must not fail where an
 edge is parallel to the axes

---
 src/geom/mcad_outline.cpp | 122 +++++++++++++-------------------------
 1 file changed, 41 insertions(+), 81 deletions(-)

diff --git a/src/geom/mcad_outline.cpp b/src/geom/mcad_outline.cpp
index a8e1f11..8d0809d 100644
--- a/src/geom/mcad_outline.cpp
+++ b/src/geom/mcad_outline.cpp
@@ -292,12 +292,15 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     }
 
     // Steps:
-    // 1. take a line passing through this point and directly to the
-    //    left or right, whichever is the shortest segment.
-    // 2. count nodes: IF an intersection is an endpoint, only
-    //    count it as a node if ALL points of the segment touched
-    //    are <= aPoint.y.
-    // 3. odd nodes = inside, even nodes = outside
+    // 1. take a line passing from this point to a point beyond the
+    //    left or right extent of the outline, whichever is closer.
+    // 2. count the intersections; a line which passes through an
+    //    endpoint of a segment or touches a segment tangentially cannot
+    //    be relied upon so try again with a different slope. For this
+    //    reason the line must not be parallel to the axes: edges which
+    //    are parallel to the axes are very common and the endpoints of
+    //    such edges would be hit to within rounding errors.
+    // 3. odd intersections = inside, even = outside
 
     // the extent is stale if the outline has been operated upon
     if( !mBBisOK )
@@ -319,96 +322,53 @@ bool MCAD_OUTLINE::IsInside( MCAD_POINT aPoint, bool& error )
     else
         p2.x = bb1.x;
 
-    p2.y = aPoint.y;
-
-    MCAD_SEGMENT ls0;
-    ls0.SetParams( aPoint, p2 );
+    static const double slopes[4] = { 0.371904, -0.287131, 0.613107, -0.745713 };
     int nI = 0; // number of intersections with the outline
 
-    list<MCAD_SEGMENT*>::iterator sSegs = msegments.begin();
-    list<MCAD_SEGMENT*>::iterator eSegs = msegments.end();
-    list<MCAD_POINT> iList;
-    MCAD_INTERSECT_FLAG flag;
+    for( int i = 0; i < 4; ++i )
+    {
+        p2.y = aPoint.y + slopes[i] * ( p2.x - aPoint.x );
 
-    int acc = 0;
+        MCAD_SEGMENT ls0;
+        ls0.SetParams( aPoint, p2 );
+        bool suitable = true;
+        nI = 0;
 
-    while( sSegs != eSegs )
-    {
-        if( (*sSegs)->GetIntersections( ls0, iList, flag ) )
+        list<MCAD_SEGMENT*>::iterator sSegs = msegments.begin();
+        list<MCAD_SEGMENT*>::iterator eSegs = msegments.end();
+
+        while( sSegs != eSegs )
         {
-            list<MCAD_POINT>::iterator sL = iList.begin();
-            list<MCAD_POINT>::iterator eL = iList.end();
+            list<MCAD_POINT> iList;
+            MCAD_INTERSECT_FLAG flag = MCAD_IFLAG_NONE;
 
-            while( sL != eL )
+            if( (*sSegs)->GetIntersections( ls0, iList, flag ) )
             {
-                // note: handle the case of a circle differently
-                if( MCAD_SEGTYPE_CIRCLE == (*sSegs)->GetSegType() )
-                {
-                    ++nI;
-                }
-                else
-                {
-                    bool isEnd0 = PointMatches( *sL, (*sSegs)->mstart, 1e-8 );
-                    bool isEnd1 = PointMatches( *sL, (*sSegs)->mend, 1e-8 );
-
-                    if( isEnd0 || isEnd1 )
-                    {
-                        (*sSegs)->GetBoundingBox( bb0, bb1 );
-
-                        if( bb0.y <= aPoint.y && bb1.y <= aPoint.y )
-                        {
-                            ++nI;
-                        }
-                        else
-                        {
-                            // it is possible for the simple bounding box test to
-                            // fail if the endpoint is on an arc; in such cases
-                            // we must check the bounds of the adjacent curve and
-                            // increment nI is those bounds are exclusively >= aPoint.y
-                            if( MCAD_SEGTYPE_ARC == (*sSegs)->GetSegType() && bb0.y < aPoint.y )
-                            {
-                                list<MCAD_SEGMENT*>::iterator tSeg = sSegs;
-
-                                if( isEnd1 )
-                                {
-                                    ++tSeg;
-
-                                    if( tSeg == eSegs )
-                                        tSeg = msegments.begin();
-                                }
-                                else if ( tSeg == msegments.begin() )
-                                {
-                                    tSeg = --msegments.end();
-                                }
-                                else
-                                {
-                                    --tSeg;
-                                }
-
-                                (*tSeg)->GetBoundingBox( bb0, bb1 );
-
-                                if( bb0.y >= aPoint.y && bb1.y >= aPoint.y )
-                                {
-                                    ++nI;
-                                }
-
-                            }
-                        }
+                list<MCAD_POINT>::iterator sL = iList.begin();
+                list<MCAD_POINT>::iterator eL = iList.end();
 
-                    }
-                    else
+                while( sL != eL )
+                {
+                    if( MCAD_SEGTYPE_CIRCLE != (*sSegs)->GetSegType()
+                        && ( PointMatches( *sL, (*sSegs)->mstart, 1e-8 )
+                        || PointMatches( *sL, (*sSegs)->mend, 1e-8 ) ) )
                     {
-                        ++nI;
+                        suitable = false;
                     }
-                }
 
-                ++sL;
+                    ++nI;
+                    ++sL;
+                }
             }
 
-            iList.clear();
+            if( MCAD_IFLAG_TANGENT == flag )
+                suitable = false;
+
+            ++sSegs;
         }
 
-        ++sSegs;
+        if( suitable )
+            break;
     }
 
     // note: an odd number means the point is inside the outline
-- 
2.43.0


From fab3d510a80d327b3ad48b88ff39f87f89b5f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:47 +0000
Subject: [PATCH 110/113] fix: entity 164: check the type of the curve before
 it records a reference

---
 src/entities/entity164.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/entities/entity164.cpp b/src/entities/entity164.cpp
index 95370c2..6f83930 100644
--- a/src/entities/entity164.cpp
+++ b/src/entities/entity164.cpp
@@ -95,26 +95,30 @@ bool IGES_ENTITY_164::associate(std::vector<IGES_ENTITY *> *entities)
         return false;
     }
 
-    bool dup = false;
+    // note: the type must be checked first; an entity which is not kept
+    // must not hold a reference to this entity
+    PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
 
-    if( !(*entities)[iEnt]->addReference(this, dup) )
+    if( NULL == PTR )
     {
         ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
+        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
         return false;
     }
 
-    if( dup )
+    bool dup = false;
+
+    if( !PTR->addReference(this, dup) )
     {
-        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
+        PTR = NULL;
+        ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
         return false;
     }
 
-    PTR = dynamic_cast<IGES_CURVE*>((*entities)[iEnt]);
-
-    if( NULL == PTR )
+    if( dup )
     {
-        ERRMSG << "\n + [INFO] could not establish reference to child entity\n";
-        cerr << " + Child Entity Type " << ((*entities)[iEnt])->GetEntityType() << "\n";
+        PTR = NULL;
+        ERRMSG << "\n + [CORRUPT FILE]: adding duplicate entry\n";
         return false;
     }
 
-- 
2.43.0


From 70481e74d540947aa9e66b8529d1be95c10df386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:47 +0000
Subject: [PATCH 111/113] fix: entity 144: a repeated cutout does not make it
 forget its surface

---
 src/entities/entity144.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index 36d9fa6..b80b2eb 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -268,7 +268,6 @@ bool IGES_ENTITY_144::associate(std::vector<IGES_ENTITY *> *entities)
         if( dup )
         {
             ERRMSG << "\n + [BUG]: adding duplicate entry\n";
-            PTS = NULL;
             iPTI.clear();
             return false;
         }
-- 
2.43.0


From 77bed5eea013497683f50f876051b01e559f912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 112/113] fix: entity 180: a repeated operand is not referred
 to twice

---
 src/entities/entity180.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index b3e7b0f..dfe458c 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -155,8 +155,6 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
-                (*sn)->pEnt = (*entities)[iEnt];
-
                 if( !(*entities)[iEnt]->addReference(this, dup) )
                 {
                     ERRMSG << "\n + [INFO] unable to add reference to child entity\n";
@@ -169,6 +167,8 @@ bool IGES_ENTITY_180::associate(std::vector<IGES_ENTITY *> *entities)
                     return false;
                 }
 
+                // only an entity which records the reference is referred to
+                (*sn)->pEnt = (*entities)[iEnt];
             }
             else
             {
-- 
2.43.0


From 875d664818bad02e4dc23dc4e5b7826c5b2b3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:51 +0000
Subject: [PATCH 113/113] fix: the offsets of a component on the bottom are
 mirrored on reading

---
 src/idf/idf2igs.cpp    | 8 ++++++++
 src/idf/idf_parser.cpp | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/idf/idf2igs.cpp b/src/idf/idf2igs.cpp
index 0794b7b..1a7b458 100644
--- a/src/idf/idf2igs.cpp
+++ b/src/idf/idf2igs.cpp
@@ -928,6 +928,14 @@ bool MakeComponents( IDF3_BOARD& board, DLL_IGES& model )
 
             // retrieve the additional component and orientation offsets
             (*so)->GetOffsets( tX, tY, tZ, tA );
+
+            // the offsets of a component on the bottom are mirrored
+            if( bottom )
+            {
+                tX = -tX;
+                tA = -tA;
+            }
+
             tX += vX;
             tY += vY;
             tZ += th;
diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 51deb71..1a4530e 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -694,6 +694,13 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
             xoff -= tX;
             yoff -= tY;
             aoff -= tA;
+
+            // the offsets of a component on the bottom are mirrored; see writePlaceData
+            if( LYR_BOTTOM == side )
+            {
+                xoff = -xoff;
+                aoff = -aoff;
+            }
         }
         else
         {
-- 
2.43.0

