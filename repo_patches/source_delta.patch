From b2813b95837ed89a215aa02f524f50ea2d5ddf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 01/72] fix: report failures to open, write or close the output
 of write_devices

The writers tested bad() after open, which is not set when opening fails,
never looked at the stream after writing and closing, and with several
devices kept only the status of the last one.
---
 src/meshing/DevsimRestartWriter.cc | 33 +++++++++++++++++++++---------
 src/meshing/DevsimWriter.cc        | 33 +++++++++++++++++++++---------
 src/meshing/TecplotWriter.cc       | 21 ++++++++++++++-----
 src/meshing/VTKWriter.cc           | 17 ++++++++++++---
 4 files changed, 76 insertions(+), 28 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 69bd1ee..5d82b81 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -405,7 +405,7 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -413,6 +413,12 @@ bool DevsimRestartWriter::WriteMesh_(const std::string &deviceName, const std::s
     else
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -425,21 +431,28 @@ bool DevsimRestartWriter::WriteMeshes_(const std::string &filename, MeshWriterTe
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
     }
-
-    GlobalData   &gdata = GlobalData::GetInstance();
-    const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
-    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+    else
     {
-        const std::string &dname = dit->first;
-        ret = WriteSingleDevice(dname, myfile, errorString);
-    }
+        GlobalData   &gdata = GlobalData::GetInstance();
+        const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
+        for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+        {
+            const std::string &dname = dit->first;
+            ret = WriteSingleDevice(dname, myfile, errorString) && ret;
+        }
 
-    myfile.close();
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/DevsimWriter.cc b/src/meshing/DevsimWriter.cc
index 5e1f65a..2437f35 100644
--- a/src/meshing/DevsimWriter.cc
+++ b/src/meshing/DevsimWriter.cc
@@ -244,7 +244,7 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
@@ -252,6 +252,12 @@ bool DevsimWriter::WriteMesh_(const std::string &deviceName, const std::string &
     else
     {
         ret = WriteSingleDevice(deviceName, myfile, errorString);
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -264,21 +270,28 @@ bool DevsimWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t, s
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open \"" << filename << "\" for writing\n";
     }
-
-    GlobalData   &gdata = GlobalData::GetInstance();
-    const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
-    for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+    else
     {
-        const std::string &dname = dit->first;
-        ret = WriteSingleDevice(dname, myfile, errorString);
-    }
+        GlobalData   &gdata = GlobalData::GetInstance();
+        const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
+        for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
+        {
+            const std::string &dname = dit->first;
+            ret = WriteSingleDevice(dname, myfile, errorString) && ret;
+        }
 
-    myfile.close();
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write \"" << filename << "\"\n";
+        }
+    }
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index ba61f36..ee1c0d7 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -797,7 +797,7 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -805,6 +805,12 @@ bool TecplotWriter::WriteMesh_(const std::string &deviceName, const std::string
     else
     {
         ret = Tecplot::WriteSingleDevice(deviceName, myfile, include_test, errorString);
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write " << filename << "\n";
+        }
     }
     errorString += os.str();
     return ret;
@@ -817,7 +823,7 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
 
     std::ofstream myfile;
     myfile.open (filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (myfile.bad())
+    if (!myfile)
     {
         ret = false;
         os << "Could not open " << filename << " for writing\n";
@@ -826,20 +832,25 @@ bool TecplotWriter::WriteMeshes_(const std::string &filename, MeshWriterTest_t i
     GlobalData   &gdata = GlobalData::GetInstance();
     const GlobalData::DeviceList_t &dlist = gdata.GetDeviceList();
 
-    if (dlist.size() > 1)
+    if (ret && (dlist.size() > 1))
     {
         ret = false;
         os << "More than 1 device in simulation when output format only supports one device.\n";
     }
-    else
+    else if (ret)
     {
         for (GlobalData::DeviceList_t::const_iterator dit = dlist.begin(); dit != dlist.end(); ++dit)
         {
             const std::string &dname = dit->first;
             ret = Tecplot::WriteSingleDevice(dname, myfile, include_test, errorString);
         }
+        myfile.close();
+        if (!myfile)
+        {
+            ret = false;
+            os << "Could not write " << filename << "\n";
+        }
     }
-    myfile.close();
 
     errorString += os.str();
     return ret;
diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index 1c7f35a..e936b33 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -474,12 +474,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     std::ofstream visitfile;
     vtmfile.open (vtmfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
     visitfile.open (visitfilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-    if (vtmfile.bad())
+    if (!vtmfile)
     {
       ret = false;
       os << "Could not open " << vtmfilename << " for writing\n";
     }
-    else if (visitfile.bad())
+    else if (!visitfile)
     {
       ret = false;
       os << "Could not open " << visitfilename << " for writing\n";
@@ -503,7 +503,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
         std::ofstream vtufile;
         vtufile.open (vtufilename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);
-        if (vtufile.bad())
+        if (!vtufile)
         {
             ret = false;
             os << "Could not open " << vtufilename << " for writing\n";
@@ -521,6 +521,12 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
 
           vtufile << "\n";
           vtufile.close();
+          if (!vtufile)
+          {
+            ret = false;
+            os << "Could not write " << vtufilename << "\n";
+            break;
+          }
           vtufiles.push_back(vtufilename);
         }
         ++i;
@@ -549,6 +555,11 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
     }
     vtmfile.close();
     visitfile.close();
+    if (ret && (!vtmfile || !visitfile))
+    {
+      ret = false;
+      os << "Could not write " << vtmfilename << " and " << visitfilename << "\n";
+    }
   }
   errorString += os.str();
   return ret;
-- 
2.43.0


From 06530b43672c1106261dbc16e59d257d0af79c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 02/72] fix: failed loads of device files leave nothing behind

A file that ended inside a device was accepted, a failed load left the mesh
and the device in the session and the scanner in the state where it stopped,
the file was never closed, a zero or non ASCII byte was taken as the end of the
file, and a read error ended the process.
---
 src/meshing/DevsimScanner.l | 107 ++++++++++++++++++++++++++++++++----
 1 file changed, 97 insertions(+), 10 deletions(-)

diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 004ac56..25aedbb 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -9,7 +9,14 @@ SPDX-License-Identifier: Apache-2.0
 #include "Devsimyystype.hh"
 #include "DevsimReader.hh"
 #include "DevsimParser.hh"
+#include "DevsimLoader.hh"
+#include "GlobalData.hh"
+#include "MeshKeeper.hh"
+#include "dsException.hh"
+#include <set>
 #include <sstream>
+// an error of the scanner must not end the process
+#define YY_FATAL_ERROR(msg) throw dsException(msg)
 #define YY_NO_UNPUT
 #ifdef _WIN32
 #include <io.h>
@@ -307,41 +314,121 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
               return WORD;
            }
 
-<*>.   {return yytext[0];}
+<*>.   {
+              // a zero would be taken as the end of the file
+              const int c = static_cast<unsigned char>(yytext[0]);
+              return c ? c : 1;
+           }
 %%
 
 int Devsimparse();
 
 namespace dsDevsimParse {
+namespace {
+std::set<std::string> GetMeshNames()
+{
+    std::set<std::string> ret;
+    for (auto &m : dsMesh::MeshKeeper::GetInstance().GetMeshList())
+    {
+        ret.insert(m.first);
+    }
+    return ret;
+}
+
+std::set<std::string> GetDeviceNames()
+{
+    std::set<std::string> ret;
+    for (auto &d : GlobalData::GetInstance().GetDeviceList())
+    {
+        ret.insert(d.first);
+    }
+    return ret;
+}
+
+//// leaves the scanner and the parser ready for the next file
+void EndOfLoad()
+{
+    if (YY_CURRENT_BUFFER)
+    {
+        yy_delete_buffer(YY_CURRENT_BUFFER);
+    }
+    while (yy_start_stack_ptr > 0)
+    {
+        yy_pop_state();
+    }
+    BEGIN(INITIAL);
+    fclose(Devsimin);
+    Devsimin = nullptr;
+    dsDevsimParse::DevsimLoader = nullptr;
+    dsDevsimParse::DeletePointers();
+}
+
+//// removes what an incomplete load has left behind
+void UndoLoad(const std::set<std::string> &meshes, const std::set<std::string> &devices)
+{
+    for (auto &d : GetDeviceNames())
+    {
+        if (!devices.count(d))
+        {
+            GlobalData::GetInstance().DeleteDevice(d);
+        }
+    }
+    for (auto &m : GetMeshNames())
+    {
+        if (!meshes.count(m))
+        {
+            dsMesh::MeshKeeper::GetInstance().DeleteMesh(m);
+        }
+    }
+}
+}
+
 bool LoadMeshes(const std::string &fname, std::string &errorString)
 {
-    bool ret = false;
     dsDevsimParse::errors.clear();
     dsDevsimParse::meshlineno = 1;
 
     Devsimin = fopen(fname.c_str(), "r");
 
-    int retval = 1;
-
     if ( !Devsimin )
     {
         std::ostringstream os;
         os << "Could not open file " << fname << "\n";
         errorString += os.str();
+        return false;
     }
-    else
+
+    const std::set<std::string> &meshes  = GetMeshNames();
+    const std::set<std::string> &devices = GetDeviceNames();
+
+    int retval = 1;
+    try
     {
         Devsim_switch_to_buffer(Devsim_create_buffer( Devsimin, YY_BUF_SIZE ) );
         retval = Devsimparse();
-        yy_delete_buffer( YY_CURRENT_BUFFER );
+        if (!retval && dsDevsimParse::DevsimLoader)
+        {
+            std::ostringstream os;
+            os << "ERROR: unexpected end of file while loading device " << dsDevsimParse::DevsimLoader->GetName() << "\n";
+            dsDevsimParse::errors += os.str();
+            retval = 1;
+        }
+    }
+    catch (...)
+    {
+        EndOfLoad();
+        UndoLoad(meshes, devices);
+        throw;
     }
 
+    EndOfLoad();
+    if (retval)
+    {
+        UndoLoad(meshes, devices);
+    }
 
-    ret = !retval;
-
-    dsDevsimParse::DeletePointers();
     errorString += dsDevsimParse::errors;
-    return ret;
+    return !retval;
 }
 }
 
-- 
2.43.0


From 278f1f7c3e93d4467295295fdf8dc3b807d6f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 03/72] fix: a circuit that holds only the ground node adds no
 equations

---
 src/Circuit/data/NodeKeeper.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 9f8847d..410445c 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -495,7 +495,15 @@ double NodeKeeper::GetRelError(const std::string &nm)
 
 bool NodeKeeper::HaveNodes()
 {
-    return NodeTable_.size() != 0;
+    // the ground node is created by every circuit command and has no equation
+    for (auto &n : NodeTable_)
+    {
+        if (!n.second->isGROUND())
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 bool NodeKeeper::IsCircuitNode(const std::string &name)
-- 
2.43.0


From 326cc481386f35f60c287d6921bf94d42aef5577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 04/72] fix: interfaces and contacts of loaded devices that do
 not match their regions are errors, node pairs keep their order

---
 src/meshing/DevsimLoader.cc | 68 ++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 66e229f..4e00f03 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -252,12 +252,12 @@ bool DevsimLoader::RunCommand(const std::string &commandString, const std::vecto
 
 
 namespace {
-void GetTriangles(MeshRegion &cnt, const RegionPtr rp, ConstTriangleList &ctl)
+bool GetTriangles(MeshRegion &cnt, const RegionPtr rp, ConstTriangleList &ctl)
 {
   ctl.clear();
   if (!cnt.HasTriangles())
   {
-    return;
+    return true;
   }
   const ConstNodeList &nl = rp->GetNodeList();
 
@@ -282,17 +282,23 @@ void GetTriangles(MeshRegion &cnt, const RegionPtr rp, ConstTriangleList &ctl)
       if (tp)
       {
         ctl.push_back(tp);
+        continue;
       }
     }
+    std::ostringstream os;
+    os << "Triangle not found on region " << rp->GetName() << "\n";
+    OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+    return false;
   }
+  return true;
 }
 
-void GetEdges(MeshRegion &cnt, const RegionPtr rp, ConstEdgeList &cel)
+bool GetEdges(MeshRegion &cnt, const RegionPtr rp, ConstEdgeList &cel)
 {
   cel.clear();
   if (!cnt.HasEdges())
   {
-    return;
+    return true;
   }
   const ConstNodeList &nl = rp->GetNodeList();
 
@@ -317,17 +323,23 @@ void GetEdges(MeshRegion &cnt, const RegionPtr rp, ConstEdgeList &cel)
       if (tp)
       {
         cel.push_back(tp);
+        continue;
       }
     }
+    std::ostringstream os;
+    os << "Edge not found on region " << rp->GetName() << "\n";
+    OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+    return false;
   }
+  return true;
 }
 
-void GetNodes(MeshRegion &cnt, const RegionPtr rp, ConstNodeList &cnl)
+bool GetNodes(MeshRegion &cnt, const RegionPtr rp, ConstNodeList &cnl)
 {
   cnl.clear();
   if (!cnt.HasNodes())
   {
-    return;
+    return true;
   }
   const ConstNodeList &nl = rp->GetNodeList();
 
@@ -343,7 +355,12 @@ void GetNodes(MeshRegion &cnt, const RegionPtr rp, ConstNodeList &cnl)
       rnodes = nl[mnodes];
       cnl.push_back(rnodes);
     }
+    else
+    {
+      return false;
+    }
   }
+  return true;
 }
 
 void FixNodePairs(MeshInterface &mint, ConstNodeList &cn0, ConstNodeList &cn1)
@@ -363,10 +380,6 @@ void FixNodePairs(MeshInterface &mint, ConstNodeList &cn0, ConstNodeList &cn1)
     {
       (*jt).second.second = (*it)->GetIndex();
     }
-    else
-    {
-      mmap.erase(jt);
-    }
   }
 
   for (std::map<size_t, std::pair<size_t, size_t> >::iterator it = mmap.begin(); it != mmap.end(); ++it)
@@ -498,8 +511,13 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         }
       }
 
-      GetTriangles(cnt.GetMeshRegion(), rp, ctl);
-      GetEdges(cnt.GetMeshRegion(), rp, cel);
+      if (!GetTriangles(cnt.GetMeshRegion(), rp, ctl) || !GetEdges(cnt.GetMeshRegion(), rp, cel))
+      {
+        ret = false;
+        std::ostringstream os;
+        os << "Contact " << cname << " is not part of region " << rname << "\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
 
 
       if (!ret)
@@ -565,13 +583,21 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
       const ConstNodeList_t &nl0 = node_map[rname0];
       const ConstNodeList_t &nl1 = node_map[rname1];
 
-      MeshInterface::NodePairList_t mnp = mint.GetNodePairs();
+      const MeshInterface::NodePairList_t &mnp = mint.GetNodePairs();
 
       if (mnp.empty())
       {
-        GetNodes(mint.GetMeshRegion0(), rp0, cn0);
-        GetNodes(mint.GetMeshRegion1(), rp1, cn1);
+        if (!GetNodes(mint.GetMeshRegion0(), rp0, cn0) || !GetNodes(mint.GetMeshRegion1(), rp1, cn1))
+        {
+          ret = false;
+          std::ostringstream os;
+          os << "Node index for interface " << iname << " violates bounds\n";
+          OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+        }
         FixNodePairs(mint, cn0, cn1);
+        // the nodes of both sides have to be in the order of the pairs
+        cn0.clear();
+        cn1.clear();
       }
 
       if (!mnp.empty())
@@ -606,10 +632,14 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         }
       }
 
-      GetTriangles(mint.GetMeshRegion0(), rp0, ct0);
-      GetTriangles(mint.GetMeshRegion1(), rp1, ct1);
-      GetEdges(mint.GetMeshRegion0(), rp0, ce0);
-      GetEdges(mint.GetMeshRegion1(), rp1, ce1);
+      if (!GetTriangles(mint.GetMeshRegion0(), rp0, ct0) || !GetTriangles(mint.GetMeshRegion1(), rp1, ct1)
+          || !GetEdges(mint.GetMeshRegion0(), rp0, ce0) || !GetEdges(mint.GetMeshRegion1(), rp1, ce1))
+      {
+        ret = false;
+        std::ostringstream os;
+        os << "Interface " << iname << " is not part of regions " << rname0 << " and " << rname1 << "\n";
+        OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      }
 
       if (!ret)
       {
-- 
2.43.0


From 92d2c3f71e9f9c13aabd24aabe20b65a8e43fd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 05/72] fix: statements outside of their block and inconsistent
 meshes in device files are errors

---
 src/Geometry/Region.cc      | 17 ++++++++++++++
 src/meshing/DevsimParser.y  | 47 ++++++++++++++++++++-----------------
 src/meshing/DevsimReader.cc | 19 +++++++++++----
 src/meshing/DevsimReader.hh | 43 +++++++++++++++++++++++++++++----
 src/meshing/DevsimScanner.l |  9 +++++++
 5 files changed, 104 insertions(+), 31 deletions(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 03d4b25..1668474 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -538,6 +538,12 @@ void Region::CreateTriangleToEdgeList()
       }
     }
   }
+
+  for (size_t i = 0; i < triangleToEdgeList.size(); ++i)
+  {
+    const ConstEdgeList &el = triangleToEdgeList[i];
+    dsAssert(el[0] && el[1] && el[2], "triangle without its edges");
+  }
 }
 
 //// Ripoff of CreateTriangleToEdgeList
@@ -605,6 +611,11 @@ void Region::CreateTetrahedronToEdgeDataList()
 #endif
     }
   }
+
+  for (size_t i = 0; i < tetrahedronToEdgeDataList.size(); ++i)
+  {
+    dsAssert(tetrahedronToEdgeDataList[i].size() == 6, "tetrahedron without its edges");
+  }
 }
 
 /// Requires Node, edge, triangle, and tetrahedron indices to be set
@@ -685,6 +696,12 @@ void Region::CreateTetrahedronToTriangleList()
       }
     }
   }
+
+  for (size_t i = 0; i < tetrahedronToTriangleList.size(); ++i)
+  {
+    const ConstTriangleList &el = tetrahedronToTriangleList[i];
+    dsAssert(el[0] && el[1] && el[2] && el[3], "tetrahedron without its triangles");
+  }
 }
 
 void Region::SetTriangleCenters()
diff --git a/src/meshing/DevsimParser.y b/src/meshing/DevsimParser.y
index 1821327..50eecee 100644
--- a/src/meshing/DevsimParser.y
+++ b/src/meshing/DevsimParser.y
@@ -60,7 +60,7 @@ begin_devicecmd : BEG_DEVICE WORD  {
     if (dsDevsimParse::DevsimLoader)
     {
         std::ostringstream os;
-        os << "ERROR: currently trying to load another device " << dsDevsimParse::DevsimLoader->GetName() << "\n";
+        os << "ERROR: currently trying to load another device " << dsDevsimParse::CurrentLoader().GetName() << "\n";
         Devsimerror(os.str().c_str());
         YYABORT;
     }
@@ -82,13 +82,18 @@ begin_devicecmd : BEG_DEVICE WORD  {
 
 end_devicecmd : END_DEVICE {
   std::string errorString;
-  bool ret = dsDevsimParse::DevsimLoader->Finalize(errorString);
+  if (dsDevsimParse::MeshRegion || dsDevsimParse::MeshContact || dsDevsimParse::MeshInterface || dsDevsimParse::Sol || dsDevsimParse::Equation)
+  {
+    Devsimerror("ERROR: end of device inside of another block\n");
+    YYABORT;
+  }
+  bool ret = dsDevsimParse::CurrentLoader().Finalize(errorString);
   if (ret)
   {
-    std::string deviceName = dsDevsimParse::DevsimLoader->GetName();
+    std::string deviceName = dsDevsimParse::CurrentLoader().GetName();
     //// should we finalize and instantiate by default ????
     //// or should this be the last step for the user
-    ret = dsDevsimParse::DevsimLoader->Instantiate(dsDevsimParse::DevsimLoader->GetName(), errorString);
+    ret = dsDevsimParse::CurrentLoader().Instantiate(dsDevsimParse::CurrentLoader().GetName(), errorString);
     dsDevsimParse::DevsimLoader = nullptr;
   }
 
@@ -108,7 +113,7 @@ coordinates : BEG_COORD
 
 coordinate : number number number
         {
-            dsDevsimParse::DevsimLoader->AddCoordinate(dsMesh::MeshCoordinate($1, $2, $3));
+            dsDevsimParse::CurrentLoader().AddCoordinate(dsMesh::MeshCoordinate($1, $2, $3));
         }
         ;
 
@@ -129,7 +134,7 @@ region : BEG_REGION WORD WORD  {
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
-            else if (dsDevsimParse::DevsimLoader->IsMeshRegion($2))
+            else if (dsDevsimParse::CurrentLoader().IsMeshRegion($2))
             {
                 std::ostringstream os;
                 os << "ERROR: region already exists on device " << $2 << "\n";
@@ -151,7 +156,7 @@ region : BEG_REGION WORD WORD  {
             }
             else
             {
-                dsDevsimParse::DevsimLoader->AddRegion(std::move(dsDevsimParse::MeshRegion));
+                dsDevsimParse::CurrentLoader().AddRegion(dsDevsimParse::MeshRegion.Take());
             }
         } |
         region nodes |
@@ -509,7 +514,7 @@ contact : BEG_CONTACT WORD WORD WORD  {
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
-            else if (dsDevsimParse::DevsimLoader->IsMeshContact($2))
+            else if (dsDevsimParse::CurrentLoader().IsMeshContact($2))
             {
                 std::ostringstream os;
                 os << "ERROR: contact already exists on device " << $2 << "\n";
@@ -531,7 +536,7 @@ contact : BEG_CONTACT WORD WORD WORD  {
             }
             else
             {
-                dsDevsimParse::DevsimLoader->AddContact(std::move(dsDevsimParse::MeshContact));
+                dsDevsimParse::CurrentLoader().AddContact(dsDevsimParse::MeshContact.Take());
             }
         } |
         contact contact_nodes |
@@ -548,7 +553,7 @@ interface : BEG_INTERFACE WORD WORD WORD  {
                 Devsimerror(os.str().c_str());
                 YYABORT;
             }
-            else if (dsDevsimParse::DevsimLoader->IsMeshInterface($2))
+            else if (dsDevsimParse::CurrentLoader().IsMeshInterface($2))
             {
                 std::ostringstream os;
                 os << "ERROR: interface already exists on device " << $2 << "\n";
@@ -570,7 +575,7 @@ interface : BEG_INTERFACE WORD WORD WORD  {
             }
             else
             {
-                dsDevsimParse::DevsimLoader->AddInterface(std::move(dsDevsimParse::MeshInterface));
+                dsDevsimParse::CurrentLoader().AddInterface(dsDevsimParse::MeshInterface.Take());
             }
         } |
         interface interface_nodes |
@@ -608,7 +613,7 @@ nodesol : BEG_NODESOL WORD  {
             dsDevsimParse::Sol->AddValue($2);
         } |
         nodesol END_NODESOL  {
-            dsDevsimParse::MeshRegion->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshRegion->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
@@ -634,7 +639,7 @@ regionequation : BEG_REGIONEQUATION WORD  {
         } |
         regionequation equation_command |
         regionequation END_REGIONEQUATION  {
-            dsDevsimParse::MeshRegion->AddEquation(std::move(dsDevsimParse::Equation));
+            dsDevsimParse::MeshRegion->AddEquation(dsDevsimParse::Equation.Take());
         }
         ;
 
@@ -660,7 +665,7 @@ contactequation : BEG_CONTACTEQUATION WORD  {
         } |
         contactequation equation_command |
         contactequation END_CONTACTEQUATION  {
-            dsDevsimParse::MeshContact->AddEquation(std::move(dsDevsimParse::Equation));
+            dsDevsimParse::MeshContact->AddEquation(dsDevsimParse::Equation.Take());
         }
         ;
 
@@ -686,7 +691,7 @@ interfaceequation : BEG_INTERFACEEQUATION WORD  {
         } |
         interfaceequation equation_command |
         interfaceequation END_INTERFACEEQUATION  {
-            dsDevsimParse::MeshInterface->AddEquation(std::move(dsDevsimParse::Equation));
+            dsDevsimParse::MeshInterface->AddEquation(dsDevsimParse::Equation.Take());
         }
         ;
 
@@ -718,7 +723,7 @@ nodemodel : BEG_NODEMODEL WORD  {
         nodemodel uniform |
         nodemodel command |
         nodemodel END_NODEMODEL  {
-            dsDevsimParse::MeshRegion->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshRegion->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
@@ -750,7 +755,7 @@ edgemodel : BEG_EDGEMODEL WORD  {
         edgemodel uniform |
         edgemodel command |
         edgemodel END_EDGEMODEL  {
-            dsDevsimParse::MeshRegion->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshRegion->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
@@ -782,7 +787,7 @@ triangleedgemodel : BEG_TRIANGLEEDGEMODEL WORD  {
         triangleedgemodel uniform |
         triangleedgemodel command |
         triangleedgemodel END_TRIANGLEEDGEMODEL  {
-            dsDevsimParse::MeshRegion->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshRegion->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
@@ -814,7 +819,7 @@ tetrahedronedgemodel : BEG_TETRAHEDRONEDGEMODEL WORD  {
         tetrahedronedgemodel uniform |
         tetrahedronedgemodel command |
         tetrahedronedgemodel END_TETRAHEDRONEDGEMODEL  {
-            dsDevsimParse::MeshRegion->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshRegion->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
@@ -841,7 +846,7 @@ interfacenodemodel : BEG_INTERFACENODEMODEL WORD  {
         } |
         interfacenodemodel command |
         interfacenodemodel END_INTERFACENODEMODEL  {
-            dsDevsimParse::MeshInterface->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshInterface->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
@@ -934,7 +939,7 @@ edgesol : BEG_EDGESOL WORD  {
             dsDevsimParse::Sol->AddValue($2);
         } |
         edgesol END_EDGESOL  {
-            dsDevsimParse::MeshRegion->AddSolution(std::move(dsDevsimParse::Sol));
+            dsDevsimParse::MeshRegion->AddSolution(dsDevsimParse::Sol.Take());
         }
         ;
 
diff --git a/src/meshing/DevsimReader.cc b/src/meshing/DevsimReader.cc
index d0f7927..8b5ab41 100644
--- a/src/meshing/DevsimReader.cc
+++ b/src/meshing/DevsimReader.cc
@@ -11,16 +11,25 @@ SPDX-License-Identifier: Apache-2.0
 namespace dsDevsimParse {
 int meshlineno;
 dsMesh::DevsimLoaderPtr  DevsimLoader;
-dsMesh::MeshRegionPtr    MeshRegion;
-dsMesh::MeshContactPtr   MeshContact;
-dsMesh::MeshInterfacePtr MeshInterface;
-dsMesh::SolutionPtr      Sol;
-dsMesh::EquationPtr      Equation;
+CurrentItem<dsMesh::MeshRegion>    MeshRegion;
+CurrentItem<dsMesh::MeshContact>   MeshContact;
+CurrentItem<dsMesh::MeshInterface> MeshInterface;
+CurrentItem<dsMesh::Solution>      Sol;
+CurrentItem<dsMesh::Equation>      Equation;
 std::string errors;
 }
 
 namespace dsDevsimParse
 {
+dsMesh::DevsimLoader &CurrentLoader()
+{
+    if (!DevsimLoader)
+    {
+        throw dsException("ERROR: statement outside of a device in device file\n");
+    }
+    return *DevsimLoader;
+}
+
 void DeletePointers()
 {
     MeshRegion.reset();
diff --git a/src/meshing/DevsimReader.hh b/src/meshing/DevsimReader.hh
index 6256264..0da1482 100644
--- a/src/meshing/DevsimReader.hh
+++ b/src/meshing/DevsimReader.hh
@@ -8,6 +8,8 @@ SPDX-License-Identifier: Apache-2.0
 #ifndef DEVSIM_READER_HH
 #define DEVSIM_READER_HH
 #include "MeshLoaderStructs.hh"
+#include "dsException.hh"
+#include <memory>
 #include <string>
 #include <cstddef>
 
@@ -19,15 +21,46 @@ typedef DevsimLoader   *DevsimLoaderPtr;
 }
 
 namespace dsDevsimParse {
+/// The item being read.  The grammar lets statements appear outside of their
+/// block, where there is no such item.
+template <typename T> class CurrentItem : public std::unique_ptr<T> {
+    public:
+        using std::unique_ptr<T>::operator=;
+
+        T *operator->() const
+        {
+            Check();
+            return std::unique_ptr<T>::operator->();
+        }
+
+        std::unique_ptr<T> Take()
+        {
+            Check();
+            return std::unique_ptr<T>(this->release());
+        }
+
+    private:
+        void Check() const
+        {
+            if (!*this)
+            {
+                throw dsException("ERROR: statement outside of its block in device file\n");
+            }
+        }
+};
+
 extern int meshlineno;
 extern dsMesh::DevsimLoaderPtr    DevsimLoader;
-extern dsMesh::MeshRegionPtr    MeshRegion;
-extern dsMesh::MeshContactPtr   MeshContact;
-extern dsMesh::MeshInterfacePtr MeshInterface;
-extern dsMesh::SolutionPtr      Sol;
-extern dsMesh::EquationPtr      Equation;
+extern CurrentItem<dsMesh::MeshRegion>    MeshRegion;
+extern CurrentItem<dsMesh::MeshContact>   MeshContact;
+extern CurrentItem<dsMesh::MeshInterface> MeshInterface;
+extern CurrentItem<dsMesh::Solution>      Sol;
+extern CurrentItem<dsMesh::Equation>      Equation;
 extern std::string errors;
 
+/// The device being read, throws outside of a device
+dsMesh::DevsimLoader &CurrentLoader();
+
 void DeletePointers();
 
 bool LoadMeshes(const std::string &/*filename*/, std::string &/*errorString*/);
diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 25aedbb..818c64b 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -13,6 +13,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "GlobalData.hh"
 #include "MeshKeeper.hh"
 #include "dsException.hh"
+#include "FPECheck.hh"
 #include <set>
 #include <sstream>
 // an error of the scanner must not end the process
@@ -413,6 +414,14 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
             dsDevsimParse::errors += os.str();
             retval = 1;
         }
+        else if (!retval && FPECheck::CheckFPE())
+        {
+            std::ostringstream os;
+            os << "ERROR: floating point exception of type \"" << FPECheck::getFPEString() << "\" while loading " << fname << "\n";
+            FPECheck::ClearFPE();
+            dsDevsimParse::errors += os.str();
+            retval = 1;
+        }
     }
     catch (...)
     {
-- 
2.43.0


From 3e410453fff2e11979fe53d2d6daaf2dfba71366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 06/72] fix: reject custom equation entries outside of the
 system

The rows and columns returned by the user's procedure were used as indexes
without being checked.
---
 src/math/Newton.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d603e65..dcf5b2a 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -303,6 +303,32 @@ void Newton<DoubleType>::LoadIntoRHSPermutated(const RHSEntryVec<DoubleType> &r,
   }
 }
 
+namespace {
+// the rows and columns are whatever the user supplied
+template <typename DoubleType>
+void CheckTclEquationRange(const RealRowColValueVec<DoubleType> &mat, const RHSEntryVec<DoubleType> &rhs, size_t numeqns)
+{
+  for (const auto &entry : mat)
+  {
+    if ((static_cast<size_t>(entry.row) >= numeqns) || (static_cast<size_t>(entry.col) >= numeqns))
+    {
+      std::ostringstream os;
+      os << "Error when evaluating custom_equation matrix entry at " << entry.row << " " << entry.col << " is out of range\n";
+      OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
+    }
+  }
+  for (const auto &entry : rhs)
+  {
+    if (static_cast<size_t>(entry.first) >= numeqns)
+    {
+      std::ostringstream os;
+      os << "Error when evaluating custom_equation rhs entry at " << entry.first << " is out of range\n";
+      OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
+    }
+  }
+}
+}
+
 template <typename DoubleType>
 template <typename T>
 void Newton<DoubleType>::LoadMatrixAndRHS(Matrix<DoubleType> &matrix, std::vector<T> &rhs, permvec_t &permvec, dsMathEnum::WhatToLoad w, dsMathEnum::TimeMode t, T scl)
@@ -361,6 +387,8 @@ void Newton<DoubleType>::LoadMatrixAndRHS(Matrix<DoubleType> &matrix, std::vecto
     m.clear();
     v.clear();
     AssembleTclEquations(pm, pv, m, v, w, t);
+    CheckTclEquationRange<DoubleType>(pm, pv, permvec.size());
+    CheckTclEquationRange<DoubleType>(m, v, permvec.size());
     LoadIntoMatrixPermutated(pm, matrix, permvec, scl);
     LoadIntoRHSPermutated(pv, rhs, permvec, scl);
     LoadIntoMatrix(m, matrix, scl);
-- 
2.43.0


From 955ede0cfc642748acf80d457bd10b1b34006d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 07/72] fix: bring the solution back when a solve throws

The solution before the solve was only restored when it did not converge, and
models depending on circuit nodes kept their values.  What may still throw now
comes before the results are stored.
---
 src/math/Newton.cc | 55 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index dcf5b2a..d49ec9e 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -473,6 +473,8 @@ void Newton<DoubleType>::RestoreSolutions()
     if (nk.HaveNodes())
     {
       nk.CopySolution("dcop_prev", "dcop");
+      // models may depend on the values of the nodes
+      nk.TriggerCallbacksOnNodes();
     }
   }
 }
@@ -669,6 +671,25 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
 
   BackupSolutions();
 
+  // the solution before the solve also has to come back when something throws
+  struct RestoreGuard {
+    Newton<DoubleType> &newton;
+    bool active;
+    ~RestoreGuard()
+    {
+      if (active)
+      {
+        try
+        {
+          newton.RestoreSolutions();
+        }
+        catch (...)
+        {
+        }
+      }
+    }
+  } restore_guard{*this, true};
+
   /////
   ///// Permutation vector
   /////
@@ -851,20 +872,22 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
     }
   }
 
+  if (ohm)
+  {
+    (*ohm)["iterations"] = ObjectHolder(iteration_list);
+    (*ohm)["converged"] = ObjectHolder(converged);
+  }
+
   if (!converged)
   {
     RestoreSolutions();
   }
   else
   {
-
-    GlobalData::DeviceList_t::const_iterator dit  = dlist.begin();
-    GlobalData::DeviceList_t::const_iterator dend = dlist.end();
-    for ( ; dit != dend; ++dit)
+    if (timeinfo.IsTransient())
     {
-      std::string name = (dit->first);
-      Device *dev =      (dit->second);
-      dev->UpdateContacts();
+      newI.resize(numeqns);
+      LoadMatrixAndRHS(*matrix, newI, permvec, dsMathEnum::WhatToLoad::RHS, dsMathEnum::TimeMode::DC, static_cast<DoubleType>(1.0));
     }
 
     if (nk.HaveNodes())
@@ -876,20 +899,22 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
       }
     }
 
+    GlobalData::DeviceList_t::const_iterator dit  = dlist.begin();
+    GlobalData::DeviceList_t::const_iterator dend = dlist.end();
+    for ( ; dit != dend; ++dit)
+    {
+      std::string name = (dit->first);
+      Device *dev =      (dit->second);
+      dev->UpdateContacts();
+    }
+
     if (timeinfo.IsTransient())
     {
-      newI.resize(numeqns);
-      LoadMatrixAndRHS(*matrix, newI, permvec, dsMathEnum::WhatToLoad::RHS, dsMathEnum::TimeMode::DC, static_cast<DoubleType>(1.0));
       UpdateTransientCurrent(timeinfo, numeqns, newI, newQ);
     }
-
   }
 
-  if (ohm)
-  {
-    (*ohm)["iterations"] = ObjectHolder(iteration_list);
-    (*ohm)["converged"] = ObjectHolder(converged);
-  }
+  restore_guard.active = false;
 
   return converged;
 }
-- 
2.43.0


From a78d419ec9dcbc69d3930ef3fe43d1009e79913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 08/72] fix: an update that is not a number is never converged

---
 src/Equation/Equation.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Equation/Equation.cc b/src/Equation/Equation.cc
index bde16dd..a7a0651 100644
--- a/src/Equation/Equation.cc
+++ b/src/Equation/Equation.cc
@@ -291,7 +291,8 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
     {
         const DoubleType n1 = abs(upds[i]);
 
-        if (n1 > aerr)
+        // an update that is not a number is never below the error limits
+        if ((n1 > aerr) || (n1 != n1))
         {
           aerr = n1;
           aerr_node = i;
@@ -301,7 +302,7 @@ void Equation<DoubleType>::DefaultUpdate(NodeModel &nm, const dsMath::DoubleVec_
 
         const DoubleType nrerror =  n1 / (n2 + minError);
 
-        if (nrerror > rerr)
+        if ((nrerror > rerr) || (nrerror != nrerror))
         {
             rerr = nrerror;
         }
-- 
2.43.0


From e7816379cbfcc3f4f65108fbc458b866fc34e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 09/72] fix: report a failure to write to the output stream

---
 src/pythonapi/OutputStream.cc | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/pythonapi/OutputStream.cc b/src/pythonapi/OutputStream.cc
index 437922f..e41987b 100644
--- a/src/pythonapi/OutputStream.cc
+++ b/src/pythonapi/OutputStream.cc
@@ -31,38 +31,59 @@ void OutputStream::WriteOut(OutputType ot, Verbosity_t verbosity, const std::str
   }
 
 
-  auto print_function = [](auto &m)->void {
+  auto print_function = [](auto &m)->bool {
     PyObject *tc = PySys_GetObject("stdout");
     if (!tc)
     {
       std::cerr << "Could not find output channel!";
       Py_Exit(-1);
     }
-    PyFile_WriteString(m.c_str(), tc);
-    PyObject_CallMethod(tc, "flush", "");
+    // an exception that is pending is not from this message
+    PyObject *ptype = nullptr;
+    PyObject *pvalue = nullptr;
+    PyObject *ptraceback = nullptr;
+    PyErr_Fetch(&ptype, &pvalue, &ptraceback);
+    bool ok = PyFile_WriteString(m.c_str(), tc) == 0;
+    if (ok)
+    {
+      PyObject *res = PyObject_CallMethod(tc, "flush", "");
+      ok = res != nullptr;
+      Py_XDECREF(res);
+    }
+    PyErr_Clear();
+    PyErr_Restore(ptype, pvalue, ptraceback);
+    return ok;
+  };
+
+  // a message that does not get out must not look like success
+  auto check_print = [print_function](auto &m)->void {
+    if (!print_function(m))
+    {
+      throw dsException("Error writing to the output stream.\n");
+    }
   };
 
   if (ot == OutputType::INFO)
   {
-    print_function(msg);
+    check_print(msg);
   }
   else if (ot == OutputType::VERBOSE1)
   {
     if ((verbosity == Verbosity_t::V1) || (verbosity == Verbosity_t::V2))
     {
-      print_function(msg);
+      check_print(msg);
     }
   }
   else if (ot == OutputType::VERBOSE2)
   {
     if (verbosity == Verbosity_t::V2)
     {
-      print_function(msg);
+      check_print(msg);
     }
   }
   else if (ot == OutputType::ERROR)
   {
-    print_function(msg);
+    check_print(msg);
   }
   else if (ot == OutputType::FATAL)
   {
-- 
2.43.0


From 169496ff3073cabf83a756be17175077d15be8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 10/72] fix: check the result of the back substitution of MKL
 Pardiso

---
 src/math/MKLPardisoPreconditioner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math/MKLPardisoPreconditioner.cc b/src/math/MKLPardisoPreconditioner.cc
index a716ace..60d23cd 100644
--- a/src/math/MKLPardisoPreconditioner.cc
+++ b/src/math/MKLPardisoPreconditioner.cc
@@ -289,6 +289,8 @@ void MKLPardisoData::LUSolveImpl(void *x, const void *b_input)
 
   PARDISO (pt, &maxfct, &mnum, &mtype, &phase,
            &n, a, ia, ja, &idum, &nrhs, &iparm[0], &msglvl, b, x, &error);
+
+  dsAssert(error == 0, "MKL Pardiso failed to solve the factored matrix\n");
 }
 
 template <>
-- 
2.43.0


From c83bbbcc7eb84eaeec9ba5cfa02f8ff510a696bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 11/72] fix: report out of memory without allocating

---
 src/pythonapi/PythonCommands.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pythonapi/PythonCommands.cc b/src/pythonapi/PythonCommands.cc
index 82fa87c..e15826a 100644
--- a/src/pythonapi/PythonCommands.cc
+++ b/src/pythonapi/PythonCommands.cc
@@ -63,9 +63,6 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
 
   FPECheck::ClearFPE();
 
-  std::string command_name = name;
-
-
   if (args)
   {
     if (PyTuple_CheckExact(args))
@@ -73,9 +70,7 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
       size_t argc = PyTuple_Size(args);
       if (argc != 0)
       {
-        std::ostringstream os;
-        os << "Command " << command_name << " does not take positional arguments";
-        PyErr_SetString(GETSTATE(m)->error, os.str().c_str());
+        PyErr_Format(GETSTATE(m)->error, "Command %s does not take positional arguments", name);
         return ret;
       }
     }
@@ -87,10 +82,13 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
   }
 
   std::string errorString;
+  // no string may be needed to report that there is no memory
+  const char *fixedError = nullptr;
   bool        isError = false;
 
   try
   {
+    const std::string command_name = name;
 
     dsGetArgs::CommandInfo command_info;
     command_info.self_         =  m;
@@ -130,11 +128,10 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
     ret = nullptr;
     errorString = x.what();
   }
-  catch (std::bad_alloc &x)
+  catch (const std::bad_alloc &)
   {
     ret = nullptr;
-    errorString = "OUT OF MEMORY\n";
-    errorString += x.what();
+    fixedError = "OUT OF MEMORY\nstd::bad_alloc";
   }
   catch (std::exception &x)
   {
@@ -145,9 +142,12 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
 
   if (FPECheck::CheckFPE())
   {
-    std::ostringstream os;
-    os << "Uncaught FPE: There was an uncaught floating point exception of type \"" << FPECheck::getFPEString() << "\"\n";
-    errorString += os.str();
+    if (!fixedError)
+    {
+      std::ostringstream os;
+      os << "Uncaught FPE: There was an uncaught floating point exception of type \"" << FPECheck::getFPEString() << "\"\n";
+      errorString += os.str();
+    }
 
     FPECheck::ClearFPE();
 
@@ -160,7 +160,7 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
 
   if (!ret)
   {
-    PyErr_SetString(GETSTATE(m)->error, errorString.c_str());
+    PyErr_SetString(GETSTATE(m)->error, fixedError ? fixedError : errorString.c_str());
   }
 
   return ret;
-- 
2.43.0


From a6aa066977d726599f6edd9ca4624fa75e7dcf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 12/72] fix: reject unusable results of a python solver

---
 src/math/ExternalPreconditioner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/ExternalPreconditioner.cc b/src/math/ExternalPreconditioner.cc
index 47daa32..209bcd6 100644
--- a/src/math/ExternalPreconditioner.cc
+++ b/src/math/ExternalPreconditioner.cc
@@ -274,6 +274,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -285,6 +286,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(DoubleVec_t<DoubleType>
           ret = false;
         }
       }
+      dsAssert(ret, error_string);
       auto status = result_dictionary["status"].GetBoolean().second;
       auto message = result_dictionary["message"].GetString();
       error_string += message;
@@ -334,6 +336,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
     if (!ret)
     {
       error_string += "python solver object did not return a dictionary\n";
+      dsAssert(ret, error_string);
     }
     else
     {
@@ -345,6 +348,7 @@ void ExternalPreconditioner<DoubleType>::DerivedLUSolve(ComplexDoubleVec_t<Doubl
           ret = false;
         }
       }
+      dsAssert(ret, error_string);
       auto status = result_dictionary["status"].GetBoolean().second;
       auto message = result_dictionary["message"].GetString();
       error_string += message;
-- 
2.43.0


From 2e53acf27275571f753472d497f84f6ee55b5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 13/72] fix: do not accept a result from a preconditioner that
 is not finite

---
 src/math/IterativeLinearSolver.cc | 7 +++++--
 src/math/gmres.cc                 | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/math/IterativeLinearSolver.cc b/src/math/IterativeLinearSolver.cc
index 223a538..cb874e5 100644
--- a/src/math/IterativeLinearSolver.cc
+++ b/src/math/IterativeLinearSolver.cc
@@ -15,6 +15,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Float128.hh"
 #endif
 
+#include <cmath>
 #include <sstream>
 
 
@@ -38,7 +39,9 @@ bool IterativeLinearSolver<double>::SolveImpl(Matrix<double> &mat, Preconditione
     int m = restart_;
     int iter = linear_iterations_;
     double tol = relative_tolerance_;
-    int ret = GMRES(mat, sol, rhs, pre, m, iter, tol);
+    int linear_convergence = GMRES(mat, sol, rhs, pre, m, iter, tol);
+    // not reaching the tolerance is not an error, but there is no result then
+    ret = std::isfinite(tol);
     std::ostringstream os;
     os
       << "GMRES back vectors " << m
@@ -47,7 +50,7 @@ bool IterativeLinearSolver<double>::SolveImpl(Matrix<double> &mat, Preconditione
       << "/" << linear_iterations_
       << " relative tolerance " << tol
       << "/" << relative_tolerance_
-      << " linear convergence " << ret
+      << " linear convergence " << linear_convergence
       << "\n";
       OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
   }
diff --git a/src/math/gmres.cc b/src/math/gmres.cc
index 9a31fca..a9e4d4e 100644
--- a/src/math/gmres.cc
+++ b/src/math/gmres.cc
@@ -273,6 +273,13 @@ int GMRES(const Operator &A, Vector &x, const Vector &b,
   Vector r = M.solve(b - A * x);
   Real beta = norm(r);
 
+  // the preconditioner failed, and any ratio to it would look small
+  if (!(std::isfinite(normb) && std::isfinite(beta))) {
+    tol = std::isfinite(beta) ? normb : beta;
+    max_iter = 0;
+    return 1;
+  }
+
   if (normb == 0.0)
     normb = 1;
 
-- 
2.43.0


From db7dd84de75ce74e7d57a4278076ca63679c352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 14/72] fix: do not keep a math function table whose
 construction failed

---
 src/MathEval/MathEval.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index d23bca9..dc59a66 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -391,8 +391,17 @@ MathEval<DoubleType> &MathEval<DoubleType>::GetInstance()
 {
   if (!instance_)
   {
-    instance_ = new MathEval();
-    instance_->InitializeBuiltInMathFunc();
+    MathEval *instance = new MathEval();
+    try
+    {
+      instance->InitializeBuiltInMathFunc();
+    }
+    catch (...)
+    {
+      delete instance;
+      throw;
+    }
+    instance_ = instance;
   }
   return *instance_;
 }
-- 
2.43.0


From b017ab5638251b12247a49581c71a60ca6ff4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 15/72] fix: report an unknown math function of constant
 arguments

---
 src/MathEval/MathEval.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MathEval/MathEval.cc b/src/MathEval/MathEval.cc
index dc59a66..17b2d9e 100644
--- a/src/MathEval/MathEval.cc
+++ b/src/MathEval/MathEval.cc
@@ -466,6 +466,12 @@ DoubleType MathEval<DoubleType>::EvaluateMathFunc(const std::string &func, std::
     const Eqomfp::MathWrapper<DoubleType> &MyFunc = *(it->second);
     x = MyFunc.Evaluate(vals, error);
   }
+  else
+  {
+    std::ostringstream os;
+    os << "could not find function \"" << func << "\"";
+    error += os.str();
+  }
 
   return x;
 }
-- 
2.43.0


From a4c5d7346cb261bb9692f9ab06f4e783942c0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 16/72] fix: recalculate dependents when a model is defined or
 replaced

---
 src/Geometry/Interface.cc |  2 ++
 src/Geometry/Region.cc    | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 821ee36..6137feb 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -101,6 +101,7 @@ void Interface::AddInterfaceNodeModel(InterfaceNodeModelPtr nmp)
     }
 
     interfaceNodeModels[nm] = nmp;
+    this->SignalCallbacks(nm);
 }
 
 ConstInterfaceNodeModelPtr Interface::GetInterfaceNodeModel(const std::string &nm) const
@@ -121,6 +122,7 @@ void Interface::DeleteInterfaceNodeModel(const std::string &nm)
   if (it != interfaceNodeModels.end())
   {
     interfaceNodeModels.erase(it);
+    this->SignalCallbacks(nm);
   }
 }
 
diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 1668474..bb93b46 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -934,6 +934,9 @@ void Region::AddNodeModel(NodeModelPtr nmp)
     {
       nodeModels[nm] = nmp;
     }
+
+    //// Anything depending on this name was calculated from what it replaces, or without it
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddEdgeModel(EdgeModelPtr emp)
@@ -972,6 +975,9 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
     {
       edgeModels[nm] = emp;
     }
+
+    //// Anything depending on this name was calculated from what it replaces, or without it
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
@@ -1010,6 +1016,9 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
     {
       triangleEdgeModels[nm] = emp;
     }
+
+    //// Anything depending on this name was calculated from what it replaces, or without it
+    this->SignalCallbacks(nm);
 }
 
 void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
@@ -1048,6 +1057,9 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
     {
       tetrahedronEdgeModels[nm] = emp;
     }
+
+    //// Anything depending on this name was calculated from what it replaces, or without it
+    this->SignalCallbacks(nm);
 }
 
 
-- 
2.43.0


From 46e800e8923df62a6ab07c582cb27ef3ebacf14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 17/72] fix: length of interface models in expressions of other
 interface models

---
 src/models/InterfaceNodeModel.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/models/InterfaceNodeModel.hh b/src/models/InterfaceNodeModel.hh
index f6b45fa..9c2e91d 100644
--- a/src/models/InterfaceNodeModel.hh
+++ b/src/models/InterfaceNodeModel.hh
@@ -93,7 +93,7 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
 
         size_t GetLength() const
         {
-          return length;
+          return model_data.GetLength();
         }
 
         bool IsZero() const;
@@ -137,7 +137,6 @@ class InterfaceNodeModel : public std::enable_shared_from_this<InterfaceNodeMode
         mutable bool uptodate = false;
         mutable bool inprocess = false;
         mutable ModelDataHolder model_data;
-        size_t length = 0;
 };
 
 template <typename T1, typename T2, typename ... Args>
-- 
2.43.0


From 65f74cc4aa87bfee75533a557b87ea21b0489301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 18/72] fix: vec_sum of a uniform interface model

---
 src/AutoEquation/InterfaceModelExprEval.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index df6f811..f58125a 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -635,7 +635,18 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateE
       DoubleType res = emath.EvaluateMathFunc(name, dargs, resultstr);
       if (resultstr.empty())
       {
-        out = InterfaceModelExprData<DoubleType>(InterfaceNodeScalarData<DoubleType>(res, vlen));
+        if (name == "vec_sum")
+        {
+          out = InterfaceModelExprData<DoubleType>(res * vlen);
+        }
+        else if ((name == "vec_max") || (name == "vec_min"))
+        {
+          out = InterfaceModelExprData<DoubleType>(res);
+        }
+        else
+        {
+          out = InterfaceModelExprData<DoubleType>(InterfaceNodeScalarData<DoubleType>(res, vlen));
+        }
       }
     }
     else
-- 
2.43.0


From a93ba053ea3607fb1b3fe2aa3e754d6dad823cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:44 +0000
Subject: [PATCH 19/72] fix: if() must not modify its cached condition

---
 src/AutoEquation/InterfaceModelExprEval.cc | 6 ++++--
 src/AutoEquation/ModelExprEval.cc          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/InterfaceModelExprEval.cc b/src/AutoEquation/InterfaceModelExprEval.cc
index f58125a..14d206d 100644
--- a/src/AutoEquation/InterfaceModelExprEval.cc
+++ b/src/AutoEquation/InterfaceModelExprEval.cc
@@ -307,8 +307,10 @@ InterfaceModelExprData<DoubleType> InterfaceModelExprEval<DoubleType>::EvaluateI
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // The test may be shared with the expression cache and must not be modified
+    out = InterfaceModelExprData<DoubleType>(1.0);
+    out *= test;
+    out *= eval_function(values[1]);
   }
 
   return out;
diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index bc712ed..d5b6cf3 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -291,8 +291,10 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateIfType(Eqo::EqObjPt
   else
   {
     // Assume we are getting an array of 1's and zeros
-    test *= eval_function(values[1]);
-    out = test;
+    // The test may be shared with the expression cache and must not be modified
+    out = ModelExprData<DoubleType>(1.0, data_ref);
+    out *= test;
+    out *= eval_function(values[1]);
   }
 
   return out;
-- 
2.43.0


From 3f1a7574d37001629ee2a5d32c9466bb87be65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 20/72] fix: gradient of node models in three dimensions

---
 src/Geometry/GradientField.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index 4e007e7..e545eb2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -89,7 +89,7 @@ void GradientField<DoubleType>::CalcMatrices3d() const
   //// Assert fields exist
   ConstNodeModelPtr ux = myregion_->GetNodeModel("x");
   ConstNodeModelPtr uy = myregion_->GetNodeModel("y");
-  ConstNodeModelPtr uz = myregion_->GetNodeModel("y");
+  ConstNodeModelPtr uz = myregion_->GetNodeModel("z");
 
   dsAssert(ux.get(), "UNEXPECTED");
   dsAssert(uy.get(), "UNEXPECTED");
-- 
2.43.0


From 32e5da13074c723b4d50b6ccca9991d71b10b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 21/72] fix: do not keep partially calculated gradient matrices

---
 src/Geometry/GradientField.cc           | 39 +++++++++++++++++++++----
 src/Geometry/GradientField.hh           |  1 +
 src/Geometry/TetrahedronElementField.cc |  9 ++++--
 src/Geometry/TriangleElementField.cc    |  7 +++--
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/Geometry/GradientField.cc b/src/Geometry/GradientField.cc
index e545eb2..310fba2 100644
--- a/src/Geometry/GradientField.cc
+++ b/src/Geometry/GradientField.cc
@@ -17,15 +17,44 @@ SPDX-License-Identifier: Apache-2.0
 template <typename DoubleType>
 GradientField<DoubleType>::~GradientField()
 {
-  for (typename std::vector<dsMath::RealDenseMatrix<DoubleType> *>::iterator it = dense_mats_.begin(); it != dense_mats_.end(); ++it)
+  ClearMatrices();
+}
+
+template <typename DoubleType>
+GradientField<DoubleType>::GradientField(const Region *r) : myregion_(r)
+{
+}
+
+template <typename DoubleType>
+void GradientField<DoubleType>::ClearMatrices() const
+{
+  for (auto m : dense_mats_)
   {
-    delete *it;
+    delete m;
   }
+  dense_mats_.clear();
 }
 
+//// If this fails, the matrices must not be left partially calculated
 template <typename DoubleType>
-GradientField<DoubleType>::GradientField(const Region *r) : myregion_(r)
+void GradientField<DoubleType>::CalcMatrices() const
 {
+  try
+  {
+    if (GetRegion().GetDimension() == 2)
+    {
+      CalcMatrices2d();
+    }
+    else
+    {
+      CalcMatrices3d();
+    }
+  }
+  catch (...)
+  {
+    ClearMatrices();
+    throw;
+  }
 }
 
 template <typename DoubleType>
@@ -141,7 +170,7 @@ Vector<DoubleType> GradientField<DoubleType>::GetGradient(const Triangle &triang
 {
   if (dense_mats_.empty())
   {
-    CalcMatrices2d();
+    CalcMatrices();
   }
 
   const NodeScalarList<DoubleType> &nvals = nm.GetScalarValues<DoubleType>();
@@ -176,7 +205,7 @@ Vector<DoubleType> GradientField<DoubleType>::GetGradient(const Tetrahedron &tet
 {
   if (dense_mats_.empty())
   {
-    CalcMatrices3d();
+    CalcMatrices();
   }
 
   const NodeScalarList<DoubleType> &nvals = nm.GetScalarValues<DoubleType>();
diff --git a/src/Geometry/GradientField.hh b/src/Geometry/GradientField.hh
index 4862fa0..c7057dd 100644
--- a/src/Geometry/GradientField.hh
+++ b/src/Geometry/GradientField.hh
@@ -49,6 +49,7 @@ class GradientField {
     GradientField(const GradientField &);
     GradientField  &operator=(GradientField &);
 
+    void ClearMatrices() const;
     void CalcMatrices() const;
     void CalcMatrices2d() const;
     void CalcMatrices3d() const;
diff --git a/src/Geometry/TetrahedronElementField.cc b/src/Geometry/TetrahedronElementField.cc
index 4ef5122..9842d19 100644
--- a/src/Geometry/TetrahedronElementField.cc
+++ b/src/Geometry/TetrahedronElementField.cc
@@ -92,7 +92,8 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
   const Region::TetrahedronToConstEdgeDataList_t &ttelist = myregion_->GetTetrahedronToEdgeDataList();
 
   ///// Need to handle 01, 02, 12 combinations
-  dense_mats_.resize(tetrahedronList.size());
+  //// If this fails, the matrices must not be left partially calculated
+  dense_matrix_vec_t mats(tetrahedronList.size());
 
   for (size_t tindex = 0; tindex < tetrahedronList.size(); ++tindex)
   {
@@ -142,13 +143,15 @@ void TetrahedronElementField<DoubleType>::CalcMatrices() const
 
       bool info = M.LUFactor();
       dsAssert(info, "UNEXPECTED");
-      dense_mats_[tindex].mats[i] = dmp;
+      mats[tindex].mats[i] = dmp;
       for (size_t m = 0; m < 3; ++m)
       {
-        dense_mats_[tindex].edgeIndexes[i][m] = edgeIndexes[m];
+        mats[tindex].edgeIndexes[i][m] = edgeIndexes[m];
       }
     }
   }
+
+  dense_mats_.swap(mats);
 }
 
 template <typename DoubleType>
diff --git a/src/Geometry/TriangleElementField.cc b/src/Geometry/TriangleElementField.cc
index 535991a..873d6d3 100644
--- a/src/Geometry/TriangleElementField.cc
+++ b/src/Geometry/TriangleElementField.cc
@@ -91,7 +91,8 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
   const Region::TriangleToConstEdgeList_t &ttelist = myregion_->GetTriangleToEdgeList();
 
   ///// Need to handle 01, 02, 12 combinations
-  dense_mats_.resize(ttelist.size());
+  //// If this fails, the matrices must not be left partially calculated
+  dense_matrix_vec_t mats(ttelist.size());
 
   for (size_t tindex = 0; tindex < ttelist.size(); ++tindex)
   {
@@ -124,9 +125,11 @@ void TriangleElementField<DoubleType>::CalcMatrices() const
       bool info = M.LUFactor();
       dsAssert(info, "UNEXPECTED");
 
-      dense_mats_[tindex].mats[i] = dmp;
+      mats[tindex].mats[i] = dmp;
     }
   }
+
+  dense_mats_.swap(mats);
 }
 
 template <typename DoubleType>
-- 
2.43.0


From bb92b68a998df63dd55cb8447c1cac9f3c1faa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 22/72] fix: functions of contact models must not use the
 shared cache

---
 src/AutoEquation/ModelExprEval.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index d5b6cf3..325f596 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -408,7 +408,9 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
 
   ModelExprData<DoubleType> out(data_ref);
 
-  bool cache_result = true;
+  //// functions are only evaluated at the indexes, if there are any
+  //// the values are not valid for the other users of the cache
+  bool cache_result = indexes.empty();
   ModelExprDataCachePtr<DoubleType> cache = const_cast<Region *>(data_ref)->GetModelExprDataCache<DoubleType>();
   if (!cache)
   {
@@ -416,7 +418,7 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::eval_function(Eqo::EqObjPtr
     const_cast<Region *>(data_ref)->SetModelExprDataCache(cache);
   }
 
-  if (cache->GetEntry(EngineAPI::getStringValue(arg), out))
+  if (cache_result && cache->GetEntry(EngineAPI::getStringValue(arg), out))
   {
     cache_result = false;
   }
-- 
2.43.0


From 564c083e8c5cd5dd66d0480d2c4e878a001e8cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 23/72] fix: length of uniform edge models on tetrahedra

---
 src/AutoEquation/ModelExprData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AutoEquation/ModelExprData.cc b/src/AutoEquation/ModelExprData.cc
index 9b4cefc..5d7dfcc 100644
--- a/src/AutoEquation/ModelExprData.cc
+++ b/src/AutoEquation/ModelExprData.cc
@@ -280,7 +280,7 @@ void ModelExprData<DoubleType>::convertToTetrahedronEdgeData()
     if (edgeScalarData->IsUniform())
     {
       const DoubleType val = edgeScalarData->GetUniformValue();
-      size_t       len = 6 * reg->GetTriangleList().size();
+      size_t       len = 6 * reg->GetTetrahedronList().size();
 
       type = datatype::TETRAHEDRONEDGEDATA;
       TetrahedronEdgeScalarData<DoubleType> *e = new TetrahedronEdgeScalarData<DoubleType>(val, len);
-- 
2.43.0


From 3f21f89e2146fad9c2dc8a8196422a1040679891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 24/72] fix: marking dependents as out of date must not fail

---
 src/Geometry/Interface.cc | 51 +++++++++++++++++++++++----------------
 src/Geometry/Interface.hh |  1 +
 src/Geometry/Region.cc    | 47 +++++++++++++++---------------------
 3 files changed, 51 insertions(+), 48 deletions(-)

diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 6137feb..0b3d62a 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -149,49 +149,58 @@ void Interface::UnregisterCallback(const std::string &mod)
     }
 }
 
-void Interface::SignalCallbacks(const std::string &str)
+namespace {
+//// does not allocate memory
+bool has_dependency(const std::set<std::string> &deps, const std::string &str, const char *suffix)
 {
-  typedef std::set<std::string> list_t;
-  list_t list;
-  DependencyMap_t::iterator it = DependencyMap.begin();
-  const DependencyMap_t::iterator end = DependencyMap.end();
-  for ( ; it != end; ++it)
+  const size_t len = str.length();
+  for (std::set<std::string>::const_iterator it = deps.begin(); it != deps.end(); ++it)
   {
-    // If this one has a dependency on str
-    if ((*it).second.count(str))
+    if ((it->compare(0, len, str) == 0) && (it->compare(len, std::string::npos, suffix) == 0))
     {
-      // put it in the set to be notified
-      list.insert(it->first);
+      return true;
     }
   }
+  return false;
+}
+}
 
-  list_t::iterator lit = list.begin();
-  const list_t::iterator lend = list.end();
-  for ( ; lit != lend; ++lit)
+//// This must not allocate memory, since the dependents of an already marked model would not be notified
+void Interface::SignalCallbacks(const std::string &str, const char *suffix)
+{
+  for (DependencyMap_t::const_iterator it = DependencyMap.begin(); it != DependencyMap.end(); ++it)
   {
-    if (interfaceNodeModels.count(*lit))
+    // Only if this one has a dependency on str
+    if (!has_dependency(it->second, str, suffix))
     {
-      InterfaceNodeModelPtr inmp = interfaceNodeModels[*lit];
-      if ((inmp->IsUpToDate()))
-      {
-        inmp->MarkOld();
-      }
+      continue;
+    }
+
+    NameToInterfaceNodeModelMap_t::iterator mit = interfaceNodeModels.find(it->first);
+    if ((mit != interfaceNodeModels.end()) && mit->second->IsUpToDate())
+    {
+      mit->second->MarkOld();
     }
   }
 }
 
+void Interface::SignalCallbacks(const std::string &str)
+{
+  this->SignalCallbacks(str, "");
+}
+
 void Interface::SignalCallbacks(const std::string &str, ConstRegionPtr rp)
 {
   //// TODO: eventually we need to make it so @r0, @r1 are required (until we get GlobalData on interface
   if (rp == GetRegion0())
   {
     this->SignalCallbacks(str);
-    this->SignalCallbacks(str + "@r0");
+    this->SignalCallbacks(str, "@r0");
   }
   else if (rp == GetRegion1())
   {
     this->SignalCallbacks(str);
-    this->SignalCallbacks(str + "@r1");
+    this->SignalCallbacks(str, "@r1");
   }
 }
 
diff --git a/src/Geometry/Interface.hh b/src/Geometry/Interface.hh
index 4488974..51940a2 100644
--- a/src/Geometry/Interface.hh
+++ b/src/Geometry/Interface.hh
@@ -121,6 +121,7 @@ class Interface {
         void SignalCallbacks(const std::string &);
 
         void SignalCallbacks(const std::string &, ConstRegionPtr /*rp*/);
+        void SignalCallbacks(const std::string &, const char * /*suffix*/);
 
         // unregister a model when it is destructed
         void UnregisterCallback(const std::string &);
diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index bb93b46..ab7f323 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1087,63 +1087,56 @@ void Region::UnregisterCallback(const std::string &mod)
  */
 void Region::SignalCallbacks(const std::string &str)
 {
-  typedef std::set<std::string> list_t;
-  list_t list;
-  DependencyMap_t::iterator it = DependencyMap.begin();
-  const DependencyMap_t::iterator end = DependencyMap.end();
-  for ( ; it != end; ++it)
+  //// This must not allocate memory, since the dependents of an already marked model would not be notified
+  for (DependencyMap_t::const_iterator it = DependencyMap.begin(); it != DependencyMap.end(); ++it)
   {
-    // If this one has a dependency on str
-    if ((*it).second.count(str))
+    // Only if this one has a dependency on str
+    if (!(*it).second.count(str))
     {
-      // put it in the set to be notified
-      list.insert(it->first);
+      continue;
     }
-  }
 
-  list_t::iterator lit = list.begin();
-  const list_t::iterator lend = list.end();
-  for ( ; lit != lend; ++lit)
-  {
-    dsAssert(!(nodeModels.count(*lit) && edgeModels.count(*lit) && triangleEdgeModels.count(*lit) && tetrahedronEdgeModels.count(*lit)), "UNEXPECTED");
-    if (nodeModels.count(*lit))
+    const std::string &dependent = it->first;
+
+    dsAssert(!(nodeModels.count(dependent) && edgeModels.count(dependent) && triangleEdgeModels.count(dependent) && tetrahedronEdgeModels.count(dependent)), "UNEXPECTED");
+    if (nodeModels.count(dependent))
     {
-      NodeModelPtr nmp = nodeModels[*lit];
+      NodeModelPtr nmp = nodeModels[dependent];
       if ((nmp->IsUpToDate()))
       {
         nmp->MarkOld();
 //        This is what MarkOld does
-//        this->SignalCallbacks(*lit);
+//        this->SignalCallbacks(dependent);
       }
     }
-    else if (edgeModels.count(*lit))
+    else if (edgeModels.count(dependent))
     {
-      EdgeModelPtr emp = edgeModels[*lit];
+      EdgeModelPtr emp = edgeModels[dependent];
       if ((emp->IsUpToDate()))
       {
         emp->MarkOld();
 //        This is what MarkOld does
-//        this->SignalCallbacks(*lit);
+//        this->SignalCallbacks(dependent);
       }
     }
-    else if (triangleEdgeModels.count(*lit))
+    else if (triangleEdgeModels.count(dependent))
     {
-      TriangleEdgeModelPtr temp = triangleEdgeModels[*lit];
+      TriangleEdgeModelPtr temp = triangleEdgeModels[dependent];
       if ((temp->IsUpToDate()))
       {
         temp->MarkOld();
 //        This is what MarkOld does
-//        this->SignalCallbacks(*lit);
+//        this->SignalCallbacks(dependent);
       }
     }
-    else if (tetrahedronEdgeModels.count(*lit))
+    else if (tetrahedronEdgeModels.count(dependent))
     {
-      TetrahedronEdgeModelPtr temp = tetrahedronEdgeModels[*lit];
+      TetrahedronEdgeModelPtr temp = tetrahedronEdgeModels[dependent];
       if ((temp->IsUpToDate()))
       {
         temp->MarkOld();
 //        This is what MarkOld does
-//        this->SignalCallbacks(*lit);
+//        this->SignalCallbacks(dependent);
       }
     }
   }
-- 
2.43.0


From 2325bf45c7384e300f6ea2cc934f124db873c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 25/72] fix: element models depend on the edge model used in
 place of an element edge model

---
 src/AutoEquation/ModelExprEval.cc            | 61 ++++++++++----------
 src/AutoEquation/ModelExprEval.hh            |  3 +
 src/AutoEquation/TetrahedronEdgeExprModel.cc |  7 +++
 src/AutoEquation/TriangleEdgeExprModel.cc    |  7 +++
 4 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/src/AutoEquation/ModelExprEval.cc b/src/AutoEquation/ModelExprEval.cc
index 325f596..2bfd9a0 100644
--- a/src/AutoEquation/ModelExprEval.cc
+++ b/src/AutoEquation/ModelExprEval.cc
@@ -34,6 +34,21 @@ SPDX-License-Identifier: Apache-2.0
 
 namespace MEE {
 
+std::string GetEdgeModelAlias(const std::string &model)
+{
+  std::string alias_model(model);
+  if (alias_model.size() > 4)
+  {
+    const std::string::size_type rpos = alias_model.size() - 4;
+    if ((alias_model.rfind("@en0") == rpos) || (alias_model.rfind("@en1") == rpos))
+    {
+      //// look for @n0, @n1 in place of @en0, @en11
+      alias_model.erase(rpos+1, 1);
+    }
+  }
+  return alias_model;
+}
+
 template <typename DoubleType>
 ModelExprEval<DoubleType>::ModelExprEval(data_ref_t &vals, const std::string &m, error_t &er) : data_ref(vals), model(m), errors(er), etype(ExpectedType::UNKNOWN)
 {
@@ -160,40 +175,24 @@ ModelExprData<DoubleType> ModelExprEval<DoubleType>::EvaluateModelType(Eqo::EqOb
 
     out = ModelExprData<DoubleType>(0.0, rp);
 
-    std::string alias_model(model);
+    const std::string alias_model = GetEdgeModelAlias(model);
 
-    //// Why not just try it all the time???
-//    if (model.find(":") != std::string::npos)
+    if (ConstEdgeModelPtr nm = rp->GetEdgeModel(alias_model))
     {
-      std::string::size_type rpos = alias_model.size();
-      if (rpos > 4)
-      {
-        rpos -= 4;
-
-        if ((alias_model.rfind("@en0") == rpos) || (alias_model.rfind("@en1") == rpos))
-        {
-          //// look for @n0, @n1 in place of @en0, @en11
-          alias_model.erase(rpos+1, 1);
-        }
-
-        if (ConstEdgeModelPtr nm = rp->GetEdgeModel(alias_model))
-        {
-          std::ostringstream os;
-          os << "Substituting Edge Model " << alias_model << " for Element Edge Model " << model << "\n";
-          GeometryStream::WriteOut(OutputStream::OutputType::VERBOSE1, *rp, os.str());
+      std::ostringstream os;
+      os << "Substituting Edge Model " << alias_model << " for Element Edge Model " << model << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::VERBOSE1, *rp, os.str());
 
-          if (nm->IsInProcess())
-          {
-            std::ostringstream os;
-            os << "Cyclic dependency while evaluating EdgeModel \"" << model;
-            errors.push_back(os.str());
-            out = ModelExprData<DoubleType>(rp);
-          }
-          else
-          {
-            out = ModelExprData<DoubleType>(nm, rp);
-          }
-        }
+      if (nm->IsInProcess())
+      {
+        std::ostringstream os;
+        os << "Cyclic dependency while evaluating EdgeModel \"" << model;
+        errors.push_back(os.str());
+        out = ModelExprData<DoubleType>(rp);
+      }
+      else
+      {
+        out = ModelExprData<DoubleType>(nm, rp);
       }
     }
   }
diff --git a/src/AutoEquation/ModelExprEval.hh b/src/AutoEquation/ModelExprEval.hh
index b5b149c..cfb869b 100644
--- a/src/AutoEquation/ModelExprEval.hh
+++ b/src/AutoEquation/ModelExprEval.hh
@@ -23,6 +23,9 @@ namespace MEE {
 
 enum class ExpectedType {UNKNOWN = 0, NODE, EDGE, TRIANGLEEDGE, TETRAHEDRONEDGE};
 
+//// The name of the edge model to use when an element edge model, with a name ending in @en0 or @en1, is not available
+std::string GetEdgeModelAlias(const std::string &);
+
 template <typename DoubleType>
 class ModelExprEval {
     public:
diff --git a/src/AutoEquation/TetrahedronEdgeExprModel.cc b/src/AutoEquation/TetrahedronEdgeExprModel.cc
index 28a0012..16b9b10 100644
--- a/src/AutoEquation/TetrahedronEdgeExprModel.cc
+++ b/src/AutoEquation/TetrahedronEdgeExprModel.cc
@@ -62,6 +62,13 @@ void TetrahedronEdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+
+        //// an edge model may be used in place of it
+        const std::string alias = MEE::GetEdgeModelAlias(*it);
+        if (alias != *it)
+        {
+            RegisterCallback(alias);
+        }
     }
 }
 
diff --git a/src/AutoEquation/TriangleEdgeExprModel.cc b/src/AutoEquation/TriangleEdgeExprModel.cc
index 8d802e8..b5766df 100644
--- a/src/AutoEquation/TriangleEdgeExprModel.cc
+++ b/src/AutoEquation/TriangleEdgeExprModel.cc
@@ -62,6 +62,13 @@ void TriangleEdgeExprModel<DoubleType>::RegisterModels()
     for (refmodels_t::iterator it = refs.begin(); it != refs.end(); ++it)
     {
         RegisterCallback(*it);
+
+        //// an edge model may be used in place of it
+        const std::string alias = MEE::GetEdgeModelAlias(*it);
+        if (alias != *it)
+        {
+            RegisterCallback(alias);
+        }
     }
 }
 
-- 
2.43.0


From f7f332f164434b6ba866ce018b8d8c56b138c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 26/72] fix: circuit node aliases follow the value of their
 node

---
 src/Circuit/data/NodeKeeper.cc  | 17 +++++++++++++++++
 src/Circuit/data/NodeKeeper.hh  |  2 ++
 src/commands/CircuitCommands.cc |  2 +-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 410445c..9b0686e 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -570,6 +570,23 @@ void NodeKeeper::TriggerCallbackOnNode(const std::string &nm)
     gdata.SignalCallbacksOnGlobal(nm);
 }
 
+void NodeKeeper::TriggerCallbacksOnNodeAndAliases(const std::string &nm)
+{
+    std::string node = nm;
+    if (NodeAliasTable_.count(nm))
+    {
+        node = NodeAliasTable_[nm];
+    }
+
+    TriggerCallbackOnNode(node);
+    for (NodeAliasTable_t::const_iterator it = NodeAliasTable_.begin(); it != NodeAliasTable_.end(); ++it)
+    {
+        if (it->second == node)
+        {
+            TriggerCallbackOnNode(it->first);
+        }
+    }
+}
 
 void NodeKeeper::TriggerCallbacksOnNodes()
 {
diff --git a/src/Circuit/data/NodeKeeper.hh b/src/Circuit/data/NodeKeeper.hh
index f317bbc..f49d096 100644
--- a/src/Circuit/data/NodeKeeper.hh
+++ b/src/Circuit/data/NodeKeeper.hh
@@ -106,6 +106,8 @@ class NodeKeeper {
         void SetNodeValue(const std::string &, const std::string &, double value);
         void TriggerCallbacksOnNodes();
         void TriggerCallbackOnNode(const std::string &);
+
+        void TriggerCallbacksOnNodeAndAliases(const std::string &);
     private:
         NodeKeeper();
         NodeKeeper(const NodeKeeper &);
diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 0c7d982..d2c25fd 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -551,7 +551,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     else if (commandName == "set_circuit_node_value")
     {
         nk.SetNodeValue(solution, node, val);
-        nk.TriggerCallbackOnNode(node);
+        nk.TriggerCallbacksOnNodeAndAliases(node);
         data.SetEmptyResult();
     }
 }
-- 
2.43.0


From 2f97172b6642fcc3777b2b4f93ed8334faeb1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 27/72] fix: out of memory while an error is reported

---
 src/pythonapi/PythonCommands.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/pythonapi/PythonCommands.cc b/src/pythonapi/PythonCommands.cc
index e15826a..c6650ef 100644
--- a/src/pythonapi/PythonCommands.cc
+++ b/src/pythonapi/PythonCommands.cc
@@ -86,6 +86,20 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
   const char *fixedError = nullptr;
   bool        isError = false;
 
+  const char * const outOfMemory = "OUT OF MEMORY\nstd::bad_alloc";
+  // there may be no memory for the message either
+  auto addError = [&](auto getMessage)
+  {
+    try
+    {
+      errorString += getMessage();
+    }
+    catch (const std::bad_alloc &)
+    {
+      fixedError = outOfMemory;
+    }
+  };
+
   try
   {
     const std::string command_name = name;
@@ -126,27 +140,24 @@ static PyObject * CmdDispatch(PyObject *m, PyObject *args, PyObject *kwargs, con
   catch (const dsException &x)
   {
     ret = nullptr;
-    errorString = x.what();
+    addError([&x](){return x.what();});
   }
   catch (const std::bad_alloc &)
   {
     ret = nullptr;
-    fixedError = "OUT OF MEMORY\nstd::bad_alloc";
+    fixedError = outOfMemory;
   }
   catch (std::exception &x)
   {
     ret = nullptr;
-    errorString = "UNEXPECTED ERROR\n";
-    errorString += x.what();
+    addError([&x](){return std::string("UNEXPECTED ERROR\n") + x.what();});
   }
 
   if (FPECheck::CheckFPE())
   {
     if (!fixedError)
     {
-      std::ostringstream os;
-      os << "Uncaught FPE: There was an uncaught floating point exception of type \"" << FPECheck::getFPEString() << "\"\n";
-      errorString += os.str();
+      addError([](){return "Uncaught FPE: There was an uncaught floating point exception of type \"" + FPECheck::getFPEString() + "\"\n";});
     }
 
     FPECheck::ClearFPE();
-- 
2.43.0


From 2d4d4929cbaec77f3d2bbf03013cbf83fbabb598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 28/72] fix: values of models with both precisions, and when
 there is no memory

---
 src/models/ModelDataHolder.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/models/ModelDataHolder.cc b/src/models/ModelDataHolder.cc
index a574dcf..f2dfb2b 100644
--- a/src/models/ModelDataHolder.cc
+++ b/src/models/ModelDataHolder.cc
@@ -69,19 +69,19 @@ void ModelDataHolder::expand_uniform() const
 
   if (type == MDtype::DOUBLE)
   {
-    const double v = double_uniform_value;
+    std::vector<double> values(length, double_uniform_value);
     clear();
     set_type(MDtype::DOUBLE);
-    double_values.resize(length, v);
+    double_values.swap(values);
     is_uniform = false;
   }
   else if (type == MDtype::EXTENDED)
   {
 #ifdef DEVSIM_EXTENDED_PRECISION
-    const float128 v = float128_uniform_value;
+    std::vector<float128> values(length, float128_uniform_value);
     clear();
     set_type(MDtype::EXTENDED);
-    float128_values.resize(length, v);
+    float128_values.swap(values);
     is_uniform = false;
 #endif
   }
@@ -262,9 +262,11 @@ void ModelDataHolder::set_indexes(const std::vector<size_t> &indexes, const std:
 template <>
 void ModelDataHolder::set_values(const std::vector<double> &nv)
 {
+  //// the values must not be lost if there is no memory for the copy
+  std::vector<double> values(nv);
   clear_type(MDtype::EXTENDED);
   type = MDtype::DOUBLE;
-  double_values = nv;
+  double_values.swap(values);
   is_uniform = false;
 }
 
@@ -272,9 +274,11 @@ void ModelDataHolder::set_values(const std::vector<double> &nv)
 template <>
 void ModelDataHolder::set_values(const std::vector<float128> &nv)
 {
+  //// the values must not be lost if there is no memory for the copy
+  std::vector<float128> values(nv);
   clear_type(MDtype::DOUBLE);
   type = MDtype::EXTENDED;
-  float128_values = nv;
+  float128_values.swap(values);
   is_uniform = false;
 }
 #endif
@@ -294,7 +298,7 @@ void ModelDataHolder::SetValue(size_t index, const float128 &nv)
   expand_uniform();
 
   float128_values[index] = nv;
-
+  clear_type(MDtype::DOUBLE);
 }
 #endif
 
@@ -317,6 +321,7 @@ void ModelDataHolder::SetValue(size_t index, const double &nv)
     expand_uniform();
 
     double_values[index] = nv;
+    clear_type(MDtype::EXTENDED);
   }
 }
 
-- 
2.43.0


From d9369a9bc16d7f4089726138f2653f26fdf23478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 29/72] fix: a model whose calculation failed is not up to date

---
 src/models/EdgeModel.cc            | 2 ++
 src/models/NodeModel.cc            | 2 ++
 src/models/TetrahedronEdgeModel.cc | 2 ++
 src/models/TriangleEdgeModel.cc    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 75ca993..c22ddd5 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -74,6 +74,8 @@ void EdgeModel::CalculateValues() const
     }
     catch (...)
     {
+        // values may already be set, without those of the models which are calculated with it
+        uptodate = false;
         inprocess = false;
         throw;
     }
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f085e38..4ba01fb 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -96,6 +96,8 @@ void NodeModel::CalculateValues() const
     }
     catch (...)
     {
+        // values may already be set, without those of the models which are calculated with it
+        uptodate = false;
         inprocess = false;
         throw;
     }
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 55a5582..76826af 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -72,6 +72,8 @@ void TetrahedronEdgeModel::CalculateValues() const
     }
     catch (...)
     {
+        // values may already be set, without those of the models which are calculated with it
+        uptodate = false;
         inprocess = false;
         throw;
     }
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 84d6554..783b6b8 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -70,6 +70,8 @@ void TriangleEdgeModel::CalculateValues() const
     }
     catch (...)
     {
+        // values may already be set, without those of the models which are calculated with it
+        uptodate = false;
         inprocess = false;
         throw;
     }
-- 
2.43.0


From 5e04193e45ce5cd23d0b2d2fbbf90854a3656a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 30/72] fix: report the floating point exceptions of a model
 each time

---
 src/models/EdgeModel.cc            | 2 ++
 src/models/NodeModel.cc            | 2 ++
 src/models/TetrahedronEdgeModel.cc | 2 ++
 src/models/TriangleEdgeModel.cc    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index c22ddd5..faa9843 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -85,6 +85,8 @@ void EdgeModel::CalculateValues() const
 
   if (FPECheck::CheckFPE())
   {
+    // it is also reported the next time
+    uptodate = false;
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index 4ba01fb..91446a0 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -107,6 +107,8 @@ void NodeModel::CalculateValues() const
 
   if (FPECheck::CheckFPE())
   {
+    // it is also reported the next time
+    uptodate = false;
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the node model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 76826af..44791c9 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -83,6 +83,8 @@ void TetrahedronEdgeModel::CalculateValues() const
 
   if (FPECheck::CheckFPE())
   {
+    // it is also reported the next time
+    uptodate = false;
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 783b6b8..1d1aeba 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -81,6 +81,8 @@ void TriangleEdgeModel::CalculateValues() const
 
   if (FPECheck::CheckFPE())
   {
+    // it is also reported the next time
+    uptodate = false;
     std::ostringstream os;
     os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  while evaluating the edge model " << name
     << " on Device: " << GetRegion().GetDevice()->GetName() << " on Region: " << GetRegion().GetName() << "\n";
-- 
2.43.0


From 516a29c2056b7e3d0e322648f84ce814ce8d7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 31/72] fix: a replaced model leaves its dependencies behind

---
 src/Geometry/Region.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index ab7f323..355c89f 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -907,6 +907,8 @@ void Region::AddNodeModel(NodeModelPtr nmp)
         os << "Replacing Node Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the new model are registered when it is initialized
+        UnregisterCallback(nm);
         nodeModels[nm] = nmp;
     }
     else if (edgeModels.count(nm))
@@ -948,6 +950,8 @@ void Region::AddEdgeModel(EdgeModelPtr emp)
         os << "Replacing Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the new model are registered when it is initialized
+        UnregisterCallback(nm);
         edgeModels[nm] = emp;
     }
     else if (nodeModels.count(nm))
@@ -989,6 +993,8 @@ void Region::AddTriangleEdgeModel(TriangleEdgeModelPtr emp)
         os << "Replacing Triangle Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the new model are registered when it is initialized
+        UnregisterCallback(nm);
         triangleEdgeModels[nm] = emp;
     }
     else if (nodeModels.count(nm))
@@ -1030,6 +1036,8 @@ void Region::AddTetrahedronEdgeModel(TetrahedronEdgeModelPtr emp)
         os << "Replacing Tetrahedron Edge Model " << nm << " in region " << regionName
                   << " of material " << materialName << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
+        //// the dependencies of the new model are registered when it is initialized
+        UnregisterCallback(nm);
         tetrahedronEdgeModels[nm] = emp;
     }
     else if (nodeModels.count(nm))
-- 
2.43.0


From 42caacd4013fd4794d2a3bd063f9ff29f3bdad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 32/72] fix: do not keep partially filled lists of contacts and
 interfaces

---
 src/Geometry/Contact.cc   | 19 +++++++++++++------
 src/Geometry/Interface.cc | 34 ++++++++++++++++++++++------------
 src/models/EdgeModel.cc   |  7 +++++--
 src/models/NodeModel.cc   |  7 +++++--
 4 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/src/Geometry/Contact.cc b/src/Geometry/Contact.cc
index 0033a00..cfe6ab8 100644
--- a/src/Geometry/Contact.cc
+++ b/src/Geometry/Contact.cc
@@ -173,7 +173,7 @@ void Contact::FindEdges() const
     return;
   }
 
-  contactedges.clear();
+  ConstEdgeList_t found_contactedges;
 
   const ConstEdgeList &el = region.GetEdgeList();
 
@@ -200,15 +200,18 @@ void Contact::FindEdges() const
       && (indexes.find(edge.GetTail()->GetIndex()) != indexes.end())
        )
     {
-      contactedges.push_back(&edge);
+      found_contactedges.push_back(&edge);
     }
   }
+
+  //// nothing is found if this fails before the end
+  contactedges.swap(found_contactedges);
 }
 
 void Contact::FindTriangles() const
 {
-  contacttriangles.clear();
-  contactedges.clear();
+  ConstTriangleList_t found_contacttriangles;
+  ConstEdgeList_t found_contactedges;
 
   const Region &region = *(GetRegion());
 
@@ -245,7 +248,7 @@ void Contact::FindTriangles() const
       && (indexes.find(node_list[2]->GetIndex()) != indexes.end())
       )
     {
-      contacttriangles.push_back(&triangle);
+      found_contacttriangles.push_back(&triangle);
 
       const ConstEdgeList &cel = ete[triangle_index];
       for (size_t i = 0; i < cel.size(); ++i)
@@ -257,8 +260,12 @@ void Contact::FindTriangles() const
 
   for (std::set<size_t>::const_iterator it = edge_indexes.begin(); it != edge_indexes.end(); ++it)
   {
-    contactedges.push_back(el[*it]);
+    found_contactedges.push_back(el[*it]);
   }
+
+  //// nothing is found if this fails before the end
+  contacttriangles.swap(found_contacttriangles);
+  contactedges.swap(found_contactedges);
 }
 
 const ConstEdgeList_t &Contact::GetEdges() const
diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 0b3d62a..84dd7e0 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -227,8 +227,8 @@ void Interface::FindEdges() const
   }
 
 
-  edges0.clear();
-  edges1.clear();
+  ConstEdgeList_t found_edges0;
+  ConstEdgeList_t found_edges1;
 
   const ConstEdgeList &el0 = region0.GetEdgeList();
   const ConstEdgeList &el1 = region1.GetEdgeList();
@@ -262,7 +262,7 @@ void Interface::FindEdges() const
       && (indexes0.find(edge.GetTail()->GetIndex()) != indexes0.end())
        )
     {
-      edges0.push_back(&edge);
+      found_edges0.push_back(&edge);
     }
   }
   for (size_t i = 0; i < el1.size(); ++i)
@@ -279,17 +279,21 @@ void Interface::FindEdges() const
       && (indexes1.find(edge.GetTail()->GetIndex()) != indexes1.end())
        )
     {
-      edges1.push_back(&edge);
+      found_edges1.push_back(&edge);
     }
   }
+
+  //// nothing is found if this fails before the end
+  edges0.swap(found_edges0);
+  edges1.swap(found_edges1);
 }
 
 void Interface::FindTriangles() const
 {
-  triangles0.clear();
-  triangles1.clear();
-  edges0.clear();
-  edges1.clear();
+  ConstTriangleList_t found_triangles0;
+  ConstTriangleList_t found_triangles1;
+  ConstEdgeList_t found_edges0;
+  ConstEdgeList_t found_edges1;
 
   const Region &region0 = *(GetRegion0());
   const Region &region1 = *(GetRegion1());
@@ -340,7 +344,7 @@ void Interface::FindTriangles() const
       && (indexes0.find(node_list[2]->GetIndex()) != indexes0.end())
     )
     {
-      triangles0.push_back(&triangle);
+      found_triangles0.push_back(&triangle);
 
       const ConstEdgeList &cel = ete0[triangle_index];
       for (size_t i = 0; i < cel.size(); ++i)
@@ -364,7 +368,7 @@ void Interface::FindTriangles() const
       && (indexes1.find(node_list[2]->GetIndex()) != indexes1.end())
     )
     {
-      triangles1.push_back(&triangle);
+      found_triangles1.push_back(&triangle);
 
       const ConstEdgeList &cel = ete1[triangle_index];
       for (size_t i = 0; i < cel.size(); ++i)
@@ -376,12 +380,18 @@ void Interface::FindTriangles() const
 
   for (std::set<size_t>::const_iterator it = edge_indexes0.begin(); it != edge_indexes0.end(); ++it)
   {
-    edges0.push_back(el0[*it]);
+    found_edges0.push_back(el0[*it]);
   }
   for (std::set<size_t>::const_iterator it = edge_indexes1.begin(); it != edge_indexes1.end(); ++it)
   {
-    edges1.push_back(el1[*it]);
+    found_edges1.push_back(el1[*it]);
   }
+
+  //// nothing is found if this fails before the end
+  triangles0.swap(found_triangles0);
+  triangles1.swap(found_triangles1);
+  edges0.swap(found_edges0);
+  edges1.swap(found_edges1);
 }
 
 const Interface::ConstEdgeList_t &Interface::GetEdges0() const
diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index faa9843..90ee37a 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -337,6 +337,8 @@ const std::vector<size_t> & EdgeModel::GetContactIndexes() const
 {
   if ((mycontact) && (atcontact.empty()))
   {
+    //// must not be left partially filled
+    std::vector<size_t> indexes;
     const Region::NodeToConstEdgeList_t &nte = myregion->GetNodeToEdgeList();
 
     const ConstNodeList_t &cnodes = mycontact->GetNodes();
@@ -345,10 +347,11 @@ const std::vector<size_t> & EdgeModel::GetContactIndexes() const
       const ConstEdgeList &el  = nte[(*it)->GetIndex()];
       for (ConstEdgeList::const_iterator jt = el.begin(); jt != el.end(); ++jt)
       {
-        atcontact.push_back((*jt)->GetIndex());
+        indexes.push_back((*jt)->GetIndex());
       }
     }
-    std::sort(atcontact.begin(), atcontact.end());
+    std::sort(indexes.begin(), indexes.end());
+    atcontact.swap(indexes);
   }
 
   return atcontact;
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index 91446a0..3697143 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -182,12 +182,15 @@ const std::vector<size_t> & NodeModel::GetContactIndexes() const
 {
   if ((mycontact) && (atcontact.empty()))
   {
+    //// must not be left partially filled
+    std::vector<size_t> indexes;
     const ConstNodeList_t &cnodes = mycontact->GetNodes();
     for (ConstNodeList_t::const_iterator it = cnodes.begin(); it != cnodes.end(); ++it)
     {
-      atcontact.push_back((*it)->GetIndex());
+      indexes.push_back((*it)->GetIndex());
     }
-    std::sort(atcontact.begin(), atcontact.end());
+    std::sort(indexes.begin(), indexes.end());
+    atcontact.swap(indexes);
   }
 
   return atcontact;
-- 
2.43.0


From 5ff5c1c0b949175eeff2512c3fc2626c219011b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 33/72] fix: cyclic model definitions must not recurse without
 end

---
 src/models/EdgeModel.cc            | 6 ++++++
 src/models/InterfaceNodeModel.cc   | 7 +++++++
 src/models/NodeModel.cc            | 6 ++++++
 src/models/TetrahedronEdgeModel.cc | 6 ++++++
 src/models/TriangleEdgeModel.cc    | 6 ++++++
 5 files changed, 31 insertions(+)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index 90ee37a..a15181a 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -67,6 +67,12 @@ void EdgeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating edge model " << name << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str());
+    }
     inprocess = true;
     try
     {
diff --git a/src/models/InterfaceNodeModel.cc b/src/models/InterfaceNodeModel.cc
index 08b6a5e..753fffc 100644
--- a/src/models/InterfaceNodeModel.cc
+++ b/src/models/InterfaceNodeModel.cc
@@ -48,6 +48,13 @@ void InterfaceNodeModel::CalculateValues() const
 {
   FPECheck::ClearFPE();
 
+  if (inprocess)
+  {
+    std::ostringstream os;
+    os << "Cyclic dependency while evaluating interface node model " << name << "\n";
+    GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *myinterface, os.str());
+  }
+
   // TODO: fix this so the values are actually cached
   inprocess = true;
   try
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index 3697143..f007409 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -89,6 +89,12 @@ void NodeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating node model " << name << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str());
+    }
     inprocess = true;
     try
     {
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index 44791c9..eead62c 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -65,6 +65,12 @@ void TetrahedronEdgeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating tetrahedron edge model " << name << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str());
+    }
     inprocess = true;
     try
     {
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index 1d1aeba..ff23ad5 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -63,6 +63,12 @@ void TriangleEdgeModel::CalculateValues() const
   FPECheck::ClearFPE();
   if (!uptodate)
   {
+    if (inprocess)
+    {
+      std::ostringstream os;
+      os << "Cyclic dependency while evaluating triangle edge model " << name << "\n";
+      GeometryStream::WriteOut(OutputStream::OutputType::FATAL, GetRegion(), os.str());
+    }
     inprocess = true;
     try
     {
-- 
2.43.0


From b95de0629d14dc10a5ac5dbc48be3b4292d1dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 34/72] fix: a rejected circuit command is not carried out

---
 src/commands/CircuitCommands.cc | 41 ++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index d2c25fd..72f4184 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -20,6 +20,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "Signal.hh"
 
 #include "Validate.hh"
+#include "dsAssert.hh"
 
 #include <sstream>
 
@@ -199,6 +200,28 @@ circuitElementCmd(CommandHandler &data)
         }
     }
 
+    //// nothing may be created for an element which is rejected
+    if (std::string("VvIiCcLlRr").find(type) == std::string::npos)
+    {
+        std::ostringstream os;
+        os << "Cannot figure out what element type -name  \"" << name <<
+              "\" is\n";
+        errorString += os.str();
+    }
+    else if (InstanceKeeper::instance().getInstanceModel(name))
+    {
+        std::ostringstream os;
+        os << "circuit element \"" << name <<
+              "\"  already exists\n";
+        errorString += os.str();
+    }
+
+    if (!errorString.empty())
+    {
+        data.SetErrorResult(errorString);
+        return;
+    }
+
     //// Should not fail
     CreateNode(n1, CircuitUpdateType::DEFAULT);
     CreateNode(n2, CircuitUpdateType::DEFAULT);
@@ -244,18 +267,8 @@ circuitElementCmd(CommandHandler &data)
     }
     else
     {
-        std::ostringstream os;
-        os << "Cannot figure out what element type -name  \"" << name <<
-              "\" is\n";
-        errorString += os.str();
+        dsAssert(false, "UNEXPECTED");
     }
-
-    if (!errorString.empty())
-    {
-        data.SetErrorResult(errorString);
-        return;
-    }
-
 }
 
 void
@@ -381,6 +394,7 @@ circuitNodeAliasCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -437,6 +451,7 @@ void circuitGetCircuitNodeListCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -478,6 +493,7 @@ void circuitGetCircuitSolutionListCmd (CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
     NodeKeeper &nk = NodeKeeper::instance();
@@ -511,6 +527,7 @@ void circuitGetCircuitNodeValueCmd(CommandHandler &data)
     if (error)
     {
         data.SetErrorResult(errorString);
+        return;
     }
 
 //    const std::string commandName = data.GetCommandName();
@@ -571,6 +588,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   InstanceKeeper::delete_instance();
@@ -595,6 +613,7 @@ circuitGetCircuitEquationNumberCmd (CommandHandler &data)
   if (error)
   {
       data.SetErrorResult(errorString);
+      return;
   }
 
   // const std::string commandName = data.GetCommandName();
-- 
2.43.0


From 52b0291dce9f17512db11a2de7e7d5b00d2bd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 35/72] fix: strings which are not valid unicode

---
 src/pythonapi/ObjectHolder.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 27ce406..761e145 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -126,15 +126,27 @@ std::string GetStringFromStringObject(PyObject *obj)
   EnsurePythonGIL gil;
 
   std::string ret;
-  if (PyUnicode_CheckExact(obj))
+  if (!obj)
+  {
+    // there is no string for this object
+    PyErr_Clear();
+  }
+  else if (PyUnicode_CheckExact(obj))
   {
-    PyObject *sobj = PyUnicode_AsUTF8String(obj);
-    ret = PyBytes_AsString(sobj);
-    Py_DECREF(sobj);
+    PyObject *sobj = PyUnicode_AsEncodedString(obj, "utf-8", "replace");
+    if (sobj)
+    {
+      ret = PyBytes_AsString(sobj);
+      Py_DECREF(sobj);
+    }
+    PyErr_Clear();
   }
   else if (PyBytes_CheckExact(obj))
   {
-    ret = PyBytes_AsString(obj);
+    // names and messages are given back as unicode strings
+    PyObject *uobj = PyUnicode_DecodeUTF8(PyBytes_AsString(obj), PyBytes_Size(obj), "replace");
+    ret = GetStringFromStringObject(uobj);
+    Py_XDECREF(uobj);
   }
   return ret;
 }
@@ -155,7 +167,7 @@ std::string ObjectHolder::GetString() const
     {
       PyObject *strobj = PyObject_Str(obj);
       ret = GetStringFromStringObject(strobj);
-      Py_DECREF(strobj);
+      Py_XDECREF(strobj);
     }
   }
   return ret;
-- 
2.43.0


From 2f8705572229f1b71c6f3eaff443e9b3ceec3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 36/72] fix: contact from the interface of a two dimensional
 device

---
 src/Geometry/Interface.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Geometry/Interface.cc b/src/Geometry/Interface.cc
index 84dd7e0..4ef31d9 100644
--- a/src/Geometry/Interface.cc
+++ b/src/Geometry/Interface.cc
@@ -300,6 +300,12 @@ void Interface::FindTriangles() const
 
   dsAssert(region0.GetDimension() == region1.GetDimension(), "Interface region dimension mismatch");
 
+  //// the triangles of a two dimensional region are not part of an interface
+  if (region0.GetDimension() != 3)
+  {
+    return;
+  }
+
   elements_provided_ = false;
 
   const ConstTriangleList &tl0 = region0.GetTriangleList();
-- 
2.43.0


From 3fca00d87fdcd01bd777afb551e661bc0949b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 37/72] fix: a device whose creation failed does not stay

---
 src/commands/MeshingCommands.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index ce93994..8f5fe28 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -663,9 +663,21 @@ createDeviceCmd(CommandHandler &data)
     dsMesh::MeshKeeper &mdata = dsMesh::MeshKeeper::GetInstance();
     dsMesh::MeshPtr mp = mdata.GetMesh(meshName);
 
-    bool ret = mp->Instantiate(deviceName, errorString);
+    auto &gdata = GlobalData::GetInstance();
+    bool ret = false;
+    try
+    {
+      ret = mp->Instantiate(deviceName, errorString);
+    }
+    catch (...)
+    {
+      gdata.DeleteDevice(deviceName);
+      throw;
+    }
     if (!ret)
     {
+      //// do not keep an incomplete device
+      gdata.DeleteDevice(deviceName);
       data.SetErrorResult(errorString);
       return;
     }
-- 
2.43.0


From 42b0a1758e5b60c0652f1d973f2d8533a6924436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 38/72] fix: failed loads of gmsh meshes leave nothing behind

The mesh stayed registered after a failure, the scanner in the state where it
stopped and the file open. Sections that end early or miss entries are errors,
as are node and physical name indexes outside of their lists.
---
 src/meshing/GmshLoader.cc | 22 ++++++++--
 src/meshing/GmshParser.y  | 50 +++++++++++++++++++++-
 src/meshing/GmshReader.cc | 19 ++++++---
 src/meshing/GmshScanner.l | 87 ++++++++++++++++++++++++++-------------
 4 files changed, 139 insertions(+), 39 deletions(-)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 6d0ec95..49d4226 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -419,6 +419,7 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
       cnodes.clear();
       cedges.clear();
       ctriangles.clear();
+      bool nodes_ok = true;
       for (MeshNodeList_t::const_iterator tnit = mesh_nodes.begin(); tnit != mesh_nodes.end(); ++tnit)
       {
         size_t cindex = tnit->Index();
@@ -428,7 +429,7 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
           std::ostringstream os;
           os << "Contact " << contactName << " reference coordinate " << cindex << " which does not exist on any region.\n";
           OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
-          ret = false;
+          nodes_ok = false;
           continue;
         }
 
@@ -442,11 +443,17 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
           std::ostringstream os;
           os << "Contact " << contactName << " reference coordinate " << cindex << " not on region " << regionName << ".\n";
           OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
-          ret = false;
+          nodes_ok = false;
           continue;
         }
       }
 
+      if (!nodes_ok)
+      {
+        ret = false;
+        continue;
+      }
+
       if (cnodes.empty())
       {
         std::ostringstream os;
@@ -584,6 +591,7 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
         ret = false;
       }
 
+      bool nodes_ok = true;
       for (size_t i = 0; i < 2; ++i)
       {
         inodes[i].clear();
@@ -600,7 +608,7 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
           std::ostringstream os;
           os << "Interface " << interfaceName << " reference coordinate " << iindex << " which does not exist on any region.\n";
           OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
-          ret = false;
+          nodes_ok = false;
           continue;
         }
 
@@ -627,11 +635,17 @@ bool GmshLoader::Instantiate_(const std::string &deviceName, std::string &errorS
             os << "Interface " << interfaceName << " reference coordinate " << iindex << " not on region " << regionName1 << ".\n";
           }
           OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
-          ret = false;
+          nodes_ok = false;
           continue;
         }
       }
 
+      if (!nodes_ok)
+      {
+        ret = false;
+        continue;
+      }
+
       if (inodes[0].empty())
       {
         std::ostringstream os;
diff --git a/src/meshing/GmshParser.y b/src/meshing/GmshParser.y
index b4795e6..6e635dd 100644
--- a/src/meshing/GmshParser.y
+++ b/src/meshing/GmshParser.y
@@ -20,6 +20,30 @@ int Gmsherror(const char *msg);
 int Gmshlex();
 
 bool processElement(dsMesh::GmshLoader &, const std::vector<int> &);
+
+namespace {
+//// number of entries of the current section
+int entries_expected;
+int entries_found;
+
+void beginSection(int expected)
+{
+  entries_expected = expected;
+  entries_found    = 0;
+}
+
+bool endSection(const char *section)
+{
+  if (entries_found != entries_expected)
+  {
+    std::ostringstream os;
+    os << "ERROR: " << section << " has " << entries_found << " entries, expected " << entries_expected << "\n";
+    Gmsherror(os.str().c_str());
+    return false;
+  }
+  return true;
+}
+}
 %}
 
 //%token HELP
@@ -61,6 +85,9 @@ meshformat :
 
 physicalnames :
         BEG_PHYSICALNAMES EOL INT EOL
+        {
+          beginSection($3);
+        }
         | physicalnames INT INT WORD EOL
         {
           if (($2 < 0) || ($2 > 3))
@@ -86,17 +113,25 @@ physicalnames :
           }
           else
           {
+            ++entries_found;
             dsGmshParse::GmshLoader->AddPhysicalName($2, $3, $4);
           }
         }
         | physicalnames END_PHYSICALNAMES EOL
         {
           /// Verify we get the expected number
+          if (!endSection("PhysicalNames"))
+          {
+            YYABORT;
+          }
         }
         ;
 
 nodes :
         BEG_NODES EOL INT EOL
+        {
+          beginSection($3);
+        }
         | nodes INT number number number EOL
         {
           /// enforce that node index is a positive number
@@ -109,20 +144,29 @@ nodes :
           }
           else
           {
+            ++entries_found;
             dsGmshParse::GmshLoader->AddCoordinate($2, dsMesh::MeshCoordinate($3, $4, $5));
           }
         }
         | nodes END_NODES
         {
           /// Verify we get the expected number
+          if (!endSection("Nodes"))
+          {
+            YYABORT;
+          }
         }
         ;
 
 elements :
         BEG_ELEMENTS EOL INT EOL
+        {
+          beginSection($3);
+        }
         | elements intlist EOL
         {
           /// here we are processing a list of numbers since the number we expect are based on element type and tag properties
+          ++entries_found;
           bool ok = processElement(*dsGmshParse::GmshLoader, $2);
           if (!ok)
           {
@@ -132,6 +176,10 @@ elements :
         | elements END_ELEMENTS
         {
           /// Verify we get the expected number
+          if (!endSection("Elements"))
+          {
+            YYABORT;
+          }
         }
         ;
 
@@ -153,7 +201,7 @@ number : FLOAT {
 	} |
 	INT
 	{
-	    $$ = $1;
+	    $$ = $<dval>1;
 	}
 	;
 
diff --git a/src/meshing/GmshReader.cc b/src/meshing/GmshReader.cc
index 47e217a..d8d16c4 100644
--- a/src/meshing/GmshReader.cc
+++ b/src/meshing/GmshReader.cc
@@ -8,6 +8,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "GmshReader.hh"
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
+#include <memory>
 #include <sstream>
 
 namespace dsGmshParse {
@@ -24,9 +25,7 @@ void DeletePointers()
 
 bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &coordinates, const std::vector<std::string> &physical_names, const std::vector<size_t> &elements, std::string &errorString)
 {
-  dsMesh::GmshLoaderPtr gmshLoaderp = new dsMesh::GmshLoader(meshName);
-  dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-  mk.AddMesh(gmshLoaderp);
+  std::unique_ptr<dsMesh::GmshLoader> gmshLoaderp(new dsMesh::GmshLoader(meshName));
 
   dsMesh::GmshLoader &gmshLoader = *gmshLoaderp;
 
@@ -83,7 +82,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
       errorString = os.str();
       return false;
     }
-    else if ((eeindex + nodes_to_get + 1) > element_vec_len)
+    else if ((eeindex + nodes_to_get + 2) > element_vec_len)
     {
       std::ostringstream os;
       os << "ERROR: element list indexing error on element " << element_count << "\n";
@@ -93,7 +92,7 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     size_t physical_number = elements[eeindex + 1];
 
-    if (physical_number > physical_names.size())
+    if (physical_number >= physical_names.size())
     {
       std::ostringstream os;
       os << "ERROR: element physical index " << physical_number << " must be less than number of physical_names " << physical_names.size() <<  " on element " << element_count << " on position " << eeindex + 1 << "\n";
@@ -116,6 +115,13 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
 
     for (size_t i = 0; i < nodes_to_get; ++i)
     {
+      if (elements[eeindex + i + 2] >= num_coords)
+      {
+        std::ostringstream os;
+        os << "ERROR: element node index " << elements[eeindex + i + 2] << " must be less than the number of coordinates " << num_coords <<  " on element " << element_count << "\n";
+        errorString = os.str();
+        return false;
+      }
       node_indexes[i] = elements[eeindex + i + 2];
     }
 
@@ -150,6 +156,9 @@ bool LoadMeshesFromArgs(const std::string &meshName, const std::vector<double> &
     }
   }
 
+  dsMesh::MeshKeeper::GetInstance().AddMesh(gmshLoaderp.get());
+  gmshLoaderp.release();
+
   return true;
 }
 }
diff --git a/src/meshing/GmshScanner.l b/src/meshing/GmshScanner.l
index c996e72..fbc9ef2 100644
--- a/src/meshing/GmshScanner.l
+++ b/src/meshing/GmshScanner.l
@@ -9,7 +9,10 @@ SPDX-License-Identifier: Apache-2.0
 #include "Gmshyystype.hh"
 #include "GmshReader.hh"
 #include "GmshParser.hh"
+#include "dsException.hh"
 #include <sstream>
+// an error of the scanner must not end the process
+#define YY_FATAL_ERROR(msg) throw dsException(msg)
 #define YY_NO_UNPUT
 #ifdef _WIN32
 #include <io.h>
@@ -105,58 +108,84 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 		return WORD;
 	    }
 
-<*>.   {return yytext[0];}
+<*>.   {
+                // a zero would be taken as the end of the file
+                const int c = static_cast<unsigned char>(yytext[0]);
+                return c ? c : 1;
+            }
 %%
 
 int Gmshparse();
 #include "GmshLoader.hh"
 #include "MeshKeeper.hh"
 namespace dsGmshParse {
-bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
+namespace {
+//// leaves the scanner ready for the next file
+void EndOfLoad()
 {
-    bool ret = false;
-    dsGmshParse::errors.clear();
-    dsGmshParse::meshlineno = 0;
-
-
-    if (dsGmshParse::GmshLoader)
+    if (YY_CURRENT_BUFFER)
     {
-      std::ostringstream os;
-      os << "A Gmsh mesh is already being loaded by the name of " << dsGmshParse::GmshLoader->GetName() << "\n";
-      errorString += os.str();
-      return false;
+        yy_delete_buffer(YY_CURRENT_BUFFER);
     }
-    else
+    while (yy_start_stack_ptr > 0)
     {
-      dsGmshParse::GmshLoader = new dsMesh::GmshLoader(meshName);
-      dsMesh::MeshKeeper &mk = dsMesh::MeshKeeper::GetInstance();
-      mk.AddMesh(dsGmshParse::GmshLoader);
+        yy_pop_state();
     }
+    BEGIN(INITIAL);
+    fclose(Gmshin);
+    Gmshin = nullptr;
+    dsGmshParse::GmshLoader = nullptr;
+}
+}
 
-    Gmshin = fopen(fname.c_str(), "r");
+bool LoadMeshesFromFile(const std::string &fname, const std::string &meshName, std::string &errorString)
+{
+    dsGmshParse::errors.clear();
+    dsGmshParse::meshlineno = 1;
 
-    int retval = 1;
+    Gmshin = fopen(fname.c_str(), "r");
 
     if ( !Gmshin )
     {
-	std::ostringstream os;
-	os << "Could not open file " << fname << "\n";
-	errorString += os.str();
+        std::ostringstream os;
+        os << "Could not open file " << fname << "\n";
+        errorString += os.str();
+        return false;
     }
-    else
+
+    int retval = 1;
+    dsMesh::GmshLoaderPtr loader = nullptr;
+    try
     {
+        loader = new dsMesh::GmshLoader(meshName);
+        dsGmshParse::GmshLoader = loader;
         Gmsh_switch_to_buffer(Gmsh_create_buffer( Gmshin, YY_BUF_SIZE ) );
-	retval = Gmshparse();
-	yy_delete_buffer( YY_CURRENT_BUFFER );
+        retval = Gmshparse();
+        if (!retval && yy_start_stack_ptr > 0)
+        {
+            dsGmshParse::errors += "ERROR: unexpected end of file inside of a section\n";
+            retval = 1;
+        }
+        if (!retval)
+        {
+            dsMesh::MeshKeeper::GetInstance().AddMesh(loader);
+        }
+    }
+    catch (...)
+    {
+        EndOfLoad();
+        delete loader;
+        throw;
     }
 
+    EndOfLoad();
+    if (retval)
+    {
+        delete loader;
+    }
 
-    ret = !retval;
-
-    dsGmshParse::DeletePointers();
     errorString += dsGmshParse::errors;
-    dsGmshParse::GmshLoader = NULL;
-    return ret;
+    return !retval;
 }
 }
 
-- 
2.43.0


From 3e9221a6a02f95ee25be70240c598a196b0c3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 39/72] fix: built-in models whose sibling was deleted

---
 src/GeomModels/AverageEdgeModel.cc            |  5 +-
 src/GeomModels/CylindricalEdgeNodeVolume.cc   |  5 +-
 src/GeomModels/InterfaceNormal.cc             | 15 ++++-
 src/GeomModels/NodePosition.cc                | 20 ++++--
 src/GeomModels/SurfaceArea.cc                 | 65 +++++++++++++++----
 .../TriangleCylindricalNodeVolume.cc          |  5 +-
 src/GeomModels/UnitVec.cc                     | 10 ++-
 src/GeomModels/VectorGradient.cc              | 15 ++++-
 src/models/EdgeFromNodeModel.cc               |  5 +-
 9 files changed, 116 insertions(+), 29 deletions(-)

diff --git a/src/GeomModels/AverageEdgeModel.cc b/src/GeomModels/AverageEdgeModel.cc
index bc7980e..cea794a 100644
--- a/src/GeomModels/AverageEdgeModel.cc
+++ b/src/GeomModels/AverageEdgeModel.cc
@@ -218,7 +218,10 @@ void AverageEdgeModel<DoubleType>::calcEdgeScalarValues() const
             break;
       }
       this->SetValues(esl0);
-      std::const_pointer_cast<EdgeModel, const EdgeModel>(node1EdgeModel.lock())->SetValues(esl1);
+      if (auto model = std::const_pointer_cast<EdgeModel, const EdgeModel>(node1EdgeModel.lock()))
+      {
+        model->SetValues(esl1);
+      }
     }
 }
 
diff --git a/src/GeomModels/CylindricalEdgeNodeVolume.cc b/src/GeomModels/CylindricalEdgeNodeVolume.cc
index 4ef4b34..b5437d9 100644
--- a/src/GeomModels/CylindricalEdgeNodeVolume.cc
+++ b/src/GeomModels/CylindricalEdgeNodeVolume.cc
@@ -60,7 +60,10 @@ void CylindricalEdgeNodeVolume<DoubleType>::calcEdgeScalarValues() const
     const EdgeScalarList<DoubleType> &nv1 = eec1->GetValuesOnEdges<DoubleType>();
 
     SetValues(nv0);
-    node1Volume_.lock()->SetValues(nv1);
+    if (auto model = node1Volume_.lock())
+    {
+      model->SetValues(nv1);
+    }
 
   }
   else
diff --git a/src/GeomModels/InterfaceNormal.cc b/src/GeomModels/InterfaceNormal.cc
index 25d6c58..5eb9027 100644
--- a/src/GeomModels/InterfaceNormal.cc
+++ b/src/GeomModels/InterfaceNormal.cc
@@ -180,7 +180,10 @@ void InterfaceNormal<DoubleType>::calcEdgeScalarValues() const {
     {
       esl[i] = normals[i].Getx();
     }
-    normal_x.lock()->SetValues(esl);
+    if (auto model = normal_x.lock())
+    {
+      model->SetValues(esl);
+    }
   }
   if (!normal_y.expired())
   {
@@ -188,7 +191,10 @@ void InterfaceNormal<DoubleType>::calcEdgeScalarValues() const {
     {
       esl[i] = normals[i].Gety();
     }
-    normal_y.lock()->SetValues(esl);
+    if (auto model = normal_y.lock())
+    {
+      model->SetValues(esl);
+    }
   }
   if (!normal_z.expired())
   {
@@ -196,7 +202,10 @@ void InterfaceNormal<DoubleType>::calcEdgeScalarValues() const {
     {
       esl[i] = normals[i].Getz();
     }
-    normal_z.lock()->SetValues(esl);
+    if (auto model = normal_z.lock())
+    {
+      model->SetValues(esl);
+    }
   }
 
 }
diff --git a/src/GeomModels/NodePosition.cc b/src/GeomModels/NodePosition.cc
index 47a69d3..a557e7d 100644
--- a/src/GeomModels/NodePosition.cc
+++ b/src/GeomModels/NodePosition.cc
@@ -52,10 +52,22 @@ void NodePosition<DoubleType>::calcNodeScalarValues() const
         ci[i] = nl[i]->GetCoordinate().GetIndex();
     }
     SetValues(nx);
-    yposition.lock()->SetValues(ny);
-    zposition.lock()->SetValues(nz);
-    node_index.lock()->SetValues(ni);
-    coordinate_index.lock()->SetValues(ci);
+    if (auto model = yposition.lock())
+    {
+      model->SetValues(ny);
+    }
+    if (auto model = zposition.lock())
+    {
+      model->SetValues(nz);
+    }
+    if (auto model = node_index.lock())
+    {
+      model->SetValues(ni);
+    }
+    if (auto model = coordinate_index.lock())
+    {
+      model->SetValues(ci);
+    }
 }
 
 template <typename DoubleType>
diff --git a/src/GeomModels/SurfaceArea.cc b/src/GeomModels/SurfaceArea.cc
index 23d6082..ea41c04 100644
--- a/src/GeomModels/SurfaceArea.cc
+++ b/src/GeomModels/SurfaceArea.cc
@@ -103,7 +103,10 @@ void SurfaceArea<DoubleType>::calcSurfaceArea1d() const
     }
     SetValues(nv);
     dsAssert(!contact_area.expired(), "UNEXPECTED");
-    contact_area.lock()->SetValues(ca);
+    if (auto model = contact_area.lock())
+    {
+      model->SetValues(ca);
+    }
 }
 
 template <typename DoubleType>
@@ -183,10 +186,19 @@ void SurfaceArea<DoubleType>::calcSurfaceArea2d() const
 
     SurfaceAreaUtil::processEdgeList(contact_edge_list, unitx, unity, edgeLengths, nv, nvx, nvy);
 
-    contact_area.lock()->SetValues(nv);
+    if (auto model = contact_area.lock())
+    {
+      model->SetValues(nv);
+    }
 
-    ncontact_x.lock()->SetValues(nvx);
-    ncontact_y.lock()->SetValues(nvy);
+    if (auto model = ncontact_x.lock())
+    {
+      model->SetValues(nvx);
+    }
+    if (auto model = ncontact_y.lock())
+    {
+      model->SetValues(nvy);
+    }
   }
   {
     //// This is the net surface area for the vector
@@ -198,8 +210,14 @@ void SurfaceArea<DoubleType>::calcSurfaceArea2d() const
     SurfaceAreaUtil::processEdgeList(interface_edge_list, unitx, unity, edgeLengths, nv, nvx, nvy);
 
     SetValues(nv);
-    nsurf_x.lock()->SetValues(nvx);
-    nsurf_y.lock()->SetValues(nvy);
+    if (auto model = nsurf_x.lock())
+    {
+      model->SetValues(nvx);
+    }
+    if (auto model = nsurf_y.lock())
+    {
+      model->SetValues(nvy);
+    }
   }
 }
 
@@ -272,11 +290,23 @@ void SurfaceArea<DoubleType>::calcSurfaceArea3d() const
 
     SurfaceAreaUtil::processTriangleList(contact_triangle_list, triangleCenters, nv, nvx, nvy, nvz);
 
-    contact_area.lock()->SetValues(nv);
+    if (auto model = contact_area.lock())
+    {
+      model->SetValues(nv);
+    }
     
-    ncontact_x.lock()->SetValues(nvx);
-    ncontact_y.lock()->SetValues(nvy);
-    ncontact_z.lock()->SetValues(nvz);
+    if (auto model = ncontact_x.lock())
+    {
+      model->SetValues(nvx);
+    }
+    if (auto model = ncontact_y.lock())
+    {
+      model->SetValues(nvy);
+    }
+    if (auto model = ncontact_z.lock())
+    {
+      model->SetValues(nvz);
+    }
   }
 
   {
@@ -291,9 +321,18 @@ void SurfaceArea<DoubleType>::calcSurfaceArea3d() const
 
     SetValues(nv);
 
-    nsurf_x.lock()->SetValues(nvx);
-    nsurf_y.lock()->SetValues(nvy);
-    nsurf_z.lock()->SetValues(nvz);
+    if (auto model = nsurf_x.lock())
+    {
+      model->SetValues(nvx);
+    }
+    if (auto model = nsurf_y.lock())
+    {
+      model->SetValues(nvy);
+    }
+    if (auto model = nsurf_z.lock())
+    {
+      model->SetValues(nvz);
+    }
   }
 }
 
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index db0043a..42ec022 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -106,7 +106,10 @@ void TriangleCylindricalNodeVolume<DoubleType>::calcTriangleEdgeScalarValues() c
   }
 
   SetValues(ev0);
-  node1Volume_.lock()->SetValues(ev1);
+  if (auto model = node1Volume_.lock())
+  {
+    model->SetValues(ev1);
+  }
 }
 
 //// TODO: detect when radii crosses z axis before swept
diff --git a/src/GeomModels/UnitVec.cc b/src/GeomModels/UnitVec.cc
index a5ea542..c0f8b2b 100644
--- a/src/GeomModels/UnitVec.cc
+++ b/src/GeomModels/UnitVec.cc
@@ -59,11 +59,17 @@ void UnitVec<DoubleType>::calcEdgeScalarValues() const
   SetValues(ux);
   if (!unity.expired())
   {
-    unity.lock()->SetValues(uy);
+    if (auto model = unity.lock())
+    {
+      model->SetValues(uy);
+    }
   }
   if (!unitz.expired())
   {
-    unitz.lock()->SetValues(uz);
+    if (auto model = unitz.lock())
+    {
+      model->SetValues(uz);
+    }
   }
 }
 
diff --git a/src/GeomModels/VectorGradient.cc b/src/GeomModels/VectorGradient.cc
index 4bc4736..4295bf6 100644
--- a/src/GeomModels/VectorGradient.cc
+++ b/src/GeomModels/VectorGradient.cc
@@ -187,7 +187,10 @@ void VectorGradient<DoubleType>::calc2d() const
   }
 
   SetValues(vx);
-  yfield_.lock()->SetValues(vy);
+  if (auto model = yfield_.lock())
+  {
+    model->SetValues(vy);
+  }
 }
 
 template <typename DoubleType>
@@ -259,8 +262,14 @@ void VectorGradient<DoubleType>::calc3d() const
   }
 
   SetValues(vx);
-  yfield_.lock()->SetValues(vy);
-  zfield_.lock()->SetValues(vz);
+  if (auto model = yfield_.lock())
+  {
+    model->SetValues(vy);
+  }
+  if (auto model = zfield_.lock())
+  {
+    model->SetValues(vz);
+  }
 }
 
 template <typename DoubleType>
diff --git a/src/models/EdgeFromNodeModel.cc b/src/models/EdgeFromNodeModel.cc
index 0c143fa..271dbf1 100644
--- a/src/models/EdgeFromNodeModel.cc
+++ b/src/models/EdgeFromNodeModel.cc
@@ -76,7 +76,10 @@ void EdgeFromNodeModel<DoubleType>::calcEdgeScalarValues() const
     EdgeScalarList<DoubleType> e1;
     createEdgeModelsFromNodeModel(nm->GetScalarValues<DoubleType>(), *rp, e0, e1);
     this->SetValues(e0);
-    std::const_pointer_cast<EdgeModel, const EdgeModel>(node1EdgeModel.lock())->SetValues(e1);
+    if (auto model = std::const_pointer_cast<EdgeModel, const EdgeModel>(node1EdgeModel.lock()))
+    {
+      model->SetValues(e1);
+    }
 }
 
 template <typename DoubleType>
-- 
2.43.0


From c5b0c5a252fe42c63259596e10da3495be88196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 40/72] fix: delete_circuit returns normally

---
 src/commands/CircuitCommands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 72f4184..59777c2 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -593,6 +593,7 @@ circuitDeleteCircuitCmd(CommandHandler &data)
 
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
+  data.SetEmptyResult();
 };
 
 void
-- 
2.43.0


From 8f8c31462e98291b21e12c8b9f75f8e0101891ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 41/72] fix: derivative of an edge average model that does not
 exist

---
 src/commands/ModelCommands.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/commands/ModelCommands.cc b/src/commands/ModelCommands.cc
index a80ba1e..fe2a81f 100644
--- a/src/commands/ModelCommands.cc
+++ b/src/commands/ModelCommands.cc
@@ -778,6 +778,19 @@ createEdgeAverageModelCmd(CommandHandler &data)
       data.SetErrorResult(errorString);
       return;
     }
+
+    if (derivativeModel != nodeModel)
+    {
+      const std::string &nodeDerivative = nodeModel + ":" + derivativeModel;
+      if (!reg->GetNodeModel(nodeDerivative))
+      {
+        std::ostringstream os;
+        os << nodeDerivative << " is not an existing node model";
+        errorString = os.str();
+        data.SetErrorResult(errorString);
+        return;
+      }
+    }
   }
 
   AverageEdgeModelEnum::AverageType_t atype = AverageEdgeModelEnum::GetTypeName(averageType, errorString);
-- 
2.43.0


From 4f5a2a1f4cca9e21bd972039450ed4b6af8eecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 42/72] fix: a one dimensional mesh can be finalized after a
 failed attempt

---
 src/meshing/Mesh1d.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshing/Mesh1d.cc b/src/meshing/Mesh1d.cc
index 04d986b..c9f4633 100644
--- a/src/meshing/Mesh1d.cc
+++ b/src/meshing/Mesh1d.cc
@@ -56,6 +56,14 @@ void Mesh1d::SetLocationsAndTags()
 {
     dsAssert(!points.empty(), "UNEXPECTED");
 
+    //// what a previous attempt to finalize has left behind
+    locations.clear();
+    tagsToIndices.clear();
+    indicesToTags.clear();
+    indexToInterfaceIndex.clear();
+    indexToRegionIndex.clear();
+    indexToContactIndex.clear();
+
     sort(points.begin(), points.end());
 
     double xl = points[0].getPosition();
@@ -117,7 +125,7 @@ struct RegionSort
     {
         dsAssert(r0.GetIndex0() < r0.GetIndex1(), "UNEXPECTED");
         dsAssert(r1.GetIndex0() < r1.GetIndex1(), "UNEXPECTED");
-        return (r0.GetIndex0() < r1.GetIndex1());
+        return (r0.GetIndex0() < r1.GetIndex0());
     }
 };
 }
-- 
2.43.0


From 41a93f5a450dae27ddd6be645fe7f73ea45a0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 43/72] fix: coordinates of mesh commands which are not a
 number

---
 src/commands/CheckFunctions.cc  | 17 ++++++++++++++-
 src/commands/CheckFunctions.hh  |  1 +
 src/commands/MeshingCommands.cc | 38 ++++++++++++++++-----------------
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/commands/CheckFunctions.cc b/src/commands/CheckFunctions.cc
index 1e536cb..33bcf4e 100644
--- a/src/commands/CheckFunctions.cc
+++ b/src/commands/CheckFunctions.cc
@@ -11,6 +11,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "MeshKeeper.hh"
 #include "Mesh1d.hh"
 #include "Validate.hh"
+#include <cmath>
 #include <sstream>
 namespace dsCommand {
 
@@ -20,7 +21,7 @@ bool mustBePositive(const std::string &optionName, std::string &errorString, con
 
     const double dval = args.GetDoubleOption(optionName);
 
-    if (dval <= 0)
+    if (std::isnan(dval) || (dval <= 0))
     {
         std::ostringstream os;
         os << "-" << optionName << " must be greater than 0.0\n";
@@ -31,6 +32,20 @@ bool mustBePositive(const std::string &optionName, std::string &errorString, con
     return ret;
 }
 
+bool mustBeNumber(const std::string &optionName, std::string &errorString, const CommandHandler &args)
+{
+    bool ret = true;
+
+    if (std::isnan(args.GetDoubleOption(optionName)))
+    {
+        std::ostringstream os;
+        os << "-" << optionName << " must be a number\n";
+        errorString += os.str();
+        ret = false;
+    }
+
+    return ret;
+}
 
 bool stringCannotBeEmpty(const std::string &optionName, std::string &errorString, const CommandHandler &args)
 {
diff --git a/src/commands/CheckFunctions.hh b/src/commands/CheckFunctions.hh
index 7a9f9db..6e23b2d 100644
--- a/src/commands/CheckFunctions.hh
+++ b/src/commands/CheckFunctions.hh
@@ -14,6 +14,7 @@ class GetArgs;
 class CommandHandler;
 namespace dsCommand {
 bool mustBePositive(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
+bool mustBeNumber(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool stringCannotBeEmpty(const std::string &/*optionName*/,std::string &/*errorString*/, const CommandHandler &);
 bool meshCannotExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
 bool meshMustExist(const std::string &/*optionName*/, std::string &/*errorString*/, const CommandHandler &);
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 8f5fe28..324d9f9 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -185,9 +185,9 @@ add1dMeshLineCmd(CommandHandler &data)
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"tag",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, nullptr},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeNumber},
 /// this will default to plus spacing
-        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
@@ -246,9 +246,9 @@ add2dMeshLineCmd(CommandHandler &data)
     using namespace dsGetArgs;
     static dsGetArgs::Option option[] = {
         {"mesh",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
-        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, nullptr},
+        {"pos",    "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBeNumber},
 /// this will default to plus spacing
-        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"ns",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {"ps",     "0", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::REQUIRED, mustBePositive},
         {"dir",    "",  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, nullptr},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
@@ -414,11 +414,11 @@ add2dInterfaceCmd(CommandHandler &data)
         {"name",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region0",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region1",    "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr,  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
 
@@ -484,11 +484,11 @@ add2dContactCmd(CommandHandler &data)
         {"name",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"material", "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"region",  "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr,  dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL,  nullptr}
     };
 
@@ -590,11 +590,11 @@ add2dRegionCmd(CommandHandler &data)
         {"mesh",     "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, meshMustNotBeFinalized},
         {"region",   "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
         {"material", "", dsGetArgs::optionType::STRING, dsGetArgs::requiredType::REQUIRED, stringCannotBeEmpty},
-        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
-        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, nullptr},
+        {"xl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"xh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yl", "-MAXDOUBLE", dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"yh", "MAXDOUBLE",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
+        {"bloat", "1.0e-10",  dsGetArgs::optionType::FLOAT, dsGetArgs::requiredType::OPTIONAL, mustBeNumber},
         {nullptr,  nullptr, dsGetArgs::optionType::STRING, dsGetArgs::requiredType::OPTIONAL, nullptr}
     };
 
-- 
2.43.0


From ee843993e81bd859b386b91983a40c371f44a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 44/72] fix: derivative models missing for one end of the edge
 at a contact

---
 src/Equation/ContactEquation.cc | 48 +++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index dd4bd4c..5df33c2 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -793,6 +793,10 @@ void ContactEquation<DoubleType>::AssembleEdgeEquation(const std::string &emodel
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+      }
       else
       {
         EdgeScalarData<DoubleType> edd0(*ec);
@@ -1005,6 +1009,14 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquation(const std::string
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
       else
       {
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
@@ -1246,6 +1258,18 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquation(const std::str
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
+      else if (!edm3)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel3, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
       else
       {
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
@@ -1490,6 +1514,10 @@ void ContactEquation<DoubleType>::AssembleEdgeEquationOnCircuit(const std::strin
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::FATAL);
+      }
       else
       {
         EdgeScalarData<DoubleType> edd0(*ec);
@@ -1721,6 +1749,14 @@ void ContactEquation<DoubleType>::AssembleTriangleEdgeEquationOnCircuit(const st
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
       else
       {
         TriangleEdgeScalarData<DoubleType> edd0(*ec);
@@ -1974,6 +2010,18 @@ void ContactEquation<DoubleType>::AssembleTetrahedronEdgeEquationOnCircuit(const
       {
         dsErrors::MissingContactEquationModel(region, *this, dermodel0, dsErrors::ModelInfo::EDGE, OutputStream::OutputType::VERBOSE1);
       }
+      else if (!edm1)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel1, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
+      else if (!edm2)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel2, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
+      else if (!edm3)
+      {
+        dsErrors::MissingContactEquationModel(region, *this, dermodel3, dsErrors::ModelInfo::ELEMENTEDGE, OutputStream::OutputType::FATAL);
+      }
       else
       {
         TetrahedronEdgeScalarData<DoubleType> edd0(*ec);
-- 
2.43.0


From 8657bf03efe28d6b767cc7d02bb03924ae13d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:35 +0000
Subject: [PATCH 45/72] fix: an edge volume model is assembled without an edge
 model as well

---
 src/AutoEquation/ExprEquation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/AutoEquation/ExprEquation.cc b/src/AutoEquation/ExprEquation.cc
index daad619..16e7fce 100644
--- a/src/AutoEquation/ExprEquation.cc
+++ b/src/AutoEquation/ExprEquation.cc
@@ -51,10 +51,12 @@ void ExprEquation<DoubleType>::DerivedAssemble(dsMath::RealRowColValueVec<Double
         {
             model_cache->clear();
             Equation<DoubleType>::EdgeCoupleAssemble(edge_model_, m, v, w);
-            if (!edge_volume_model_.empty())
-            {
-              Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
-            }
+        }
+
+        if (!edge_volume_model_.empty())
+        {
+            model_cache->clear();
+            Equation<DoubleType>::EdgeNodeVolumeAssemble(edge_volume_model_, m, v, w);
         }
 
         if (!node_model_.empty())
-- 
2.43.0


From 9461b48c7f2a7153d8d9467fe3c153069fe0db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 46/72] fix: the iterative solver does not report success
 without a solution

A singular block preconditioner or a breakdown of the iterations gave an
update of nothing, which Newton takes for convergence, or left a floating
point exception behind which was reported after the step was accepted.
---
 src/math/BlockPreconditioner.cc   |  4 ++--
 src/math/IterativeLinearSolver.cc | 32 ++++++++++++++++++++++++++++++-
 src/math/gmres.cc                 |  6 ++++--
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/math/BlockPreconditioner.cc b/src/math/BlockPreconditioner.cc
index f308227..a651c17 100644
--- a/src/math/BlockPreconditioner.cc
+++ b/src/math/BlockPreconditioner.cc
@@ -167,8 +167,8 @@ void BlockPreconditioner<DoubleType>::ProcessBlockInfo(const IntVec_t &Cols, con
       }
       else
       {
-        const BlockInfo &binfo = blockInfoList_[rbindex];
-        if (!((c >= binfo.min_range_) && (c <= binfo.max_range_)))
+        const bool in_block = (rbindex != size_t(-1));  // false for a circuit equation
+        if (!(in_block && (c >= blockInfoList_[rbindex].min_range_) && (c <= blockInfoList_[rbindex].max_range_)))
         {
           //// These entries must always be added since tie interfaces, contacts
           block_matrix_->AddEntry(r, c, v);
diff --git a/src/math/IterativeLinearSolver.cc b/src/math/IterativeLinearSolver.cc
index cb874e5..5f151db 100644
--- a/src/math/IterativeLinearSolver.cc
+++ b/src/math/IterativeLinearSolver.cc
@@ -6,10 +6,12 @@ SPDX-License-Identifier: Apache-2.0
 ***/
 
 #include "IterativeLinearSolver.hh"
+#include "Matrix.hh"
 #include "Preconditioner.hh"
 
 #include "OutputStream.hh"
 #include "gmres.hh"
+#include "FPECheck.hh"
 
 #ifdef DEVSIM_EXTENDED_PRECISION
 #include "Float128.hh"
@@ -25,6 +27,25 @@ template <typename DoubleType>
 IterativeLinearSolver<DoubleType>::IterativeLinearSolver() : restart_(50), linear_iterations_(100), relative_tolerance_(1e-20)
 {}
 
+namespace {
+/// The iteration only sees the preconditioned residual, which may vanish for
+/// a preconditioner which is singular.
+bool IsReduced(const Matrix<double> &mat, const std::vector<double> &sol, const std::vector<double> &rhs)
+{
+  std::vector<double> y;
+  mat.Multiply(sol, y);
+
+  double before = 0.0;
+  double after  = 0.0;
+  for (size_t i = 0; i < rhs.size(); ++i)
+  {
+    before = std::hypot(before, rhs[i]);
+    after  = std::hypot(after, rhs[i] - y[i]);
+  }
+  return (after <= 1.0e-3 * before);
+}
+}
+
 template <>
 bool IterativeLinearSolver<double>::SolveImpl(Matrix<double> &mat, Preconditioner<double> &pre, std::vector<double> &sol, std::vector<double> &rhs)
 {
@@ -39,9 +60,18 @@ bool IterativeLinearSolver<double>::SolveImpl(Matrix<double> &mat, Preconditione
     int m = restart_;
     int iter = linear_iterations_;
     double tol = relative_tolerance_;
+    FPECheck::ClearFPE();
     int linear_convergence = GMRES(mat, sol, rhs, pre, m, iter, tol);
     // not reaching the tolerance is not an error, but there is no result then
-    ret = std::isfinite(tol);
+    ret = std::isfinite(tol) && IsReduced(mat, sol, rhs);
+    if (FPECheck::CheckFPE())
+    {
+      std::ostringstream os;
+      os << "There was a floating point exception of type \"" << FPECheck::getFPEString() << "\"  during the linear iterations\n";
+      OutputStream::WriteOut(OutputStream::OutputType::ERROR, os.str());
+      FPECheck::ClearFPE();
+      ret = false;
+    }
     std::ostringstream os;
     os
       << "GMRES back vectors " << m
diff --git a/src/math/gmres.cc b/src/math/gmres.cc
index a9e4d4e..0cab8ff 100644
--- a/src/math/gmres.cc
+++ b/src/math/gmres.cc
@@ -303,7 +303,9 @@ int GMRES(const Operator &A, Vector &x, const Vector &b,
         w -= H(k, i) * v[k];
       }
       H(i+1, i) = norm(w);
-      v[i+1] = w * (1.0 / H(i+1, i)); // ??? w / H(i+1, i)
+      const bool last = (H(i+1, i) == 0.0);  // no further direction to search
+      if (!last)
+        v[i+1] = w * (1.0 / H(i+1, i)); // ??? w / H(i+1, i)
 
       for (k = 0; k < i; k++)
         ApplyPlaneRotation(H(k,i), H(k+1,i), cs(k), sn(k));
@@ -312,7 +314,7 @@ int GMRES(const Operator &A, Vector &x, const Vector &b,
       ApplyPlaneRotation(H(i,i), H(i+1,i), cs(i), sn(i));
       ApplyPlaneRotation(s(i), s(i+1), cs(i), sn(i));
 
-      if ((resid = abs<Real>(s(i+1)) / normb) < tol) {
+      if ((resid = abs<Real>(s(i+1)) / normb) < tol || last) {
         Update(x, i, H, s, v);
         tol = resid;
         max_iter = j;
-- 
2.43.0


From 754a56d62f28e7f8401c6ff08102942e43396e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:42 +0000
Subject: [PATCH 47/72] fix: the time points of transient analysis do not get
 mixed up

- running out of memory while a step is accepted left some of the history moved on
- after a change of extended_solver the history of the other precision was used
- a step whose charge or current is not finite was accepted
---
 src/math/Newton.cc   | 47 ++++++++++++++++++++++++++++++++++++++------
 src/math/TimeData.cc | 13 ++++++++++++
 src/math/TimeData.hh |  3 +++
 3 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index d49ec9e..6282d69 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -38,10 +38,28 @@ SPDX-License-Identifier: Apache-2.0
 #include <iomanip>
 #include <cmath>
 #include <cstdlib>
+#include <limits>
+#include <type_traits>
 using std::abs;
 
 namespace dsMath {
 
+namespace {
+template <typename DoubleType>
+bool IsFinite(const DoubleVec_t<DoubleType> &v)
+{
+  const DoubleType vmax = static_cast<DoubleType>(std::numeric_limits<double>::max());
+  for (const auto &x : v)
+  {
+    if ((x != x) || (abs(x) > vmax))
+    {
+      return false;
+    }
+  }
+  return true;
+}
+}
+
 template <typename DoubleType>
 Newton<DoubleType>::Newton() {}
 
@@ -870,6 +888,14 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
     {
       converged = converged && CheckTransientProjection(timeinfo, newQ, ohm);
     }
+
+    //// a step cannot start from here when this is not finite
+    if (converged)
+    {
+      newI.resize(numeqns);
+      LoadMatrixAndRHS(*matrix, newI, permvec, dsMathEnum::WhatToLoad::RHS, dsMathEnum::TimeMode::DC, static_cast<DoubleType>(1.0));
+      converged = IsFinite(newQ) && IsFinite(newI);
+    }
   }
 
   if (ohm)
@@ -884,12 +910,6 @@ bool Newton<DoubleType>::Solve(LinearSolver<DoubleType> &itermethod, const TimeM
   }
   else
   {
-    if (timeinfo.IsTransient())
-    {
-      newI.resize(numeqns);
-      LoadMatrixAndRHS(*matrix, newI, permvec, dsMathEnum::WhatToLoad::RHS, dsMathEnum::TimeMode::DC, static_cast<DoubleType>(1.0));
-    }
-
     if (nk.HaveNodes())
     {
       auto dbent = gdata.GetDBEntryOnGlobal("debug_level");
@@ -1131,6 +1151,21 @@ template <typename DoubleType>
 void Newton<DoubleType>::UpdateTransientCurrent(const TimeMethods::TimeParams<DoubleType> &timeinfo, size_t numeqns, const DoubleVec_t<DoubleType> &newI, const DoubleVec_t<DoubleType> &newQ)
 {
   TimeData<DoubleType> &tinst = TimeData<DoubleType>::GetInstance();
+  //// running out of memory between the time points would mix them up
+  tinst.Reserve(numeqns);
+
+#ifdef DEVSIM_EXTENDED_PRECISION
+  //// the time points of the other precision do not precede the next step
+  if constexpr (std::is_same_v<DoubleType, double>)
+  {
+    TimeData<float128>::DestroyInstance();
+  }
+  else
+  {
+    TimeData<double>::DestroyInstance();
+  }
+#endif
+
   if (timeinfo.IsDCMethod())
   {
     //// There is no displacement current for a dc solution
diff --git a/src/math/TimeData.cc b/src/math/TimeData.cc
index a3563ee..b470d65 100644
--- a/src/math/TimeData.cc
+++ b/src/math/TimeData.cc
@@ -80,6 +80,19 @@ void TimeData<DoubleType>::ClearQ(TimePoint_t tp)
   QData[static_cast<size_t>(tp)].clear();
 }
 
+template <typename DoubleType>
+void TimeData<DoubleType>::Reserve(size_t n)
+{
+  for (auto &data : IData)
+  {
+    data.reserve(n);
+  }
+  for (auto &data : QData)
+  {
+    data.reserve(n);
+  }
+}
+
 template <typename DoubleType>
 void TimeData<DoubleType>::AssembleI(TimePoint_t tp, DoubleType scale, std::vector<DoubleType> &v)
 {
diff --git a/src/math/TimeData.hh b/src/math/TimeData.hh
index 28756b9..d71ede8 100644
--- a/src/math/TimeData.hh
+++ b/src/math/TimeData.hh
@@ -32,6 +32,9 @@ class TimeData
         void AssembleI(TimePoint_t, DoubleType, std::vector<DoubleType> &);
         void AssembleQ(TimePoint_t, DoubleType, std::vector<DoubleType> &);
 
+        //// no memory is needed later to set this many equations
+        void Reserve(size_t);
+
         bool ExistsI(TimePoint_t tp)
         {
           return !IData[static_cast<size_t>(tp)].empty();
-- 
2.43.0


From ced18fb21fd36b16c860b5395556c64638918f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 48/72] fix: an element connected to the alias of a node is
 connected to the node

---
 src/Circuit/data/NodeKeeper.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 9b0686e..7a892cb 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -60,6 +60,12 @@ CircuitNodePtr NodeKeeper::AddNode(const std::string & name, CircuitNodeType nt,
         OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
     }
 
+    //// an alias is the node it was made for
+    const auto alias = NodeAliasTable_.find(name);
+    if (alias != NodeAliasTable_.end())
+    {
+        return NodeTable_[alias->second];
+    }
 
     if (NodeTable_.count(name))
     {
-- 
2.43.0


From 30870bce1a165b9647dd1b10383bfc9189d1581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 49/72] fix: small signal and noise analysis do not accept a
 result that is not finite

---
 src/math/Newton.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/math/Newton.cc b/src/math/Newton.cc
index 6282d69..25b37af 100644
--- a/src/math/Newton.cc
+++ b/src/math/Newton.cc
@@ -58,6 +58,19 @@ bool IsFinite(const DoubleVec_t<DoubleType> &v)
   }
   return true;
 }
+
+template <typename DoubleType>
+bool IsFiniteComplex(const ComplexDoubleVec_t<DoubleType> &v)
+{
+  DoubleVec_t<DoubleType> parts;
+  parts.reserve(2 * v.size());
+  for (const auto &x : v)
+  {
+    parts.push_back(x.real());
+    parts.push_back(x.imag());
+  }
+  return IsFinite<DoubleType>(parts);
+}
 }
 
 template <typename DoubleType>
@@ -1284,7 +1297,7 @@ bool Newton<DoubleType>::ACSolve(LinearSolver<DoubleType> &itermethod, DoubleTyp
 
     matrix->Finalize();
 
-    bool solveok = itermethod.ACSolve(*matrix, *preconditioner, result, rhs);
+    bool solveok = itermethod.ACSolve(*matrix, *preconditioner, result, rhs) && IsFiniteComplex<DoubleType>(result);
     converged = solveok;
     if (!solveok)
     {
@@ -1405,7 +1418,7 @@ bool Newton<DoubleType>::NoiseSolve(const std::string &output_name, LinearSolver
 
     matrix->Finalize();
 
-    bool solveok = itermethod.NoiseSolve(*matrix, *preconditioner, result, rhs);
+    bool solveok = itermethod.NoiseSolve(*matrix, *preconditioner, result, rhs) && IsFiniteComplex<DoubleType>(result);
     converged = solveok;
     if (!solveok)
     {
-- 
2.43.0


From 78eb49ce3b7eeb6bbd66a65ab55323fc7c2290cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:46 +0000
Subject: [PATCH 50/72] fix: a bias ramp which is given up leaves the last
 converged bias, and ends when the step no longer moves it

---
 python_packages/ramp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python_packages/ramp.py b/python_packages/ramp.py
index 799d26b..3b29409 100644
--- a/python_packages/ramp.py
+++ b/python_packages/ramp.py
@@ -58,6 +58,8 @@ def rampbias(
     while abs(last_bias - end_bias) > min_step:
         print(("%s last end %e %e") % (contact, last_bias, end_bias))
         next_bias = last_bias + step_sign * step_size
+        if next_bias == last_bias:
+            raise RuntimeError("Minimum step size too small")
         if next_bias < end_bias:
             next_step_sign = 1
         else:
@@ -78,11 +80,11 @@ def rampbias(
                 maximum_iterations=max_iter,
             )
         except ds.error as msg:
-            if str(msg).find("Convergence failure") != 0:
-                raise
             ds.set_parameter(
                 device=device, name=GetContactBiasName(contact), value=last_bias
             )
+            if str(msg).find("Convergence failure") != 0:
+                raise
             step_size *= 0.5
             print("setting new step size %e" % (step_size))
             if step_size < min_step:
-- 
2.43.0


From 4cfbfee818648be73fb32e36a98402cf5e0c4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 51/72] fix: floating point exceptions raised in worker threads
 are kept per thread

---
 src/utility/FPECheck.cc | 2 +-
 src/utility/FPECheck.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/FPECheck.cc b/src/utility/FPECheck.cc
index 9227d42..b59ae05 100644
--- a/src/utility/FPECheck.cc
+++ b/src/utility/FPECheck.cc
@@ -14,7 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <cmath>
 #include <cassert>
 
-FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
+thread_local FPECheck::FPEFlag_t FPECheck::fpe_raised_ = 0;
 
 #ifndef _WIN32
 void fpehandle(int)
diff --git a/src/utility/FPECheck.hh b/src/utility/FPECheck.hh
index 7e3502b..65c625f 100644
--- a/src/utility/FPECheck.hh
+++ b/src/utility/FPECheck.hh
@@ -41,6 +41,6 @@ class FPECheck
     FPECheck(const FPECheck &);
     FPECheck &operator=(const FPECheck &);
 
-    static FPECheck::FPEFlag_t fpe_raised_;
+    static thread_local FPECheck::FPEFlag_t fpe_raised_;
 };
 #endif
-- 
2.43.0


From 9bc71ec820b9675d417a13d93606f471088f48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 52/72] fix: an include_test that fails while a file is written
 is an error

---
 src/meshing/MeshWriter.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/MeshWriter.cc b/src/meshing/MeshWriter.cc
index a456228..eee6e00 100644
--- a/src/meshing/MeshWriter.cc
+++ b/src/meshing/MeshWriter.cc
@@ -7,6 +7,9 @@ SPDX-License-Identifier: Apache-2.0
 
 #include "MeshWriter.hh"
 #include "Interpreter.hh"
+#include "OutputStream.hh"
+
+#include <sstream>
 
 MeshWriter::~MeshWriter() {}
 
@@ -62,8 +65,15 @@ class MeshWriterTestFunctor {
             if (ok)
             {
                 auto x = interp.GetResult().GetBoolean();
+                ok = x.first;
                 ret = x.first && x.second;
             }
+            if (!ok)
+            {
+                std::ostringstream os;
+                os << "Error when evaluating \"include_test\" for \"" << arg << "\"\n" << interp.GetErrorString();
+                OutputStream::WriteOut(OutputStream::OutputType::FATAL, os.str());
+            }
             return ret;
         }
 
-- 
2.43.0


From 370dba93d96b8017d3a3cd4cd8d247d965965511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 53/72] fix: a failed conversion to a boolean leaves no Python
 exception behind

---
 src/pythonapi/ObjectHolder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 761e145..0bee927 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -219,6 +219,10 @@ ObjectHolder::BooleanEntry_t ObjectHolder::GetBoolean() const
       ok  = true;
       val = (ret == 1);
     }
+    else
+    {
+      PyErr_Clear();
+    }
   }
 
   return std::make_pair(ok, val);
-- 
2.43.0


From bab77e08f42a283d9c15d5013faa0c3eee42c9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 54/72] fix: finalize_mesh of a Gmsh mesh can be repeated after
 it failed

---
 src/meshing/GmshLoader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshing/GmshLoader.cc b/src/meshing/GmshLoader.cc
index 49d4226..e13b557 100644
--- a/src/meshing/GmshLoader.cc
+++ b/src/meshing/GmshLoader.cc
@@ -735,6 +735,8 @@ bool GmshLoader::Finalize_(std::string &errorString)
   /// for each element, we must put it into the appropriate region
   /// Mesh coordinates are over the entire device
 
+  // there may be something from an attempt which failed
+  gmshShapesMap.clear();
   for (size_t i = 0; i < elementList.size(); ++i)
   {
     const GmshElement &elem = elementList[i];
-- 
2.43.0


From 94bd0a6240841fb637aa986cbec069083e5df3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 55/72] fix: running out of memory while writing VTK and
 Tecplot files is reported

---
 src/meshing/TecplotWriter.cc | 10 ++++++++++
 src/meshing/VTKWriter.cc     | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/meshing/TecplotWriter.cc b/src/meshing/TecplotWriter.cc
index ee1c0d7..4735c5b 100644
--- a/src/meshing/TecplotWriter.cc
+++ b/src/meshing/TecplotWriter.cc
@@ -135,6 +135,7 @@ void WriteNodeBlock(std::ostream &myfile, const Region &reg, const std::string &
 
   std::ostringstream os;
   os.copyfmt(myfile);
+  os.exceptions(std::ios_base::badbit);
   if (nmp)
   {
     if (nmp->IsUniform())
@@ -160,6 +161,7 @@ void WriteEdgeBlockScalar(std::ostream &myfile, const Region &reg, const std::st
 {
   std::ostringstream os;
   os.copyfmt(myfile);
+  os.exceptions(std::ios_base::badbit);
   const size_t number_nodes = reg.GetNumberNodes();
   ConstEdgeModelPtr emp = reg.GetEdgeModel(model_name);
 
@@ -190,6 +192,7 @@ void WriteTriangleEdgeBlockScalar(std::ostream &myfile, const Region &reg, const
 {
   std::ostringstream os;
   os.copyfmt(myfile);
+  os.exceptions(std::ios_base::badbit);
 
 //  const size_t number_nodes = reg.GetNumberNodes();
   const size_t number_triangles = reg.GetNumberTriangles();
@@ -223,6 +226,7 @@ void WriteTetrahedronEdgeBlockScalar(std::ostream &myfile, const Region &reg, co
 {
   std::ostringstream os;
   os.copyfmt(myfile);
+  os.exceptions(std::ios_base::badbit);
 //  const size_t number_nodes = reg.GetNumberNodes();
   const size_t number_tetrahedrons = reg.GetNumberTetrahedrons();
   ConstTetrahedronEdgeModelPtr emp = reg.GetTetrahedronEdgeModel(model_name);
@@ -264,8 +268,11 @@ void WriteEdgeBlockVector(std::ostream &myfile, const Region &reg, const std::st
   std::ostringstream osz;
 
   osx.copyfmt(myfile);
+  osx.exceptions(std::ios_base::badbit);
   osy.copyfmt(myfile);
+  osy.exceptions(std::ios_base::badbit);
   osz.copyfmt(myfile);
+  osz.exceptions(std::ios_base::badbit);
 
 
   /// in case the model doesn't exist in our region
@@ -403,6 +410,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, MeshWrite
   bool ret = true;
   std::ostringstream os;
   os.copyfmt(myfile);
+  os.exceptions(std::ios_base::badbit);
 
 //    myfile << std::setprecision(15) << std::scientific;
   GlobalData   &gdata = GlobalData::GetInstance();
@@ -624,6 +632,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, MeshWrite
 
     std::ostringstream os;
     os.copyfmt(myfile);
+    os.exceptions(std::ios_base::badbit);
 
     size_t dim = dev.GetDimension();
 
@@ -707,6 +716,7 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, MeshWrite
     {
       std::ostringstream os;
       os.copyfmt(myfile);
+      os.exceptions(std::ios_base::badbit);
       os << ", VARLOCATION=([";
       os << cell_variables[0];
       for (size_t i = 1; i < cell_variables.size(); ++i)
diff --git a/src/meshing/VTKWriter.cc b/src/meshing/VTKWriter.cc
index e936b33..a5e07af 100644
--- a/src/meshing/VTKWriter.cc
+++ b/src/meshing/VTKWriter.cc
@@ -265,6 +265,9 @@ void WriteLines(const Region &reg, std::ostream &myfile)
   std::ostringstream connectivity;
   std::ostringstream offsets;
   std::ostringstream types;
+  connectivity.exceptions(std::ios_base::badbit);
+  offsets.exceptions(std::ios_base::badbit);
+  types.exceptions(std::ios_base::badbit);
 
   size_t off = 2;
   for (ConstEdgeList::const_iterator it = cel.begin(); it != cel.end(); ++it)
@@ -307,6 +310,9 @@ void WriteTriangles(const Region &reg, std::ostream &myfile)
   std::ostringstream connectivity;
   std::ostringstream offsets;
   std::ostringstream types;
+  connectivity.exceptions(std::ios_base::badbit);
+  offsets.exceptions(std::ios_base::badbit);
+  types.exceptions(std::ios_base::badbit);
 
   size_t off = 3;
   for (ConstTriangleList::const_iterator it = ctl.begin(); it != ctl.end(); ++it)
@@ -353,6 +359,9 @@ void WriteTetrahedrons(const Region &reg, std::ostream &myfile)
   std::ostringstream connectivity;
   std::ostringstream offsets;
   std::ostringstream types;
+  connectivity.exceptions(std::ios_base::badbit);
+  offsets.exceptions(std::ios_base::badbit);
+  types.exceptions(std::ios_base::badbit);
 
   size_t off = 4;
   for (ConstTetrahedronList::const_iterator it = ctl.begin(); it != ctl.end(); ++it)
@@ -497,6 +506,7 @@ bool WriteSingleDevice(const std::string &dname, const std::string &filename, Me
       for (Device::RegionList_t::const_iterator rit = rlist.begin(); rit != rlist.end(); ++rit)
       {
         std::ostringstream istring;
+        istring.exceptions(std::ios_base::badbit);
         istring << i;
 
         const std::string vtufilename = filename + "_" + istring.str() + ".vtu";
-- 
2.43.0


From 39ae2eee7bbbaf960bf8cf32e13e1951c9751dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 56/72] fix: a circuit solution without values is not left
 behind when memory runs out

---
 src/Circuit/data/NodeKeeper.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Circuit/data/NodeKeeper.cc b/src/Circuit/data/NodeKeeper.cc
index 7a892cb..9b9bfd5 100644
--- a/src/Circuit/data/NodeKeeper.cc
+++ b/src/Circuit/data/NodeKeeper.cc
@@ -14,6 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <sstream>
 #include <climits>
 #include <cmath>
+#include <memory>
 
 
 NodeKeeper *NodeKeeper::instance_ = 0;
@@ -267,14 +268,15 @@ void NodeKeeper::CreateSolution(const std::string &key)
 
     dsAssert(Sol_.count(key) == 0, "CIRCUIT_UNEXPECTED");
 
-    // entry has now been created
-    dsAssert(Sol_[key] == nullptr, "CIRCUIT_UNEXPECTED");
     dsAssert(numberOfNodes_ != 0, "CIRCUIT_UNEXPECTED");
 
     // technically this needs to be deleted in the destructor
     // migrate to smart pointer
     // Should call initializer for each node (dc case only)
-    Sol_[key] = new Solution(numberOfNodes_,0.0);
+    // there is no entry without its values
+    auto sol = std::make_unique<Solution>(numberOfNodes_, 0.0);
+    Sol_[key] = sol.get();
+    sol.release();
     std::ostringstream os;
     os << "creating solution " << key << " with " << numberOfNodes_ << " nodes" << "\n";
     OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
-- 
2.43.0


From bc4cc9ca80a7901306960c360b69ebf69f39377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 57/72] fix: a model whose initialization fails is removed from
 its region

---
 src/models/EdgeModel.cc            | 11 ++++++++++-
 src/models/NodeModel.cc            | 11 ++++++++++-
 src/models/TetrahedronEdgeModel.cc | 11 ++++++++++-
 src/models/TriangleEdgeModel.cc    | 11 ++++++++++-
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/models/EdgeModel.cc b/src/models/EdgeModel.cc
index a15181a..9b3359c 100644
--- a/src/models/EdgeModel.cc
+++ b/src/models/EdgeModel.cc
@@ -59,7 +59,16 @@ EdgeModel::EdgeModel(const std::string &nm, const RegionPtr rp, EdgeModel::Displ
 void EdgeModel::init()
 {
   myregion->AddEdgeModel(this->shared_from_this());
-  derived_init();
+  try
+  {
+    derived_init();
+  }
+  catch (...)
+  {
+    //// a model without its dependencies cannot be evaluated
+    myregion->DeleteEdgeModel(name);
+    throw;
+  }
 }
 
 void EdgeModel::CalculateValues() const
diff --git a/src/models/NodeModel.cc b/src/models/NodeModel.cc
index f007409..a1a5f75 100644
--- a/src/models/NodeModel.cc
+++ b/src/models/NodeModel.cc
@@ -55,7 +55,16 @@ NodeModel::NodeModel(const std::string &nm, const RegionPtr rp, NodeModel::Displ
 void NodeModel::init()
 {
   myregion->AddNodeModel(this->shared_from_this());
-  derived_init();
+  try
+  {
+    derived_init();
+  }
+  catch (...)
+  {
+    //// a model without its dependencies cannot be evaluated
+    myregion->DeleteNodeModel(name);
+    throw;
+  }
 }
 
 const std::string &NodeModel::GetName() const
diff --git a/src/models/TetrahedronEdgeModel.cc b/src/models/TetrahedronEdgeModel.cc
index eead62c..09d41b6 100644
--- a/src/models/TetrahedronEdgeModel.cc
+++ b/src/models/TetrahedronEdgeModel.cc
@@ -57,7 +57,16 @@ TetrahedronEdgeModel::TetrahedronEdgeModel(const std::string &nm, const RegionPt
 void TetrahedronEdgeModel::init()
 {
   myregion->AddTetrahedronEdgeModel(this->shared_from_this());
-  derived_init();
+  try
+  {
+    derived_init();
+  }
+  catch (...)
+  {
+    //// a model without its dependencies cannot be evaluated
+    myregion->DeleteTetrahedronEdgeModel(name);
+    throw;
+  }
 }
 
 void TetrahedronEdgeModel::CalculateValues() const
diff --git a/src/models/TriangleEdgeModel.cc b/src/models/TriangleEdgeModel.cc
index ff23ad5..c7c4f7f 100644
--- a/src/models/TriangleEdgeModel.cc
+++ b/src/models/TriangleEdgeModel.cc
@@ -55,7 +55,16 @@ TriangleEdgeModel::TriangleEdgeModel(const std::string &nm, const RegionPtr rp,
 void TriangleEdgeModel::init()
 {
   myregion->AddTriangleEdgeModel(this->shared_from_this());
-  derived_init();
+  try
+  {
+    derived_init();
+  }
+  catch (...)
+  {
+    //// a model without its dependencies cannot be evaluated
+    myregion->DeleteTriangleEdgeModel(name);
+    throw;
+  }
 }
 
 void TriangleEdgeModel::CalculateValues() const
-- 
2.43.0


From 1ed92a68cf65ff036d5d7098b7bc68eaa51bba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 58/72] fix: undoing a failed load_devices does not need memory

---
 src/Data/GlobalData.cc      | 17 +++++++++--------
 src/meshing/DevsimScanner.l | 26 ++++++++++++++++----------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/Data/GlobalData.cc b/src/Data/GlobalData.cc
index 54036c0..d629ee5 100644
--- a/src/Data/GlobalData.cc
+++ b/src/Data/GlobalData.cc
@@ -70,14 +70,6 @@ DevicePtr GlobalData::GetDevice(const std::string &nm)
 bool GlobalData::DeleteDevice(const std::string &nm)
 {
     bool ret = false;
-    if (auto it = deviceList.find(nm); it != deviceList.end())
-    {
-        auto dp = it->second;
-        deviceList.erase(it);
-        delete dp;
-        ret = true;
-    }
-
     if (auto it = deviceData.find(nm); it != deviceData.end())
     {
       deviceData.erase(it);
@@ -88,6 +80,15 @@ bool GlobalData::DeleteDevice(const std::string &nm)
       regionData.erase(it);
     }
 
+    //// the name may be the one in this list
+    if (auto it = deviceList.find(nm); it != deviceList.end())
+    {
+        auto dp = it->second;
+        deviceList.erase(it);
+        delete dp;
+        ret = true;
+    }
+
     return ret;
 }
 
diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 818c64b..9e0f232 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -364,21 +364,27 @@ void EndOfLoad()
     dsDevsimParse::DeletePointers();
 }
 
-//// removes what an incomplete load has left behind
+//// removes what an incomplete load has left behind, without any need for memory
 void UndoLoad(const std::set<std::string> &meshes, const std::set<std::string> &devices)
 {
-    for (auto &d : GetDeviceNames())
+    auto &gdata = GlobalData::GetInstance();
+    for (auto it = gdata.GetDeviceList().begin(); it != gdata.GetDeviceList().end();)
     {
-        if (!devices.count(d))
+        const std::string &name = it->first;
+        ++it;
+        if (!devices.count(name))
         {
-            GlobalData::GetInstance().DeleteDevice(d);
+            gdata.DeleteDevice(name);
         }
     }
-    for (auto &m : GetMeshNames())
+    auto &mdata = dsMesh::MeshKeeper::GetInstance();
+    for (auto it = mdata.GetMeshList().begin(); it != mdata.GetMeshList().end();)
     {
-        if (!meshes.count(m))
+        const std::string &name = it->first;
+        ++it;
+        if (!meshes.count(name))
         {
-            dsMesh::MeshKeeper::GetInstance().DeleteMesh(m);
+            mdata.DeleteMesh(name);
         }
     }
 }
@@ -389,6 +395,9 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
     dsDevsimParse::errors.clear();
     dsDevsimParse::meshlineno = 1;
 
+    const std::set<std::string> &meshes  = GetMeshNames();
+    const std::set<std::string> &devices = GetDeviceNames();
+
     Devsimin = fopen(fname.c_str(), "r");
 
     if ( !Devsimin )
@@ -399,9 +408,6 @@ bool LoadMeshes(const std::string &fname, std::string &errorString)
         return false;
     }
 
-    const std::set<std::string> &meshes  = GetMeshNames();
-    const std::set<std::string> &devices = GetDeviceNames();
-
     int retval = 1;
     try
     {
-- 
2.43.0


From 16999a3efdacb3330edbbf6390c67f257afeca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:17 +0000
Subject: [PATCH 59/72] fix: save element_from_edge_model derivatives in 3D as
 what they are

---
 src/models/TetrahedronEdgeFromEdgeModelDerivative.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
index 2cd56ed..48c6d34 100644
--- a/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
+++ b/src/models/TetrahedronEdgeFromEdgeModelDerivative.cc
@@ -147,7 +147,7 @@ void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::calcTetrahedronEdgeScal
 template <typename DoubleType>
 void TetrahedronEdgeFromEdgeModelDerivative<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_pair_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
+  of << "COMMAND element_from_edge_model -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\" -edge_model \"" << edgeModelName << "\" -derivative \"" << nodeModelName << "\"";
 }
 
 template class TetrahedronEdgeFromEdgeModelDerivative<double>;
-- 
2.43.0


From 93332bfa53a62311a87f81bede0a4c5e86c6fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 60/72] fix: save cylindrical models as the commands which
 create them

---
 src/GeomModels/TriangleCylindricalEdgeCouple.cc | 2 +-
 src/GeomModels/TriangleCylindricalNodeVolume.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GeomModels/TriangleCylindricalEdgeCouple.cc b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
index 80924fe..aaaf29a 100644
--- a/src/GeomModels/TriangleCylindricalEdgeCouple.cc
+++ b/src/GeomModels/TriangleCylindricalEdgeCouple.cc
@@ -161,7 +161,7 @@ Vector<DoubleType> TriangleCylindricalEdgeCouple<DoubleType>::calcTriangleCylind
 template <typename DoubleType>
 void TriangleCylindricalEdgeCouple<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_edge_couple -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalEdgeCouple<double>;
diff --git a/src/GeomModels/TriangleCylindricalNodeVolume.cc b/src/GeomModels/TriangleCylindricalNodeVolume.cc
index 42ec022..9f5b93f 100644
--- a/src/GeomModels/TriangleCylindricalNodeVolume.cc
+++ b/src/GeomModels/TriangleCylindricalNodeVolume.cc
@@ -264,7 +264,7 @@ std::vector<DoubleType> TriangleCylindricalNodeVolume<DoubleType>::calcTriangleC
 template <typename DoubleType>
 void TriangleCylindricalNodeVolume<DoubleType>::Serialize(std::ostream &of) const
 {
-  of << "COMMAND element_cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
+  of << "COMMAND cylindrical_node_volume -device \"" << GetDeviceName() << "\" -region \"" << GetRegionName() << "\"";
 }
 
 template class TriangleCylindricalNodeVolume<double>;
-- 
2.43.0


From 408d99e901fcbf030fb8a59a3c415322d4bffe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 61/72] fix: keep contact nodes outside of the contact's
 elements in restart files

---
 src/meshing/DevsimRestartWriter.cc | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimRestartWriter.cc b/src/meshing/DevsimRestartWriter.cc
index 5d82b81..600fff6 100644
--- a/src/meshing/DevsimRestartWriter.cc
+++ b/src/meshing/DevsimRestartWriter.cc
@@ -28,6 +28,7 @@ SPDX-License-Identifier: Apache-2.0
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <set>
 
 namespace {
 void WriteCoordinates(std::ostream &myfile, const Device::CoordinateList_t &clist)
@@ -171,6 +172,31 @@ void WriteInterfaceNodeModels(std::ostream &myfile, const Interface::NameToInter
 }
 
 
+//// whether the elements of the contact, in the dimension in which they are written, have all of its nodes
+bool HaveAllNodes(const Contact &cnt, size_t dimension)
+{
+  std::set<size_t> indexes;
+  if (dimension == 2)
+  {
+    for (const auto &edge : cnt.GetEdges())
+    {
+      indexes.insert(edge->GetHead()->GetIndex());
+      indexes.insert(edge->GetTail()->GetIndex());
+    }
+  }
+  else if (dimension == 3)
+  {
+    for (const auto &triangle : cnt.GetTriangles())
+    {
+      for (const auto &node : triangle->GetNodeList())
+      {
+        indexes.insert(node->GetIndex());
+      }
+    }
+  }
+  return indexes.size() == cnt.GetNodes().size();
+}
+
 bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::string &errorString)
 {
   bool ret = true;
@@ -262,7 +288,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
 
       const ConstNodeList_t &ctnodes = cnt.GetNodes();
 
-      if (dimension == 1)
+      //// the nodes come from the elements, unless they are not part of one
+      if (dimension == 1 || !HaveAllNodes(cnt, dimension))
       {
         myfile << "begin_nodes\n";
         for (ConstNodeList_t::const_iterator ctit = ctnodes.begin(); ctit != ctnodes.end(); ++ctit)
@@ -271,7 +298,8 @@ bool WriteSingleDevice(const std::string &dname, std::ostream &myfile, std::stri
         }
         myfile << "end_nodes\n\n";
       }
-      else if (dimension == 2)
+
+      if (dimension == 2)
       {
         const ConstEdgeList_t &itedges = cnt.GetEdges();
         if (!itedges.empty())
-- 
2.43.0


From b0916525ed44be41e02dc23f0d35e11154480d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 62/72] fix: interfaces given by nodes remain so after loading
 a device

---
 src/meshing/DevsimLoader.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index 4e00f03..ecc3c6f 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -652,8 +652,15 @@ bool DevsimLoader::Instantiate_(const std::string &deviceName, std::string &erro
         OutputStream::WriteOut(OutputStream::OutputType::INFO, os.str());
         Interface *ip = new Interface(iname, rp0, rp1, cn0, cn1);
         dp->AddInterface(ip);
-        ip->AddTriangles(ct0, ct1);
-        ip->AddEdges(ce0, ce1);
+        //// an interface given by its nodes remains one
+        if (!ct0.empty())
+        {
+          ip->AddTriangles(ct0, ct1);
+        }
+        if (!ce0.empty())
+        {
+          ip->AddEdges(ce0, ce1);
+        }
       }
       cn0.clear();
       cn1.clear();
-- 
2.43.0


From 07e0a810c6f43c451d97e6bfbce49321d68c507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 63/72] fix: previous time points are forgotten when a device
 or the circuit they belong to is deleted

---
 src/commands/CircuitCommands.cc |  7 +++++++
 src/commands/MeshingCommands.cc | 14 ++++++++++++++
 src/math/TimeData.cc            |  8 +++++++-
 src/math/TimeData.hh            |  3 +++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/commands/CircuitCommands.cc b/src/commands/CircuitCommands.cc
index 59777c2..0fee2da 100644
--- a/src/commands/CircuitCommands.cc
+++ b/src/commands/CircuitCommands.cc
@@ -11,6 +11,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "CheckFunctions.hh"
 
 #include "NodeKeeper.hh"
+#include "TimeData.hh"
 #include "InstanceKeeper.hh"
 #include "IdealVoltage.hh"
 #include "IdealCurrent.hh"
@@ -591,6 +592,12 @@ circuitDeleteCircuitCmd(CommandHandler &data)
       return;
   }
 
+  //// the charges and currents of previous time points include those of the circuit
+  if (NodeKeeper::instance().HaveNodes())
+  {
+    ClearTimeData();
+  }
+
   InstanceKeeper::delete_instance();
   NodeKeeper::delete_instance();
   data.SetEmptyResult();
diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 324d9f9..637a8a2 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -22,6 +22,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "dsAssert.hh"
 #include "GmshReader.hh"
 #include "GmshLoader.hh"
+#include "TimeData.hh"
 
 #include "Device.hh"
 #include "Region.hh"
@@ -711,8 +712,21 @@ deleteDeviceCmd(CommandHandler &data)
     const std::string &deviceName = data.GetStringOption("device");
 
     auto &gdata = GlobalData::GetInstance();
+
+    //// the charges and currents of previous time points include those of this device
+    bool hasEquations = false;
+    for (auto &entry : gdata.GetDevice(deviceName)->GetRegionList())
+    {
+      hasEquations = hasEquations || !entry.second->GetEquationPtrList().empty();
+    }
+
     bool ret = gdata.DeleteDevice(deviceName);
 
+    if (ret && hasEquations)
+    {
+      ClearTimeData();
+    }
+
     if (!ret)
     {
       errorString = "Could not delete device \"" + deviceName + "\"\n";
diff --git a/src/math/TimeData.cc b/src/math/TimeData.cc
index b470d65..6b3f738 100644
--- a/src/math/TimeData.cc
+++ b/src/math/TimeData.cc
@@ -127,4 +127,10 @@ template class TimeData<double>;
 template class TimeData<float128>;
 #endif
 
-
+void ClearTimeData()
+{
+  TimeData<double>::DestroyInstance();
+#ifdef DEVSIM_EXTENDED_PRECISION
+  TimeData<float128>::DestroyInstance();
+#endif
+}
diff --git a/src/math/TimeData.hh b/src/math/TimeData.hh
index d71ede8..c747eef 100644
--- a/src/math/TimeData.hh
+++ b/src/math/TimeData.hh
@@ -57,5 +57,8 @@ class TimeData
         std::vector<std::vector<DoubleType > > QData;
 };
 
+//// forgets all previous time points
+void ClearTimeData();
+
 #endif
 
-- 
2.43.0


From bb9c22014cb3bf31ab358c6fec2c7460b4e6f7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 64/72] fix: regions, contacts and interfaces of a 2d mesh get
 their box before they are added, so that running out of memory or a repeated
 name does not leave one without box

---
 src/commands/MeshingCommands.cc |  6 +++---
 src/meshing/Mesh2d.cc           | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/commands/MeshingCommands.cc b/src/commands/MeshingCommands.cc
index 637a8a2..4269f8d 100644
--- a/src/commands/MeshingCommands.cc
+++ b/src/commands/MeshingCommands.cc
@@ -463,9 +463,9 @@ add2dInterfaceCmd(CommandHandler &data)
         else
         {
             dsMesh::MeshInterface2dPtr ip(new dsMesh::MeshInterface2d(name, region0Name, region1Name));
-            m2dp->AddInterface(ip);
             dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
             ip->AddBoundingBox(bb);
+            m2dp->AddInterface(ip);
             data.SetEmptyResult();
         }
     }
@@ -524,9 +524,9 @@ add2dContactCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshContact2dPtr cp(new dsMesh::MeshContact2d(name, materialName, regionName));
-        m2dp->AddContact(cp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         cp->AddBoundingBox(bb);
+        m2dp->AddContact(cp);
         data.SetEmptyResult();
     }
 }
@@ -629,9 +629,9 @@ add2dRegionCmd(CommandHandler &data)
     else
     {
         dsMesh::MeshRegion2dPtr rp(new dsMesh::MeshRegion2d(regionName, materialName));
-        m2dp->AddRegion(rp);
         dsMesh::BoundingBox bb(xl, xh, yl, yh, bl);
         rp->AddBoundingBox(bb);
+        m2dp->AddRegion(rp);
         data.SetEmptyResult();
     }
 }
diff --git a/src/meshing/Mesh2d.cc b/src/meshing/Mesh2d.cc
index 9da8c9f..06baf64 100644
--- a/src/meshing/Mesh2d.cc
+++ b/src/meshing/Mesh2d.cc
@@ -433,8 +433,17 @@ void Mesh2d::AddRegion(MeshRegion2dPtr mreg)
     }
     else
     {
-        regions[nm] = mreg;
         regionOrder.push_back(nm);
+        try
+        {
+            regions[nm] = mreg;
+        }
+        catch (...)
+        {
+            //// in both of them or in none
+            regionOrder.pop_back();
+            throw;
+        }
     }
 }
 
@@ -459,8 +468,17 @@ void Mesh2d::AddInterface(MeshInterface2dPtr mint)
     }
     else
     {
-        interfaces[nm] = mint;
         interfaceOrder.push_back(nm);
+        try
+        {
+            interfaces[nm] = mint;
+        }
+        catch (...)
+        {
+            //// in both of them or in none
+            interfaceOrder.pop_back();
+            throw;
+        }
     }
 }
 
@@ -484,8 +502,17 @@ void Mesh2d::AddContact(MeshContact2dPtr mcon)
     }
     else
     {
-        contacts[nm] = mcon;
         contactOrder.push_back(nm);
+        try
+        {
+            contacts[nm] = mcon;
+        }
+        catch (...)
+        {
+            //// in both of them or in none
+            contactOrder.pop_back();
+            throw;
+        }
     }
 }
 }
-- 
2.43.0


From 824493c919b99dd148e877c79a898c17ae6fdc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 65/72] fix: an equation whose creation runs out of memory is
 not left in some of the lists of its region

---
 src/Geometry/Region.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 355c89f..1a24cf4 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1207,9 +1207,20 @@ void Region::AddEquation(EquationHolder &eq)
     else
     {
       const size_t a = equationPointerMap.size();
-      equationPointerMap[nm] = eq;
-      equationIndexMap[nm]   = a;
-      variableEquationMap[var] = nm;
+      try
+      {
+        equationPointerMap[nm] = eq;
+        equationIndexMap[nm]   = a;
+        variableEquationMap[var] = nm;
+      }
+      catch (...)
+      {
+        //// in all of them or in none
+        equationPointerMap.erase(nm);
+        equationIndexMap.erase(nm);
+        variableEquationMap.erase(var);
+        throw;
+      }
       numequations = equationPointerMap.size();
       dsAssert(numequations == (a+1), "UNEXPECTED");
     }
-- 
2.43.0


From ec12e440f2f026a30e4c094a16339f99a23057fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 66/72] fix: an equation replaced by one for another variable
 gives up the old variable, a variable of another equation is rejected

---
 src/Geometry/Region.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Region.cc b/src/Geometry/Region.cc
index 1a24cf4..83dba53 100644
--- a/src/Geometry/Region.cc
+++ b/src/Geometry/Region.cc
@@ -1179,8 +1179,15 @@ void Region::AddEquation(EquationHolder &eq)
             "Region: " << this->GetName() << ", Equation: " << nm << ", Old variable: " << oeq.GetVariable() << ", New Variable: " << var << "\n";
         GeometryStream::WriteOut(OutputStream::OutputType::INFO, *this, os.str());
 
-        variableEquationMap.erase(var);
+        if (variableEquationMap.count(var))
+        {
+          std::ostringstream os;
+          os << "ERROR: Can't create equation if its variable is already being used\n"
+              << "New Equation: " << nm << ", Old Equation: " << variableEquationMap[var] << ", Variable: "  << var << "\n";
+          GeometryStream::WriteOut(OutputStream::OutputType::FATAL, *this, os.str());
+        }
         variableEquationMap[var] = nm;
+        variableEquationMap.erase(oeq.GetVariable());
       }
       else
       {
-- 
2.43.0


From 4691d640a31f3829b65d6011bda9312f8b392b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 67/72] fix: a number in a device file which does not fit an
 index is not read as one

---
 src/meshing/DevsimScanner.l | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/meshing/DevsimScanner.l b/src/meshing/DevsimScanner.l
index 9e0f232..7ae6bc4 100644
--- a/src/meshing/DevsimScanner.l
+++ b/src/meshing/DevsimScanner.l
@@ -14,6 +14,7 @@ SPDX-License-Identifier: Apache-2.0
 #include "MeshKeeper.hh"
 #include "dsException.hh"
 #include "FPECheck.hh"
+#include <climits>
 #include <set>
 #include <sstream>
 // an error of the scanner must not end the process
@@ -61,7 +62,12 @@ UTF8   {U81}|{U82}|{U83}|{U84}|{U85}
 
 <*>{float1}|{float2}|{float3}    {Devsimlval.dval = atof(yytext); return FLOAT;}
 
-<*>{integer}   {Devsimlval.dval = atof(yytext); Devsimlval.ival = atof(yytext); return INT;}
+<*>{integer}   {
+                //// a number which does not fit is no index
+                Devsimlval.dval = atof(yytext);
+                if ((Devsimlval.dval < INT_MIN) || (Devsimlval.dval > INT_MAX)) return FLOAT;
+                Devsimlval.ival = atof(yytext); return INT;
+            }
 
 <INITIAL>^begin_device {
                 yy_push_state(DEVICE_SEC);
-- 
2.43.0


From 39819b3c613b281b4b68675e93ed9576055a620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 68/72] fix: names which are not valid unicode do not crash the
 commands that return them

---
 src/pythonapi/ObjectHolder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pythonapi/ObjectHolder.cc b/src/pythonapi/ObjectHolder.cc
index 0bee927..3defdac 100644
--- a/src/pythonapi/ObjectHolder.cc
+++ b/src/pythonapi/ObjectHolder.cc
@@ -661,14 +661,15 @@ ObjectHolder::ObjectHolder(const std::string &s)
 {
   EnsurePythonGIL gil;
 
-  object_ = PyUnicode_FromStringAndSize(s.c_str(), s.size());
+  //// names read from a file may be anything
+  object_ = PyUnicode_DecodeUTF8(s.c_str(), s.size(), "replace");
 }
 
 ObjectHolder::ObjectHolder(const char *s)
 {
   EnsurePythonGIL gil;
 
-  object_ = PyUnicode_FromStringAndSize(s, strlen(s));
+  object_ = PyUnicode_DecodeUTF8(s, strlen(s), "replace");
 }
 
 ObjectHolder::ObjectHolder(const void *s, size_t len)
-- 
2.43.0


From c437df8841cbd7554a534784bdbee17771e653d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 69/72] fix: an element of a contact or interface which names a
 node twice is rejected

---
 src/meshing/DevsimLoader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index ecc3c6f..f0349d6 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -276,7 +276,8 @@ bool GetTriangles(MeshRegion &cnt, const RegionPtr rp, ConstTriangleList &ctl)
         ++j;
       }
     }
-    if (j == 3)
+    //// the same node twice is no triangle
+    if ((j == 3) && (mnodes[0] != mnodes[1]) && (mnodes[0] != mnodes[2]) && (mnodes[1] != mnodes[2]))
     {
       ConstTrianglePtr tp = rp->FindTriangle(rnodes[0], rnodes[1], rnodes[2]);
       if (tp)
@@ -317,7 +318,7 @@ bool GetEdges(MeshRegion &cnt, const RegionPtr rp, ConstEdgeList &cel)
         ++j;
       }
     }
-    if (j == 2)
+    if ((j == 2) && (mnodes[0] != mnodes[1]))
     {
       ConstEdgePtr tp = rp->FindEdge(rnodes[0], rnodes[1]);
       if (tp)
-- 
2.43.0


From db5da197cec42259c349c652de7ebe720bd5cea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 70/72] fix: the commands of a device in a file do not change
 another device

---
 src/meshing/DevsimLoader.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/meshing/DevsimLoader.cc b/src/meshing/DevsimLoader.cc
index f0349d6..c75290f 100644
--- a/src/meshing/DevsimLoader.cc
+++ b/src/meshing/DevsimLoader.cc
@@ -235,6 +235,16 @@ void createRegion(const MeshRegion &mr, Device *dp, std::vector<const Node *> &n
 
 bool DevsimLoader::RunCommand(const std::string &commandString, const std::vector<std::pair<std::string, ObjectHolder> > &commandArgs, std::string &resultString)
 {
+  //// the commands of a device must not change another one
+  for (const auto &arg : commandArgs)
+  {
+    if ((arg.first == "device") && (arg.second.GetString() != this->GetName()))
+    {
+      resultString = "the command is for device " + arg.second.GetString() + " instead of device " + this->GetName();
+      return false;
+    }
+  }
+
   Interpreter MyInterp;
   bool ret = MyInterp.RunInternalCommand(commandString, commandArgs);
 
-- 
2.43.0


From 85ae0c3cfe5d7712e669242d7d1e0bae9905ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:01 +0000
Subject: [PATCH 71/72] fix: a node shared by contacts belongs to the first by
 name, not by address

The contacts and interfaces at a coordinate were kept in order of their
addresses, and the first one decides whose boundary condition holds at a
shared node, so the solution depended on where the allocator put them.
---
 src/Geometry/Device.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Geometry/Device.cc b/src/Geometry/Device.cc
index cf248bd..fb3859c 100644
--- a/src/Geometry/Device.cc
+++ b/src/Geometry/Device.cc
@@ -114,10 +114,10 @@ void Device::AddContact(const ContactPtr &cp)
       warning_list[os.str()] += 1;
     }
 
-    //// Guarantee that vector is sorted based on pointer address
+    //// Guarantee that vector is sorted based on name, the first contact owns the node
     std::vector<ContactPtr> &cplist = coordinateIndexToContact[ci];
     cplist.push_back(cp);
-    std::sort(cplist.begin(), cplist.end());
+    std::sort(cplist.begin(), cplist.end(), [](ContactPtr x, ContactPtr y) { return x->GetName() < y->GetName(); });
   }
   if (!warning_list.empty())
   {
@@ -186,10 +186,10 @@ void Device::AddInterface(const InterfacePtr &ip)
         warning_list[os.str()] += 1;
       }
 
-      //// Guarantee that vector is sorted based on pointer address
+      //// Guarantee that vector is sorted based on name
       std::vector<InterfacePtr> &iplist = coordinateIndexToInterface[ii];
       iplist.push_back(ip);
-      std::sort(iplist.begin(), iplist.end());
+      std::sort(iplist.begin(), iplist.end(), [](InterfacePtr x, InterfacePtr y) { return x->GetName() < y->GetName(); });
     }
   }
   if (!warning_list.empty())
-- 
2.43.0


From f2d814450ff01af77f682690595923ab7dc3532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:22 +0000
Subject: [PATCH 72/72] fix: a contact takes a shared node from another one
 only for an equation it has

The test looked at the equations of the contact itself instead of those
of the other one, so a contact without the equation took its nodes away
and no boundary condition held there.
---
 src/Equation/ContactEquation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Equation/ContactEquation.cc b/src/Equation/ContactEquation.cc
index 5df33c2..9894da6 100644
--- a/src/Equation/ContactEquation.cc
+++ b/src/Equation/ContactEquation.cc
@@ -137,7 +137,7 @@ ConstNodeList_t ContactEquation<DoubleType>::GetActiveNodes() const
           else
           {
 
-            const ContactEquationPtrMap_t &cepm = contact.GetEquationPtrList();
+            const ContactEquationPtrMap_t &cepm = ocontact.GetEquationPtrList();
 
             for (ContactEquationPtrMap_t::const_iterator cepmit = cepm.begin(); cepmit != cepm.end(); ++cepmit)
             {
-- 
2.43.0

