From f93f15ba6f618f1f6e8a8eae3e628eb0257b9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:39 +0000
Subject: [PATCH 01/63] fix: include the last partial word of each row in the
 PHS

Rows are only (numclusters + 7) / 8 bytes long here, so ORing whole longs
left out up to 7 trailing bytes; with fewer than 57 clusters the PHS was
just a copy of the PVS.
---
 vis/soundpvs.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..121de88 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -166,7 +166,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -200,10 +199,8 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From 7fc1951c60c24d08e121f706725d545ba12ffc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 02/63] fix: size the PRT1-AM cluster map by leafs, not
 clusters

Reading a PRT1-AM portal file wrote past the end of dleafinfos whenever
the map had more leafs than clusters.
---
 common/prtfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 0720231..8cffce9 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -152,7 +152,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
     } else if (magic == PORTALFILEAM) {
-        result.dleafinfos.resize(result.portalleafs + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1);
 
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
-- 
2.43.0


From a5bde80b94586595b4cff2069eb840ee29647a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 03/63] fix: refuse truncated or malformed portal files

Parse failures and end of file set failbit/eofbit, not badbit, so a
truncated .prt made LoadPrtFile loop forever looking for '(' and garbage
was taken for data. Portals with fewer than 3 points and portals that name
leaf number 'portalleafs' (one past the last) were accepted as well.
---
 common/prtfile.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 8cffce9..6b7f164 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -51,7 +51,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     if (magic == PORTALFILE) {
         f >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
 
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -66,7 +66,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs_real >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else if (magic == PORTALFILEAM) {
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -74,7 +74,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs >> numportals >> result.portalleafs_real;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else {
         FError("unknown header: {}\n", magic);
@@ -85,27 +85,29 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         int numpoints;
 
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
-        if (f.bad())
+        if (!f)
             FError("reading portal {}", i);
+        if (numpoints < 3)
+            FError("portal {} has too few points", i);
         if (numpoints > PRT_MAX_WINDING)
             FError("portal {} has too many points", i);
-        if ((unsigned)p.leafnums[0] > (unsigned)result.portalleafs ||
-            (unsigned)p.leafnums[1] > (unsigned)result.portalleafs)
+        if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
+            (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
 
         auto &w = p.winding;
         w.resize(numpoints);
 
         for (int j = 0; j < numpoints; j++) {
-            while (!f.bad() && f.get() != '(')
+            while (f && f.get() != '(')
                 ;
 
             f >> w[j][0] >> w[j][1] >> w[j][2];
 
-            while (!f.bad() && f.get() != ')')
+            while (f && f.get() != ')')
                 ;
 
-            if (f.bad())
+            if (!f)
                 FError("reading portal {}", i);
         }
 
@@ -138,7 +140,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             while (1) {
                 int leafnum;
                 f >> leafnum;
-                if (f.bad() || f.eof())
+                if (!f)
                     break;
                 if (leafnum < 0)
                     break;
@@ -146,7 +148,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
                     FError("Invalid leaf number in cluster map ({} >= {})", leafnum, result.portalleafs_real);
                 result.dleafinfos[leafnum + 1].cluster = i;
             }
-            if (f.bad() || f.eof())
+            if (!f)
                 break;
         }
         if (i < result.portalleafs)
@@ -157,7 +159,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
             f >> clusternum;
-            if (f.bad() || f.eof()) {
+            if (!f) {
                 Error("Unexpected end of cluster map\n");
             }
             if (clusternum < 0 || clusternum >= result.portalleafs) {
-- 
2.43.0


From 810246bc6a07a06b8a95a4b89f073f80d4b1a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:47 +0000
Subject: [PATCH 04/63] fix: never resume vis from an incomplete state file

A run killed while writing its .vi0 state file left a torn file behind; if
there was no .vis yet the next run renamed and loaded it without checking
the stream, so that missing records repeated the previous one's bits
(wrong PVS), or died with 'version does not match' until the user deleted
the file. Also rename over the old state atomically instead of removing it
first, and keep it if the new one could not be written.
---
 vis/state.cc | 95 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..40a1465 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -94,22 +94,28 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     return numbytes;
 }
 
-static void DecompressBits(leafbits_t &dst, const uint8_t *src)
+// returns false if the `len` bytes at src don't expand to exactly one row
+static bool DecompressBits(leafbits_t &dst, const uint8_t *src, size_t len)
 {
     const size_t numbytes = (portalleafs + 7) >> 3;
+    const uint8_t *end = src + len;
 
     dst.resize(portalleafs);
 
     for (size_t i = 0; i < numbytes; i++) {
+        if (src == end)
+            return false;
         uint8_t val = *src++;
         uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         if (val != 0 && val != 0xff)
             continue;
 
+        if (src == end)
+            return false;
         int32_t rep = *src++;
-        if (i + rep > numbytes)
-            FError("overflow");
+        if (rep == 0 || i + rep > numbytes)
+            return false;
 
         /* Already wrote the first byte, add (rep - 1) copies */
         while (--rep) {
@@ -118,6 +124,8 @@ static void DecompressBits(leafbits_t &dst, const uint8_t *src)
             dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         }
     }
+
+    return src == end;
 }
 
 static void CopyLeafBits(leafbits_t &dst, const uint8_t *src, size_t numleafs)
@@ -175,13 +183,15 @@ void SaveVisState()
     }
 
     out.close();
+    if (!out) {
+        // keep the previous state file, it's still good
+        logging::print("WARNING: unable to write state file {}\n", statetmpfile);
+        return;
+    }
 
     std::error_code ec;
 
-    fs::remove(statefile, ec);
-    if (ec && ec.value() != ENOENT)
-        FError("error removing old state ({})", ec.message());
-
+    // replaces the old state file, if any
     fs::rename(statetmpfile, statefile, ec);
     if (ec)
         FError("error renaming state file ({})", ec.message());
@@ -199,7 +209,6 @@ bool LoadVisState()
     fs::file_time_type prt_time, state_time;
     int numbytes;
     dvisstate_t state;
-    dportal_t pstate;
 
     if (vis_options.nostate.value()) {
         return false;
@@ -231,6 +240,11 @@ bool LoadVisState()
 
     in >= state;
 
+    if (!in) {
+        logging::print("State file is incomplete, will be overwritten\n");
+        return false;
+    }
+
     /* Sanity check the headers */
     if (state.version != VIS_STATE_VERSION) {
         FError("state file version does not match");
@@ -239,39 +253,58 @@ bool LoadVisState()
         FError("state file {} does not match portal file {}", statefile, portalfile);
     }
 
-    /* Move back the start time to simulate already elapsed time */
-    starttime -= duration(state.time_elapsed);
-
     numbytes = (portalleafs + 7) >> 3;
     std::vector<uint8_t> compressed(numbytes);
 
-    /* Update the portal information */
-    for (auto &p : portals) {
-        in >= pstate;
+    auto read_bits = [&](leafbits_t &dst, uint32_t len) {
+        if (len > (uint32_t)numbytes || !in.read((char *)compressed.data(), len)) {
+            return false;
+        }
+        if (len < (uint32_t)numbytes) {
+            return DecompressBits(dst, compressed.data(), len);
+        }
+        CopyLeafBits(dst, compressed.data(), portalleafs);
+        return true;
+    };
 
-        p.status = static_cast<pstatus_t>(pstate.status);
-        p.nummightsee = pstate.nummightsee;
-        p.numcansee = pstate.numcansee;
+    /* Read all of the portal information before using any of it */
+    struct loaded_portal_t
+    {
+        dportal_t state;
+        leafbits_t mightsee, visbits;
+    };
+    std::vector<loaded_portal_t> loaded(portals.size());
 
-        in.read((char *)compressed.data(), pstate.might);
-        p.mightsee.resize(portalleafs);
+    for (auto &l : loaded) {
+        in >= l.state;
 
-        if (pstate.might < numbytes) {
-            DecompressBits(p.mightsee, compressed.data());
+        bool valid = in && l.state.status <= pstat_done && read_bits(l.mightsee, l.state.might);
+
+        if (l.state.status == pstat_done) {
+            valid = valid && read_bits(l.visbits, l.state.vis);
         } else {
-            CopyLeafBits(p.mightsee, compressed.data(), portalleafs);
+            valid = valid && l.state.vis == 0;
+            l.visbits.resize(portalleafs);
         }
 
-        p.visbits.resize(portalleafs);
-
-        if (pstate.vis) {
-            in.read((char *)compressed.data(), pstate.vis);
-            if (pstate.vis < numbytes) {
-                DecompressBits(p.visbits, compressed.data());
-            } else {
-                CopyLeafBits(p.visbits, compressed.data(), portalleafs);
-            }
+        if (!valid) {
+            logging::print("State file is incomplete, will be overwritten\n");
+            return false;
         }
+    }
+
+    /* Move back the start time to simulate already elapsed time */
+    starttime -= duration(state.time_elapsed);
+
+    /* Update the portal information */
+    for (size_t i = 0; i < portals.size(); i++) {
+        auto &p = portals[i];
+
+        p.status = static_cast<pstatus_t>(loaded[i].state.status);
+        p.nummightsee = loaded[i].state.nummightsee;
+        p.numcansee = loaded[i].state.numcansee;
+        p.mightsee = std::move(loaded[i].mightsee);
+        p.visbits = std::move(loaded[i].visbits);
 
         /* Portals that were in progress need to be started again */
         if (p.status == pstat_working) {
-- 
2.43.0


From 6b4b9b686cf707bd22c6a82a45d2621c77b35f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 05/63] fix: refuse a portal file with more leafs than the .bsp
 has

The cluster numbers were stored past the end of the leaf array.
---
 vis/vis.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vis/vis.cc b/vis/vis.cc
index e657558..44ecc88 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -669,6 +669,11 @@ static void LoadPortals(const fs::path &name, mbsp_t *bsp)
         return;
     }
 
+    if (prtfile.dleafinfos.size() > bsp->dleafs.size()) {
+        FError("portal file {} does not match the .bsp ({} leafs, .bsp has {})", name, prtfile.portalleafs_real,
+            bsp->dleafs.size());
+    }
+
     // Copy cluster mapping from .prt file
     for (int i = 1; i < prtfile.dleafinfos.size(); ++i) {
         bsp->dleafs[i].cluster = prtfile.dleafinfos[i].cluster;
-- 
2.43.0


From 7c138a9a715f4ee1140cdfb1dde6292d98df795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 06/63] fix: honour the cluster map of PRT2/PRT1-AM files with
 as many clusters as leafs

The map was ignored and replaced by the identity if the two counts
happened to be equal.
---
 common/prtfile.cc | 2 +-
 vis/soundpvs.cc   | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 6b7f164..ad5aac5 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -120,7 +120,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     }
 
     // No clusters
-    if (result.portalleafs == result.portalleafs_real) {
+    if (magic == PORTALFILE) {
         // e.g. Quake 1, PRT1 (no func_detail).
         // Assign the identity cluster numbers for consistency
 
diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 121de88..9dcdcdf 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -83,12 +83,7 @@ void CalcAmbientSounds(mbsp_t *bsp)
         for (int j = 0; j < NUM_AMBIENTS; j++)
             dists[j] = 1020;
 
-        uint8_t *vis;
-        if (portalleafs != portalleafs_real) {
-            vis = &uncompressed[leaf->cluster * leafbytes_real];
-        } else {
-            vis = &uncompressed[i * leafbytes_real];
-        }
+        uint8_t *vis = &uncompressed[leaf->cluster * leafbytes_real];
 
         for (int j = 0; j < portalleafs_real; j++) {
             if (!(vis[j >> 3] & nth_bit(j & 7)))
-- 
2.43.0


From 043323428f85b1db0ff21b1e3ac2f53946aa234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:43 +0000
Subject: [PATCH 07/63] fix: refuse portal files with negative counts

---
 common/prtfile.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index ad5aac5..333ac8b 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -80,6 +80,9 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         FError("unknown header: {}\n", magic);
     }
 
+    if (result.portalleafs < 0 || result.portalleafs_real < 0 || numportals < 0)
+        FError("negative count in portal file header");
+
     for (int i = 0; i < numportals; i++) {
         prtfile_portal_t p;
         int numpoints;
-- 
2.43.0


From 169e085d0f365a4d712da1caa5a13c65c6285f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 08/63] fix: do not copy past the end of a memory stream

A read or write of more bytes than are left copied all of them and moved the
position past the end of the buffer, although only the available count was
reported.
---
 common/cmdlib.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..272e7f2 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -203,8 +203,8 @@ std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    memcpy(pptr(), s, num_write);
+    setpptrs(pbase(), pptr() + num_write, epptr());
 
     return num_write;
 }
@@ -223,8 +223,8 @@ std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
     std::streamsize free_space = egptr() - gptr();
     std::streamsize num_read = std::min(free_space, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    memcpy(s, gptr(), num_read);
+    setg(eback(), gptr() + num_read, egptr());
 
     return num_read;
 }
-- 
2.43.0


From bddf350a331f44b1156732a2d5ee9659ae1c80da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 09/63] fix: round the upper bounds of Quake II leafs outwards

They were rounded down like the lower bounds, so a stored leaf box could be
smaller than the leaf; nodes already round outwards.
---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From ddb4a2b7e42e1dce0d5eb2bfc1f4a69adb465508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 10/63] fix: detect Hexen II maps without clipnodes

The clip hull headnodes of such maps are 0, which was taken as out of range,
so a file whose models lump also fits the Quake model size was read as
Quake. An empty models lump no longer counts as Hexen II.
---
 common/bspfile.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..8c93b95 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1981,6 +1981,10 @@ bool ConvertBSPFormat(bspdata_t *bspdata, const bspversion_t *to_version)
 
 static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
 {
+    if (!header->lumps[LUMP_MODELS].filelen) {
+        // nothing to tell them apart by
+        return false;
+    }
     if (0 != (header->lumps[LUMP_MODELS].filelen % sizeof(dmodelh2_t))) {
         // definitely not H2
         return false;
@@ -2029,7 +2033,8 @@ static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
 
         // clipnode headnodes
         for (int j = 1; j < 8; ++j) {
-            if (model->headnode[j] >= clipnodes_count)
+            // (0 is valid even if there are no clipnodes)
+            if (model->headnode[j] && model->headnode[j] >= clipnodes_count)
                 return false;
         }
     }
-- 
2.43.0


From 1040b40ef3d1040efd5301e970df07f516752ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:29 +0000
Subject: [PATCH 11/63] fix: refuse bsp files whose lumps lie outside the file

Files shorter than their header were read from uninitialised memory, and
lump offsets and lengths were used unchecked: negative or huge values led to
huge allocations and, in the Hexen II detection, to reads out of bounds.
---
 common/bspfile.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 8c93b95..9f8c481 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2024,7 +2024,7 @@ static bool isHexen2(const dheader_t *header, const bspversion_t *bspversion)
             return false;
         if (model->firstface < 0)
             return false;
-        if (model->firstface + model->numfaces > faces_count)
+        if (model->firstface > faces_count || model->numfaces > faces_count - model->firstface)
             return false;
 
         // headnode[0]
@@ -2244,11 +2244,27 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
         std::copy(q1header.lumps.begin(), q1header.lumps.end(), std::back_inserter(lumps));
     }
 
+    if (!stream) {
+        FError("\"{}\" is too short to be a bsp\n", filename);
+    }
+
     /* check the file version */
     if (!BSPVersionSupported(temp_version.ident, temp_version.version, &bspdata->version)) {
         logging::print("BSP is version {}\n", temp_version);
         Error("Sorry, this bsp version is not supported.");
     } else {
+        /* check that the lumps lie in the file */
+        for (auto &lump : lumps) {
+            if (!lump.filelen) {
+                continue;
+            }
+
+            if (lump.fileofs < 0 || lump.filelen < 0 ||
+                static_cast<size_t>(lump.fileofs) + static_cast<size_t>(lump.filelen) > file_data->size()) {
+                FError("\"{}\" has a lump outside the file (offset {}, length {})\n", filename, lump.fileofs, lump.filelen);
+            }
+        }
+
         // special case handling for Hexen II
         if (bspdata->version->game->id == GAME_QUAKE && isHexen2((dheader_t *)file_data->data(), bspdata->version)) {
             if (bspdata->version == &bspver_q1) {
@@ -2285,7 +2301,11 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
     // detect BSPX
     /*bspx header is positioned exactly+4align at the end of the last lump position (regardless of order)*/
     for (i = 0, bspxofs = 0; i < lumps.size(); i++) {
-        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs + lumps[i].filelen));
+        if (lumps[i].fileofs < 0) {
+            continue;
+        }
+
+        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs) + static_cast<size_t>(lumps[i].filelen));
     }
 
     bspxofs = (bspxofs + 3) & ~3;
-- 
2.43.0


From b6154ada09b28cc1f310823e6a2b5841bab2574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:04 +0000
Subject: [PATCH 12/63] fix: check BSPX lump bounds without overflow

The sum of offset and length wrapped around, so a huge length was accepted
and copied from out of bounds; names that use all 24 characters were read
past their end.
---
 common/bspfile.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 9f8c481..6cce622 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2330,12 +2330,15 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
                 return;
             }
 
-            if (xlump.fileofs > file_data->size() || (xlump.fileofs + xlump.filelen) > file_data->size()) {
+            if (xlump.fileofs > file_data->size() || xlump.filelen > file_data->size() - xlump.fileofs) {
                 logging::print("WARNING: invalid BSPX lump at index {}\n", i);
                 return;
             }
 
-            bspdata->bspx.transfer(xlump.lumpname.data(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
+            // the name is not terminated if it has the full 24 characters
+            std::string lumpname(xlump.lumpname.data(), strnlen(xlump.lumpname.data(), xlump.lumpname.size()));
+
+            bspdata->bspx.transfer(lumpname.c_str(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
                                                               file_data->begin() + xlump.fileofs + xlump.filelen));
         }
     }
-- 
2.43.0


From f0c670314ab5d86c0c1f9bbf37e57076d66fc076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 13/63] fix: refuse bsp files with the identifier of the
 internal format

The generic format has no game, which was dereferenced.
---
 common/bspfile.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 6cce622..21979e6 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1738,6 +1738,10 @@ const bspversion_t bspver_qbism{Q2_QBISMIDENT, Q2_BSPVERSION, "qbism", "Quake II
 static bool BSPVersionSupported(int32_t ident, std::optional<int32_t> version, const bspversion_t **out_version)
 {
     for (const bspversion_t *bspver : bspversions) {
+        if (!bspver->game) {
+            // internal format, never stored
+            continue;
+        }
         if (bspver->ident == ident && bspver->version == version) {
             if (bspver->game->id == GAME_HEXEN_II) {
                 // HACK: don't detect as Hexen II here, it's done later (isHexen2).
-- 
2.43.0


From efb7b6ef6c8a50af824962e075d71752e47405eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:10 +0000
Subject: [PATCH 14/63] fix: check the texture and visibility lumps while
 reading them

Counts and offsets inside these two lumps were used unchecked, leading to
huge allocations and uninitialised or out-of-bounds data.
---
 common/bspfile_generic.cc         | 27 +++++++++++++++++++++++++--
 include/common/bspfile_generic.hh |  4 ++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 879f7e5..0346a0a 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -19,6 +19,7 @@
 
 #include <common/bspfile.hh>
 #include <common/cmdlib.hh>
+#include <common/log.hh>
 
 // dmodelh2_t
 
@@ -60,6 +61,11 @@ void mvis_t::stream_read(std::istream &stream, const lump_t &lump)
 
     stream >= numclusters;
 
+    if (!stream || numclusters < 0 ||
+        numclusters > (lump.filelen - static_cast<int32_t>(sizeof(int32_t))) / static_cast<int32_t>(sizeof(int32_t) * 2)) {
+        FError("visibility lump is too short for its clusters");
+    }
+
     resize(numclusters);
 
     // read cluster -> offset tables
@@ -116,9 +122,13 @@ void miptex_t::stream_read(std::istream &stream, size_t len)
     imemstream miptex_stream(data.data(), len);
 
     dmiptex_t dtex;
-    miptex_stream >= dtex;
 
-    name = dtex.name.data();
+    if (!(miptex_stream >= dtex)) {
+        FError("miptex is too short");
+    }
+
+    // the name is not terminated if it has the full 16 characters
+    name.assign(dtex.name.data(), strnlen(dtex.name.data(), dtex.name.size()));
     width = dtex.width;
     height = dtex.height;
     offsets = dtex.offsets;
@@ -136,6 +146,11 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
     int32_t nummiptex;
     stream >= nummiptex;
 
+    if (!stream || nummiptex < 0 ||
+        nummiptex > (lump.filelen - static_cast<int32_t>(sizeof(int32_t))) / static_cast<int32_t>(sizeof(int32_t))) {
+        FError("texture lump is too short for its textures");
+    }
+
     // load in all of the offsets, we need them
     // to calculate individual data sizes
     std::vector<int32_t> offsets(nummiptex);
@@ -155,6 +170,10 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             continue;
         }
 
+        if (offset > lump.filelen) {
+            FError("miptex outside the texture lump");
+        }
+
         // move to miptex position (technically required
         // because there might be dummy data between the offsets
         // and the mip textures themselves...)
@@ -177,6 +196,10 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             next_offset = lump.filelen;
         }
 
+        if (next_offset > lump.filelen) {
+            FError("miptex outside the texture lump");
+        }
+
         if (next_offset > offset) {
             tex.stream_read(stream, next_offset - offset);
         }
diff --git a/include/common/bspfile_generic.hh b/include/common/bspfile_generic.hh
index 60cb29e..a11d352 100644
--- a/include/common/bspfile_generic.hh
+++ b/include/common/bspfile_generic.hh
@@ -102,7 +102,7 @@ struct dmiptex_t
 struct miptex_t
 {
     std::string name;
-    uint32_t width, height;
+    uint32_t width = 0, height = 0;
     std::vector<uint8_t> data;
     /**
      * set at read time if the offset is -1
@@ -111,7 +111,7 @@ struct miptex_t
     /**
      * exposed for testing -notex
      */
-    std::array<int32_t, MIPLEVELS> offsets;
+    std::array<int32_t, MIPLEVELS> offsets{};
 
     size_t stream_size() const;
 
-- 
2.43.0


From 377f889e1ab209538077bd06560556cce358998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 15/63] fix: tokenizer read past the end of unterminated text

---
 common/parser.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..f93f168 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -68,7 +68,7 @@ parser_t::parser_t(const void *start, size_t length, parser_source_location base
 }
 
 parser_t::parser_t(const std::string_view &view, parser_source_location base_location)
-    : parser_t(&view.front(), view.size(), base_location)
+    : parser_t(view.data(), view.size(), base_location)
 {
 }
 
@@ -96,6 +96,9 @@ bool parser_t::parse_token(parseflags flags)
     token.clear();
     auto token_p = std::back_inserter(token);
 
+    // the text isn't necessarily null-terminated, so anything past the end reads as a terminator
+    auto peek = [this](ptrdiff_t offset = 0) { return offset < end - pos ? pos[offset] : '\0'; };
+
 skipspace:
     /* skip space */
     while (at_end() || *pos <= 32) {
@@ -117,9 +120,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((peek() == '/' && peek(1) == '/') || peek() == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (peek() && peek() != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -128,13 +131,15 @@ skipspace:
             return false;
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
-        while (*pos++ != '\n') {
-            if (!*pos) {
+        while (peek() != '\n') {
+            if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
             }
+            pos++;
         }
+        pos++;
         location.line_number.value()++; // count the \n the preceding while() loop just consumed
         goto skipspace;
     }
@@ -146,15 +151,15 @@ skipspace:
     if (*pos == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (peek() != '"') {
+            if (!peek())
                 FError("{}: EOF inside quoted token", location);
             if (*pos == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (peek(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +182,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (peek(2) == '\r' || peek(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, peek(1));
                         break;
                 }
             }
@@ -192,7 +197,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (peek() > 32) {
             *token_p++ = *pos++;
         }
     }
-- 
2.43.0


From d00800ae2b5d6fd3b9a30f42c8af54fee5a8dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 16/63] fix: trimming an entity key removed the wrong
 characters and read an empty key

---
 common/entdata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..541b3b2 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.front()))) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.back()))) {
+            keystr.pop_back();
         }
 
         set(keystr, parser.token);
-- 
2.43.0


From 39f31a00740685f3f7e4ccaa4ea4425a12b5b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 17/63] fix: optional numbers of -bounce, -soft and -blocksize
 swallowed file names starting with a digit

---
 include/common/settings.hh | 10 ++++++++++
 light/light.cc             |  8 +++++++-
 qbsp/qbsp.cc               |  8 +++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/common/settings.hh b/include/common/settings.hh
index 179e08f..6d6e764 100644
--- a/include/common/settings.hh
+++ b/include/common/settings.hh
@@ -302,6 +302,16 @@ public:
             try {
                 T f;
 
+                // an argument that can be omitted is only ours if it's a number as a whole;
+                // it could also be the next parameter (i.e. a filename that starts with a digit)
+                if (_can_omit_argument) {
+                    size_t length;
+                    std::stod(parser.token, &length);
+                    if (length != parser.token.size()) {
+                        throw std::invalid_argument(parser.token);
+                    }
+                }
+
                 if constexpr (std::is_floating_point_v<T>) {
                     f = std::stod(parser.token);
                 } else {
diff --git a/light/light.cc b/light/light.cc
index a971fcf..74d1411 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -224,7 +224,13 @@ bool light_settings::setting_soft::parse(const std::string &setting_name, parser
     }
 
     try {
-        int32_t f = static_cast<int32_t>(std::stoull(parser.token));
+        size_t length;
+        int32_t f = static_cast<int32_t>(std::stoull(parser.token, &length));
+
+        // not a number as a whole, so it's the next parameter (i.e. a filename that starts with a digit)
+        if (length != parser.token.size()) {
+            throw std::invalid_argument(parser.token);
+        }
 
         set_value(f, source);
 
diff --git a/qbsp/qbsp.cc b/qbsp/qbsp.cc
index 52cf1ab..14ff530 100644
--- a/qbsp/qbsp.cc
+++ b/qbsp/qbsp.cc
@@ -154,7 +154,13 @@ bool setting_blocksize::parse(const std::string &setting_name, parser_base_t &pa
         // don't allow negatives
         if (parser.token[0] != '-') {
             try {
-                vec[i] = std::stol(parser.token);
+                size_t length;
+                const long value = std::stol(parser.token, &length);
+                // not a number as a whole, so it's the next parameter (i.e. a filename that starts with a digit)
+                if (length != parser.token.size()) {
+                    throw std::invalid_argument(parser.token);
+                }
+                vec[i] = value;
                 parser.parse_token();
                 continue;
             } catch (std::exception &) {
-- 
2.43.0


From f8dbcb6987d338e6cab9786d93f4ee0bb54806b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 18/63] fix: underscored worldspawn keys did not reach inverted
 bool settings; stray '-' read an empty name

---
 common/settings.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..e2abda2 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -523,8 +523,11 @@ setting_error setting_container::set_setting(const std::string &name, const std:
         return setting_error::MISSING;
     }
 
+    // settings only know their names without the leading underscores (i.e. "no" prefixes)
+    const std::string setting_name = name.substr(std::min(name.find_first_not_of('_'), name.size()));
+
     parser_t p{value, {}};
-    return setting->parse(name, p, source) ? setting_error::NONE : setting_error::INVALID;
+    return setting->parse(setting_name, p, source) ? setting_error::NONE : setting_error::INVALID;
 }
 
 void setting_container::set_settings(const entdict_t &epairs, source source)
@@ -671,7 +674,7 @@ std::vector<std::string> setting_container::parse(parser_base_t &parser)
         parser.parse_token();
 
         // remove leading hyphens. we support any number of them.
-        while (parser.token.front() == '-') {
+        while (!parser.token.empty() && parser.token.front() == '-') {
             parser.token.erase(parser.token.begin());
         }
 
-- 
2.43.0


From c67bc7484819cd72ff5c04acb6eb8614436fb14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 19/63] fix: point storage of windings kept stale points after
 clear, shrink or move

---
 include/common/polylib.hh | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index ef21023..5168d8a 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -441,12 +441,10 @@ public:
         // blit over array data
         memcpy(&array.front(), &move.array.front(), std::min(count, N) * sizeof(vec3_type));
 
-        // move vector data, if available
-        if (count > N) {
-            vector = std::move(move.vector);
-        }
+        // move vector data (empty unless there are more than N points)
+        vector = std::move(move.vector);
 
-        move.count = 0;
+        move.clear();
     }
 
     // assignment copy
@@ -462,6 +460,8 @@ public:
             vector.reserve(count);
             vector.resize(count - N);
             memcpy(&vector.front(), &copy.vector.front(), (count - N) * sizeof(vec3_type));
+        } else {
+            vector.clear();
         }
 
         return *this;
@@ -475,12 +475,10 @@ public:
         // blit over array data
         memcpy(&array.front(), &move.array.front(), std::min(count, N) * sizeof(vec3_type));
 
-        // move vector data, if available
-        if (count > N) {
-            vector = std::move(move.vector);
-        }
+        // move vector data (empty unless there are more than N points)
+        vector = std::move(move.vector);
 
-        move.count = 0;
+        move.clear();
 
         return *this;
     }
@@ -562,17 +560,19 @@ public:
 
     inline void resize(const size_t &new_size)
     {
-        // resize vector if necessary
-        if (new_size > N) {
-            vector.resize(new_size - N);
-        }
+        // the vector holds exactly the points past the array
+        vector.resize(new_size > N ? new_size - N : 0);
 
         count = new_size;
     }
 
     inline void reserve(size_t size) { }
 
-    inline void clear() { count = 0; }
+    inline void clear()
+    {
+        count = 0;
+        vector.clear();
+    }
 };
 
 // Winding type, with storage template. Doesn't inherit the storage,
-- 
2.43.0


From 3334b3f623e0fc9f94f383db87166624412c8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 20/63] fix: map conversion lost the projection of shifted
 faces and wrote uninitialised or unreadable fields

---
 common/mapfile.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 777c789..5baa926 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -2,6 +2,7 @@
 #include <common/log.hh>
 #include <common/ostream.hh>
 #include <common/imglib.hh>
+#include <algorithm>
 #include <utility>
 
 /*static*/ bool brush_side_t::is_valid_texture_projection(const qvec3f &faceNormal, const qvec3f &s_vec, const qvec3f &t_vec)
@@ -189,7 +190,7 @@ void brush_side_t::parse_extended_texinfo(parser_t &parser)
     if (!parse_quark_comment(parser)) {
         // Parse extra Quake 2 surface info
         if (parser.parse_token(PARSE_OPTIONAL)) {
-            texinfo_quake2_t q2_info;
+            texinfo_quake2_t q2_info{};
 
             q2_info.contents = std::stoi(parser.token);
 
@@ -504,7 +505,7 @@ void brush_side_t::write_texinfo(std::ostream &stream, const texdef_valve_t &tex
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_etp_t &texdef)
 {
     write_texinfo(stream, (const texdef_quake_ed_t &) texdef);
-    ewt::print(stream, "//TX{}", texdef.tx2 ? '2' : '1');
+    ewt::print(stream, " //TX{}", texdef.tx2 ? '2' : '1');
 }
 
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_bp_t &texdef)
@@ -514,9 +515,13 @@ void brush_side_t::write_texinfo(std::ostream &stream, const texdef_bp_t &texdef
 
 void brush_side_t::write(std::ostream &stream)
 {
+    // names that wouldn't be read back as a single token need to be quoted
+    const bool quoted = texture.empty() || texture.starts_with(';') || texture.starts_with("//") ||
+                        std::any_of(texture.begin(), texture.end(), [](char c) { return c <= 32; });
+
     ewt::print(stream, "( {} {} {} ) ( {} {} {} ) ( {} {} {} ) {} ", planepts[0][0], planepts[0][1], planepts[0][2],
         planepts[1][0], planepts[1][1], planepts[1][2], planepts[2][0], planepts[2][1], planepts[2][2],
-        texture);
+        quoted ? "\"" + texture + "\"" : texture);
 
     std::visit([this, &stream](auto &&x) { write_texinfo(stream, x); }, raw);
 }
@@ -725,6 +730,7 @@ namespace convert_to_quaked
     static qvec2f evalTexDefAtPoint(const texdef_quake_ed_t &texdef, const qplane3d &faceplane, const qvec3f &point)
     {
         brush_side_t temp;
+        temp.plane = faceplane;
         temp.set_texinfo(texdef_quake_ed_t { texdef.shift, texdef.rotate, texdef.scale });
 
         const qmat4x4f worldToTexSpace_res = texVecsTo4x4Matrix(faceplane, temp.vecs);
@@ -850,7 +856,7 @@ namespace convert_to_valve
 {
     static texdef_valve_t TexDef_BSPToValve(const texvecf &in_vecs)
     {
-        texdef_valve_t res;
+        texdef_valve_t res{};
 
         // From the valve -> bsp code,
         //
@@ -1051,10 +1057,10 @@ void map_entity_t::parse_entity_dict(parser_t &parser)
     std::string key = std::move(parser.token);
 
     // trim whitespace from start/end
-    while (std::isspace(key.front())) {
+    while (!key.empty() && std::isspace(static_cast<unsigned char>(key.front()))) {
         key.erase(key.begin());
     }
-    while (std::isspace(key.back())) {
+    while (!key.empty() && std::isspace(static_cast<unsigned char>(key.back()))) {
         key.erase(key.end() - 1);
     }
 
-- 
2.43.0


From 90999d79aae55fbc0769522460e967d5d83db548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 21/63] fix: let vis see between translucent contents and
 areaportals, not through opaque liquids

The Quake 2 rule in portal_can_see_through returned the opposite of its
test: after translucent and detail contents are disregarded, two sides that
differ in visible contents were see-through and two that do not were not.
---
 common/bspfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 21979e6..911256a 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1184,7 +1184,7 @@ struct gamedef_q2_t : public gamedef_t
         if (!(c0 ^ c1))
             return true;
 
-        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) != 0);
+        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) == 0);
     }
 
     bool contents_seals_map(const contentflags_t &contents) const override
-- 
2.43.0


From d3ab159a49ff6ce64e8be2c8c4d7780094e8737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 22/63] fix: do not take a directory for the file asked for

A directory in a registered search directory that has the name of a texture
or other file hid the file of that name in every later place.
---
 common/fs.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 2f98216..a4f40f5 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -37,14 +37,17 @@ struct directory_archive : archive_like
 
     bool contains(const path &filename) override
     {
-        return exists(!pathname.empty() ? (pathname / filename) : filename);
+        const path p = !pathname.empty() ? (pathname / filename) : filename;
+
+        // a directory of that name is not the file that is asked for
+        return exists(p) && !is_directory(p);
     }
 
     data load(const path &filename) override
     {
         path p = !pathname.empty() ? (pathname / filename) : filename;
 
-        if (!exists(p)) {
+        if (!exists(p) || is_directory(p)) {
             return std::nullopt;
         }
 
-- 
2.43.0


From 12b861283171d7c70fc3df72e60623f6c350a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 23/63] fix: read pak and wad directories within their bounds

Names that fill their field were read past its end and lost, and an entry or
directory outside the file gave zero bytes, an endless loop or an enormous
allocation - and, the stream having failed, zero bytes for every later file
of the archive.
---
 common/fs.cc | 59 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index a4f40f5..5f029ef 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -22,6 +22,7 @@
 #include "common/cmdlib.hh"
 #include "common/fs.hh"
 #include "common/log.hh"
+#include <algorithm>
 #include <fstream>
 #include <memory>
 #include <array>
@@ -64,6 +65,30 @@ struct directory_archive : archive_like
     }
 };
 
+// names in archive directories fill their whole field if they are long enough
+template<size_t N>
+static std::string archive_name(const std::array<char, N> &name)
+{
+    return std::string(name.data(), std::find(name.begin(), name.end(), '\0') - name.begin());
+}
+
+// reads the given part of an archive, if the archive has it
+static data load_archive_part(std::ifstream &stream, const path &pathname, uintmax_t offset, uintmax_t size)
+{
+    const uintmax_t total = file_size(pathname);
+
+    if (offset > total || size > total - offset) {
+        logging::funcprint("WARNING: archive '{}' is damaged\n", pathname);
+        return std::nullopt;
+    }
+
+    std::vector<uint8_t> data(size);
+    stream.clear();
+    stream.seekg(offset);
+    stream.read(reinterpret_cast<char *>(data.data()), size);
+    return data;
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -97,7 +122,9 @@ struct pak_archive : archive_like
 
         pak_header header;
 
-        pakstream >= header;
+        if (!(pakstream >= header)) {
+            throw std::runtime_error("Truncated header");
+        }
 
         if (header.magic != std::array<char, 4>{'P', 'A', 'C', 'K'}) {
             throw std::runtime_error("Bad magic");
@@ -105,6 +132,10 @@ struct pak_archive : archive_like
 
         size_t totalFiles = header.size / sizeof(pak_file);
 
+        if (header.offset + static_cast<uintmax_t>(totalFiles) * sizeof(pak_file) > file_size(pathname)) {
+            throw std::runtime_error("Directory is outside the file");
+        }
+
         files.reserve(totalFiles);
 
         pakstream.seekg(header.offset);
@@ -114,7 +145,7 @@ struct pak_archive : archive_like
 
             pakstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.offset, file.size);
+            files[archive_name(file.name)] = std::make_tuple(file.offset, file.size);
         }
     }
 
@@ -128,11 +159,7 @@ struct pak_archive : archive_like
             return std::nullopt;
         }
 
-        pakstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        pakstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        return load_archive_part(pakstream, pathname, std::get<0>(it->second), std::get<1>(it->second));
     }
 };
 
@@ -177,12 +204,20 @@ struct wad_archive : archive_like
 
         wad_header header;
 
-        wadstream >= header;
+        if (!(wadstream >= header)) {
+            throw std::runtime_error("Truncated header");
+        }
 
         if (header.identification != wad2_ident && header.identification != wad3_ident) {
             throw std::runtime_error("Bad magic");
         }
 
+        constexpr uintmax_t lump_header_size = 32;
+
+        if (header.infotableofs + header.numlumps * lump_header_size > file_size(pathname)) {
+            throw std::runtime_error("Directory is outside the file");
+        }
+
         files.reserve(header.numlumps);
 
         wadstream.seekg(header.infotableofs);
@@ -192,7 +227,7 @@ struct wad_archive : archive_like
 
             wadstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.filepos, file.disksize);
+            files[archive_name(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
     }
 
@@ -206,11 +241,7 @@ struct wad_archive : archive_like
             return std::nullopt;
         }
 
-        wadstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        wadstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        return load_archive_part(wadstream, pathname, std::get<0>(it->second), std::get<1>(it->second));
     }
 };
 
-- 
2.43.0


From a0557bc85ed7260342da6f4cae8ed729214dc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 24/63] fix: refuse to seek outside of a memory stream

Seeking past the end left the stream good with its read position outside the
buffer; the next read copied from there.
---
 common/cmdlib.cc | 50 +++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index 272e7f2..41eb844 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -152,46 +152,44 @@ void membuf::setpptrs(char *first, char *next, char *end)
 
 membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 {
+    return seekoff(off, std::ios_base::beg, which);
+}
+
+membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
+{
+    auto target = [&](off_type cur, off_type size) {
+        off_type from = (dir == std::ios_base::cur) ? cur : (dir == std::ios_base::end) ? size : 0;
+
+        // positions outside of the memory don't exist
+        if (off < -from || off > size - from)
+            return off_type(-1);
+
+        return from + off;
+    };
+
+    off_type in = 0, out = 0;
+
     if (which & std::ios_base::in) {
-        setg(eback(), eback() + off, egptr());
+        in = target(gptr() - eback(), egptr() - eback());
     }
 
     if (which & std::ios_base::out) {
-        setpptrs(pbase(), pbase() + off, epptr());
+        out = target(pptr() - pbase(), epptr() - pbase());
     }
 
-    if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
+    if (in < 0 || out < 0) {
+        return pos_type(off_type(-1));
     }
-}
 
-membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
-{
     if (which & std::ios_base::in) {
-        if (dir == std::ios_base::cur)
-            gbump(off);
-        else if (dir == std::ios_base::end)
-            setg(eback(), egptr() + off, egptr());
-        else if (dir == std::ios_base::beg)
-            setg(eback(), eback() + off, egptr());
+        setg(eback(), eback() + in, egptr());
     }
 
     if (which & std::ios_base::out) {
-        if (dir == std::ios_base::cur)
-            pbump(off);
-        else if (dir == std::ios_base::end)
-            setpptrs(pbase(), epptr() + off, epptr());
-        else if (dir == std::ios_base::beg)
-            setpptrs(pbase(), pbase() + off, epptr());
+        setpptrs(pbase(), pbase() + out, epptr());
     }
 
-    if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
-    }
+    return (which & std::ios_base::in) ? in : out;
 }
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
-- 
2.43.0


From b18a42243554c33f90c18777f86bf802c7f268bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 25/63] fix: decode textures within the bounds of their file

Sizes and offsets of wal and mip files were trusted or checked with a 32 bit
product, an unterminated animation name was read past its end, a short pcx
gave a palette of its own bytes, Half-Life mips without a palette indexed an
empty one, and a fully transparent texture averaged to 0/0.
---
 common/imglib.cc | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 4b4079b..71393c7 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <vector>
 #include <common/fs.hh>
 #include <common/imglib.hh>
@@ -61,7 +62,12 @@ static bool LoadPCXPalette(const fs::path &filename, std::vector<qvec3b> &palett
 
     // Parse the PCX file
     pcx_t pcx;
-    stream >= pcx;
+
+    // the palette follows the header and the pixels
+    if (!(stream >= pcx) || file->size() < static_cast<size_t>(stream.tellg()) + 768) {
+        logging::funcprint("Failed to load '{}'. File is too short.\n", filename);
+        return false;
+    }
 
     if (pcx.manufacturer != 0x0a || pcx.version != 5 || pcx.encoding != 1 || pcx.bits_per_pixel != 8) {
         logging::funcprint("Failed to load '{}'. Unsupported PCX file.\n", filename);
@@ -107,6 +113,13 @@ static void convert_paletted_to_32_bit(
     }
 }
 
+// whether the file has the pixels of a mip of the given size at the given offset
+static bool has_pixels(const fs::data &file, uint32_t width, uint32_t height, uint64_t offset)
+{
+    return offset <= file->size() &&
+           (!height || width <= (file->size() - offset) / height);
+}
+
 /*
 ============================================================================
 WAL IMAGE
@@ -133,7 +146,11 @@ std::optional<texture> load_wal(
 
     // Parse WAL
     q2_miptex_t mt;
-    stream >= mt;
+
+    if (!(stream >= mt)) {
+        logging::funcprint("Failed to fully load wal {}. Header incomplete.\n", name);
+        return std::nullopt;
+    }
 
     texture tex;
 
@@ -148,11 +165,16 @@ std::optional<texture> load_wal(
     tex.meta.contents_native = mt.contents;
     tex.meta.flags = {mt.flags};
     tex.meta.value = mt.value;
-    tex.meta.animation = mt.animname.data();
+    tex.meta.animation.assign(mt.animname.begin(), std::find(mt.animname.begin(), mt.animname.end(), '\0'));
 
     if (!meta_only) {
+        if (!has_pixels(file, mt.width, mt.height, mt.offsets[0])) {
+            logging::funcprint("wal offset0 overrun for {}\n", name);
+            return std::nullopt;
+        }
+
         stream.seekg(mt.offsets[0]);
-        std::vector<uint8_t> pixels(mt.width * mt.height);
+        std::vector<uint8_t> pixels(static_cast<size_t>(mt.width) * mt.height);
         stream.read(reinterpret_cast<char *>(pixels.data()), pixels.size());
         convert_paletted_to_32_bit(pixels, tex.pixels, palette);
     }
@@ -201,14 +223,14 @@ std::optional<texture> load_mip(
 
         // convert the data into RGBA.
         // sanity check
-        if (header.offsets[0] + (header.width * header.height) > file->size()) {
+        if (!has_pixels(file, header.width, header.height, header.offsets[0])) {
             logging::funcprint("mip offset0 overrun for {}\n", name);
             return tex;
         }
 
         // fetch the full data for the first mip
         stream.seekg(header.offsets[0]);
-        std::vector<uint8_t> pixels(header.width * header.height);
+        std::vector<uint8_t> pixels(static_cast<size_t>(header.width) * header.height);
         stream.read(reinterpret_cast<char *>(pixels.data()), pixels.size());
 
         // Half Life will have a palette of 256 colors in a specific spot
@@ -220,7 +242,7 @@ std::optional<texture> load_mip(
         if (game->id == GAME_HALF_LIFE) {
             bool valid_mip_palette = true;
 
-            int32_t mip3_size = (header.width >> 3) * (header.height >> 3);
+            uint64_t mip3_size = static_cast<uint64_t>(header.width >> 3) * (header.height >> 3);
             size_t palette_size = sizeof(uint16_t) + (sizeof(qvec3b) * 256);
 
             if (header.offsets[3] <= 0) {
@@ -249,6 +271,11 @@ std::optional<texture> load_mip(
             }
         }
 
+        if (palette.size() < 256) {
+            logging::funcprint("no palette for {}\n", name);
+            return tex;
+        }
+
         convert_paletted_to_32_bit(pixels, tex.pixels, palette);
     }
 
@@ -323,6 +350,10 @@ qvec3b calculate_average(const std::vector<qvec4b> &pixels)
         }
     }
 
+    if (!n) {
+        return {};
+    }
+
     return avg /= n;
 }
 
-- 
2.43.0


From 750430f1dbaca4df87b05d79bd62665b4985f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 26/63] fix: let a .wal_json override the .wal next to it

The .wal was looked up without the textures folder and with the part of the
name after a dot cut off, so the values a .wal_json leaves out were lost; a
list of flags was added to those of the .wal.
---
 common/imglib.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 71393c7..e1a0ca4 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -410,10 +410,12 @@ std::optional<texture_meta> load_wal_json_meta(
         meta.name = name;
 
         {
-            fs::path wal = fs::path(name).replace_extension(".wal");
+            // the .wal next to the .wal_json
+            fs::path wal = (game->id == GAME_QUAKE_II) ? fs::path("textures") / name : fs::path(name);
+            wal += ".wal";
 
             if (auto wal_file = fs::load(wal))
-                if (auto wal_meta = load_wal_meta(wal.string(), wal_file, game))
+                if (auto wal_meta = load_wal_meta(name, wal_file, game))
                     meta = *wal_meta;
         }
 
@@ -458,6 +460,8 @@ std::optional<texture_meta> load_wal_json_meta(
             } else if (flags.is_string()) {
                 meta.flags.native = game->surfflags_from_string(flags.get<std::string>());
             } else if (flags.is_array()) {
+                meta.flags.native = 0;
+
                 for (auto &flag : flags) {
                     if (flag.is_number_integer()) {
                         meta.flags.native |= flag.get<int32_t>();
-- 
2.43.0


From f521934652e4e4bb602348f2382f1a7cf843214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 27/63] fix: do not read missing windings of a flat light grid
 leaf

---
 include/common/polylib.hh | 10 +++++++++-
 light/lightgrid.cc        |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index 5168d8a..a8a2437 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -1272,7 +1272,15 @@ public:
                 if (i == j)
                     continue;
 
-                result[i] = *result[i].clip_back(planes[j]);
+                auto clipped = result[i].clip_back(planes[j]);
+
+                if (!clipped) {
+                    // the box is flat, so this side has no area
+                    result[i] = {};
+                    break;
+                }
+
+                result[i] = std::move(*clipped);
             }
         }
 
diff --git a/light/lightgrid.cc b/light/lightgrid.cc
index fc07839..1b195bf 100644
--- a/light/lightgrid.cc
+++ b/light/lightgrid.cc
@@ -246,7 +246,9 @@ static std::vector<uint8_t> MakeOctreeLump(const mbsp_t &bsp, const lightgrid_ra
 
             auto bounds_windings = polylib::winding_t::aabb_windings(bounds);
             for (auto &w : bounds_windings) {
-                windings.push_back(std::move(w));
+                if (w.size()) {
+                    windings.push_back(std::move(w));
+                }
             }
         }
 
-- 
2.43.0


From fd696b0af922613be7b3319dfd7bb59caa18fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 28/63] fix: bspinfo lost digits and values of its report, and
 could crash or hang on textures, names and lightmaps

---
 common/bspinfo.cc  | 48 +++++++++++++++++++++++++++++++++++-----------
 common/bsputils.cc |  2 ++
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 932441a..e3ec70f 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -40,7 +40,7 @@ static std::string hex_string(const uint8_t *bytes, const size_t count)
     std::string str;
 
     for (size_t i = 0; i < count; ++i) {
-        fmt::format_to(std::back_inserter(str), "{:x}", bytes[i]);
+        fmt::format_to(std::back_inserter(str), "{:02x}", bytes[i]);
     }
 
     return str;
@@ -236,8 +236,9 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         size_t x = 0, y = 0;
     };
 
-    constexpr size_t atlas_size = 512;
+    size_t atlas_size = 512;
     const uint8_t *lightdata_source;
+    size_t lightdata_size;
     bool is_rgb;
     bool is_lit;
 
@@ -245,10 +246,12 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         is_lit = true;
         is_rgb = true;
         lightdata_source = litdata.data();
+        lightdata_size = litdata.size();
     } else {
         is_lit = false;
         is_rgb = bsp.loadversion->game->has_rgb_lightmap;
         lightdata_source = bsp.dlightdata.data();
+        lightdata_size = bsp.dlightdata.size();
     }
 
     struct atlas
@@ -309,6 +312,11 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         return {};
     }
 
+    // the largest lightmap has to fit
+    for (auto &rect : rectangles) {
+        atlas_size = std::max({atlas_size, (size_t)rect.extents.width() + 1, (size_t)rect.extents.height() + 1});
+    }
+
     // sort faces
     std::sort(rectangles.begin(), rectangles.end(), [](const face_rect &a, const face_rect &b) -> bool {
         int32_t a_height = a.extents.height();
@@ -387,7 +395,7 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
 
     // compile all of the styles that are available
     // TODO: LMSTYLE16
-    for (size_t i = 0; i < INVALID_LIGHTSTYLE_OLD - 1; i++) {
+    for (size_t i = 0; i < INVALID_LIGHTSTYLE_OLD; i++) {
         bool any_written = false;
 
         for (auto &rect : rectangles) {
@@ -408,8 +416,20 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
                 continue;
             }
 
-            auto in_pixel =
-                lightdata_source + ((is_lit ? 3 : 1) * rect.lightofs) + (rect.extents.numsamples() * (is_rgb ? 3 : 1) * style_index);
+            // unlit
+            if (rect.lightofs < 0) {
+                continue;
+            }
+
+            const size_t layer_size = (size_t)rect.extents.numsamples() * (is_rgb ? 3 : 1);
+            const size_t layer_ofs = ((is_lit ? 3 : 1) * (size_t)rect.lightofs) + (layer_size * style_index);
+
+            // outside of the light data
+            if (layer_ofs + layer_size > lightdata_size) {
+                continue;
+            }
+
+            auto in_pixel = lightdata_source + layer_ofs;
 
             for (size_t y = 0; y < rect.extents.height(); y++) {
                 for (size_t x = 0; x < rect.extents.width(); x++) {
@@ -572,7 +592,7 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
             json &visdata = (j.emplace("visdata", json::object())).first.value();
 
             json &pvs = (visdata.emplace("pvs", json::array())).first.value();
-            json &phs = (visdata.emplace("pvs", json::array())).first.value();
+            json &phs = (visdata.emplace("phs", json::array())).first.value();
 
             for (auto &offset : bsp.dvis.bit_offsets) {
                 pvs.push_back(offset[VIS_PVS]);
@@ -665,7 +685,8 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
             texinfo.push_back({"flags", src_texinfo.flags.native});
             texinfo.push_back({"miptex", src_texinfo.miptex});
             texinfo.push_back({"value", src_texinfo.value});
-            texinfo.push_back({"texture", std::string(src_texinfo.texture.data())});
+            texinfo.push_back({"texture",
+                std::string(src_texinfo.texture.data(), strnlen(src_texinfo.texture.data(), src_texinfo.texture.size()))});
             texinfo.push_back({"nexttexinfo", src_texinfo.nexttexinfo});
         }
     }
@@ -783,9 +804,12 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
             tex.push_back({"height", src_tex.height});
 
             if (src_tex.data.size() > sizeof(dmiptex_t)) {
-                json &mips = tex["mips"] = json::array();
-                mips.emplace_back(
-                    serialize_image(img::load_mip(src_tex.name, src_tex.data, false, bspdata.loadversion->game)));
+                // damaged textures have no pixels to show
+                if (auto img = img::load_mip(src_tex.name, src_tex.data, false, bspdata.loadversion->game);
+                    img && !img->pixels.empty()) {
+                    json &mips = tex["mips"] = json::array();
+                    mips.emplace_back(serialize_image(img));
+                }
             }
         }
     }
@@ -825,7 +849,9 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
     export_obj_and_lightmaps(bsp, bspdata.bspx.entries, false, true, fs::path(name).replace_extension(".geometry.obj"),
         fs::path(name).replace_extension(".lm.png"));
 
-    std::ofstream(name, std::fstream::out | std::fstream::trunc) << std::setw(4) << j;
+    // entity text and names are not necessarily UTF-8
+    std::ofstream(name, std::fstream::out | std::fstream::trunc)
+        << j.dump(4, ' ', false, json::error_handler_t::replace);
 
     logging::print("wrote {}\n", name);
 }
diff --git a/common/bsputils.cc b/common/bsputils.cc
index 2b04800..dc1a96e 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -930,6 +930,8 @@ faceextents_t::faceextents_t(
 
     if (lmwidth > 0 && lmheight > 0) {
         lm_extents = {lmwidth - 1, lmheight - 1};
+    } else {
+        lm_extents = {0, 0};
     }
 
     worldToTexCoordMatrix = WorldToTexSpace(&bsp, &face);
-- 
2.43.0


From f0ae021ec5ec30b8bc3748a3b3c04b7c45411a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 29/63] fix: maputil scripts: notation tables, derived values
 and queries that commit

Sides in the standard and QuArK notations were filed as .bp as well and
corrupted the Lua stack; committed sides had no plane, texture vecs or
initialised flags, so converting them afterwards wrote nonsense; a query
that committed the map freed the entities being iterated.
---
 maputil/maputil.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index fb5ed6c..0aaeb2b 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -313,9 +313,9 @@ static void maputil_make_brush_side(lua_State *state, const brush_side_t &side)
 
     if (std::holds_alternative<texdef_quake_ed_t>(side.raw)) {
         lua_setfield(state, -2, "quaked");
-    } if (std::holds_alternative<texdef_etp_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_etp_t>(side.raw)) {
         lua_setfield(state, -2, "etp");
-    } if (std::holds_alternative<texdef_valve_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_valve_t>(side.raw)) {
         lua_setfield(state, -2, "valve");
     } else {
         lua_setfield(state, -2, "bp");
@@ -535,7 +535,7 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     lua_getfield(state, -1, "info");
 
     if (lua_type(state, -1) == LUA_TTABLE) {
-        texinfo_quake2_t q2;
+        texinfo_quake2_t q2{};
 
         lua_getfield(state, -1, "contents");
         q2.contents = lua_tonumber(state, -1);
@@ -553,6 +553,19 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     }
 
     lua_pop(state, 1);
+
+    // calculate the plane and texture vecs from the new values
+    double length;
+    qvec3d normal = qv::normalize(
+        qv::cross(side.planepts[0] - side.planepts[1], side.planepts[2] - side.planepts[1]), length);
+    side.plane = {normal, qv::dot(side.planepts[1], normal)};
+
+    if (length < NORMAL_EPSILON) {
+        logging::print("WARNING: Brush plane with no normal\n");
+    } else if (!std::holds_alternative<texdef_bp_t>(side.raw)) {
+        std::visit([&side](auto &&x) { side.set_texinfo(x); }, side.raw);
+        side.validate_texture_projection();
+    }
 }
 
 static void maputil_copy_brush(lua_State *state, brush_t &brush)
@@ -560,6 +573,7 @@ static void maputil_copy_brush(lua_State *state, brush_t &brush)
     // count sides
     size_t num_sides = lua_count_array(state);
     brush.faces.resize(num_sides);
+    brush.base_format = texcoord_style_t::quaked;
 
     // iterate brushes
     lua_iterate_array(state, [&brush](auto state, auto index) {
@@ -881,7 +895,10 @@ static void maputil_exec_query(const char *query)
 
         lua_pop(state, 1);
 
-        for (auto &entity : map_file.entities) {
+        // copied, because the query can commit changes to the map
+        auto entities = map_file.entities;
+
+        for (auto &entity : entities) {
             lua_createtable(state, 0, entity.epairs.size());
 
             for (auto &kvp : entity.epairs) {
-- 
2.43.0


From c0953bb28413961153cacd06940e16b297e81812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 30/63] fix: func_illusionary_visblocker is walk-through and
 exported as empty

---
 qbsp/map.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 44e5e11..3d24a34 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -2492,7 +2492,11 @@ static contentflags_t Brush_GetContents(const mapentity_t &entity, const mapbrus
     }
 
     if (string_iequals(entity.epairs.get("classname"), "func_illusionary_visblocker")) {
-        base_contents = contentflags_t::make(base_contents.flags | EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER);
+        // not solid (or liquid): only the faces remain, and the interior is exported as empty
+        base_contents = contentflags_t::make(EWT_VISCONTENTS_MIST | EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER |
+                                             (base_contents.flags & EWT_CFLAG_SUPPRESS_CLIPPING_SAME_TYPE));
+        // like liquids, visible from the inside unless overridden
+        base_contents.set_mirrored(entity.epairs.has("_mirrorinside") ? entity.epairs.get_int("_mirrorinside") != 0 : true);
     }
 
     // non-Q2: -transwater implies liquids are detail
-- 
2.43.0


From dfca73f0b33a5a8c1ae230bfc0afdad78de7dff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 31/63] fix: -omitdetail does not omit liquids

---
 qbsp/brush.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qbsp/brush.cc b/qbsp/brush.cc
index c65375b..f13c3bd 100644
--- a/qbsp/brush.cc
+++ b/qbsp/brush.cc
@@ -768,7 +768,9 @@ static void Brush_LoadEntity(mapentity_t &dst, mapentity_t &src, hull_index_t hu
             continue;
         if ((qbsp_options.omitdetail.value() || qbsp_options.omitdetailwall.value()) && detail_wall)
             continue;
-        if (qbsp_options.omitdetail.value() && contents.is_any_detail(qbsp_options.target_game))
+        // (outside of Q2, liquids are only flagged as detail because of -transwater)
+        if (qbsp_options.omitdetail.value() && contents.is_any_detail(qbsp_options.target_game) &&
+            !(qbsp_options.target_game->id != GAME_QUAKE_II && contents.is_liquid(qbsp_options.target_game)))
             continue;
 
         /* turn solid brushes into detail, if we're in hull0 */
-- 
2.43.0


From ba9ed1d2ea3f99b43c208ed27a832c1dddbfbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 32/63] fix: FillDetail does not fill the whole map when every
 entity is embedded in detail

---
 qbsp/outside.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qbsp/outside.cc b/qbsp/outside.cc
index f550bbd..f64054f 100644
--- a/qbsp/outside.cc
+++ b/qbsp/outside.cc
@@ -837,7 +837,10 @@ void FillDetail(tree_t &tree, hull_index_t hullnum, bspbrush_t::container &brush
 
     // Sets leaf->occupant
     MarkOccupiedLeafs(tree.headnode, hullnum);
-    const std::vector<node_t *> occupied_leafs = FindOccupiedLeafs(tree.headnode);
+    std::vector<node_t *> occupied_leafs = FindOccupiedLeafs(tree.headnode);
+
+    // entities embedded in detail don't reach any empty space; if there are only such, don't fill the whole map
+    std::erase_if(occupied_leafs, LeafSealsForDetailFill);
 
     if (occupied_leafs.empty()) {
         logging::print("WARNING: No entities in empty space -- no filling performed (hull {})\n", hullnum.value_or(0));
-- 
2.43.0


From b72a686dbc28e13c4b539feab6d61349dbeea15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 33/63] fix: clip brushes count for the bounds of a brush model
 that also has other brushes

---
 qbsp/writebsp.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qbsp/writebsp.cc b/qbsp/writebsp.cc
index 845be04..c550837 100644
--- a/qbsp/writebsp.cc
+++ b/qbsp/writebsp.cc
@@ -308,6 +308,14 @@ void ExportDrawNodes(mapentity_t &entity, node_t *headnode, int firstface)
         dmodel.maxs[i] = headnode->bounds.maxs()[i] - SIDESPACE;
     }
 
+    // clip brushes are not in the tree, but part of a brush model's bounds
+    if (!map.is_world_entity(entity)) {
+        for (size_t i = 0; i < 3; i++) {
+            dmodel.mins[i] = std::min<float>(dmodel.mins[i], entity.bounds.mins()[i]);
+            dmodel.maxs[i] = std::max<float>(dmodel.maxs[i], entity.bounds.maxs()[i]);
+        }
+    }
+
     // shrink the bounds in Q1 based games (Q1 engine compensates for this in Mod_LoadSubmodels)
     if (qbsp_options.target_game->id != GAME_QUAKE_II) {
         dmodel.mins += qvec3d(1, 1, 1);
-- 
2.43.0


From 0b86839f83fdbcbcaeb30543e87ad4e3decc90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 34/63] fix: -notriggermodels writes the bounds of the brushes,
 not of a clip hull's

---
 qbsp/qbsp.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qbsp/qbsp.cc b/qbsp/qbsp.cc
index 14ff530..00f32e5 100644
--- a/qbsp/qbsp.cc
+++ b/qbsp/qbsp.cc
@@ -1080,8 +1080,11 @@ static void ProcessEntity(mapentity_t &entity, hull_index_t hullnum)
 
     // we're discarding the brush
     if (discarded_trigger) {
-        entity.epairs.set("mins", fmt::to_string(entity.bounds.mins()));
-        entity.epairs.set("maxs", fmt::to_string(entity.bounds.maxs()));
+        // not the bounds of the expanded brushes of the other hulls
+        if (!hullnum.value_or(0)) {
+            entity.epairs.set("mins", fmt::to_string(entity.bounds.mins()));
+            entity.epairs.set("maxs", fmt::to_string(entity.bounds.maxs()));
+        }
         return;
     }
 
-- 
2.43.0


From 722b62c35268a655ade37df2d428b9d19c514208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 35/63] fix: -onlyents keeps the origins of origin brushes and
 the model numbers with -notriggermodels

---
 include/qbsp/map.hh |  1 +
 qbsp/map.cc         | 24 ++++++++++++++++++++++++
 qbsp/qbsp.cc        | 16 +++++++++++++++-
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/qbsp/map.hh b/include/qbsp/map.hh
index 36b4630..a9a42e5 100644
--- a/include/qbsp/map.hh
+++ b/include/qbsp/map.hh
@@ -277,6 +277,7 @@ struct mapdata_t
 extern mapdata_t map;
 
 void CalculateWorldExtent();
+void ProcessEntityBrushesForOnlyEnts(mapentity_t &entity);
 
 struct texture_def_issues_t : logging::stat_tracker_t
 {
diff --git a/qbsp/map.cc b/qbsp/map.cc
index 3d24a34..b7dc042 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3392,6 +3392,30 @@ void ProcessMapBrushes()
     }
 }
 
+/*
+ * Subset of ProcessMapBrushes for -onlyents: removes the origin brushes
+ * of a brush entity, setting its origin key, and calculates its bounds.
+ */
+void ProcessEntityBrushesForOnlyEnts(mapentity_t &entity)
+{
+    for (auto it = entity.mapbrushes.begin(); it != entity.mapbrushes.end();) {
+        CalculateBrushBounds(*it);
+
+        if (it->contents.is_origin(qbsp_options.target_game)) {
+            if (!entity.epairs.has("origin")) {
+                entity.origin = it->bounds.centroid();
+                entity.epairs.set("origin", qv::to_string(entity.origin));
+            }
+            entity.rotation = rotation_t::origin_brush;
+            it = entity.mapbrushes.erase(it);
+            continue;
+        }
+
+        entity.bounds += it->bounds;
+        ++it;
+    }
+}
+
 void LoadMapFile()
 {
     logging::funcheader();
diff --git a/qbsp/qbsp.cc b/qbsp/qbsp.cc
index 00f32e5..eb69105 100644
--- a/qbsp/qbsp.cc
+++ b/qbsp/qbsp.cc
@@ -1299,11 +1299,18 @@ static void UpdateEntLump()
         return;
     }
 
+    // needed for the bounds of origin brushes
+    if (!qbsp_options.worldextent.value()) {
+        CalculateWorldExtent();
+    }
+
     size_t modnum = 1;
 
     for (size_t i = 1; i < map.entities.size(); i++) {
         mapentity_t &entity = map.entities.at(i);
 
+        ProcessEntityBrushesForOnlyEnts(entity);
+
         /* Special handling for misc_external_map.
            Duplicates some logic from ProcessExternalMapEntity. */
         bool is_misc_external_map = false;
@@ -1330,13 +1337,20 @@ static void UpdateEntLump()
             continue;
         }
 
+        // no model was exported for these
+        if (qbsp_options.notriggermodels.value() && !entity.mapbrushes.empty() && IsTrigger(entity)) {
+            entity.epairs.set("mins", fmt::to_string(entity.bounds.mins()));
+            entity.epairs.set("maxs", fmt::to_string(entity.bounds.maxs()));
+            continue;
+        }
+
         entity.epairs.set("model", fmt::format("*{}", modnum));
         modnum++;
 
         /* Do extra work for rotating entities if necessary */
         const std::string &classname = entity.epairs.get("classname");
 
-        if (!classname.compare(0, 7, "rotate_")) {
+        if (entity.rotation == rotation_t::none && !classname.compare(0, 7, "rotate_")) {
             FixRotateOrigin(entity);
         }
     }
-- 
2.43.0


From a8b09ebea21541b12307bfb2856e4d1b46316b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 36/63] fix: normalising a negative shift wrapped around
 (texture sizes are unsigned)

---
 common/mapfile.cc | 14 +++++++++-----
 qbsp/map.cc       | 14 +++++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 5baa926..8957ac2 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -747,15 +747,19 @@ namespace convert_to_quaked
 
     qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2f &in)
     {
-        if (!texture) {
+        if (!texture || !texture->width || !texture->height) {
             return in; // can't do anything without knowing the texture size.
         }
 
-        int fullWidthOffsets = static_cast<int>(in[0]) / texture->width;
-        int fullHeightOffsets = static_cast<int>(in[1]) / texture->height;
+        // the size is unsigned
+        const int width = static_cast<int>(texture->width);
+        const int height = static_cast<int>(texture->height);
 
-        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * texture->width),
-            in[1] - static_cast<float>(fullHeightOffsets * texture->height));
+        int fullWidthOffsets = static_cast<int>(in[0]) / width;
+        int fullHeightOffsets = static_cast<int>(in[1]) / height;
+
+        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * width),
+            in[1] - static_cast<float>(fullHeightOffsets * height));
         return result;
     }
 
diff --git a/qbsp/map.cc b/qbsp/map.cc
index b7dc042..d73c334 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -999,15 +999,19 @@ void checkEq(const qvec2f &a, const qvec2f &b, float epsilon)
 
 qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2f &in)
 {
-    if (!texture) {
+    if (!texture || !texture->width || !texture->height) {
         return in; // can't do anything without knowing the texture size.
     }
 
-    int fullWidthOffsets = static_cast<int>(in[0]) / texture->width;
-    int fullHeightOffsets = static_cast<int>(in[1]) / texture->height;
+    // the size is unsigned
+    const int width = static_cast<int>(texture->width);
+    const int height = static_cast<int>(texture->height);
 
-    qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * texture->width),
-        in[1] - static_cast<float>(fullHeightOffsets * texture->height));
+    int fullWidthOffsets = static_cast<int>(in[0]) / width;
+    int fullHeightOffsets = static_cast<int>(in[1]) / height;
+
+    qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * width),
+        in[1] - static_cast<float>(fullHeightOffsets * height));
     return result;
 }
 
-- 
2.43.0


From dcd85cf97810b98eec304e403874160feb97a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 37/63] fix: read QuArK texture marks behind Quake 2 surface
 info

---
 qbsp/map.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index d73c334..74631e9 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -896,14 +896,20 @@ static quark_tx_info_t ParseExtendedTX(parser_t &parser)
 {
     quark_tx_info_t result;
 
-    if (parser.parse_token(PARSE_COMMENT | PARSE_OPTIONAL)) {
+    auto parse_quark_comment = [&]() {
+        if (!parser.parse_token(PARSE_COMMENT | PARSE_OPTIONAL)) {
+            return false;
+        }
         if (!strncmp(parser.token.c_str(), "//TX", 4)) {
             if (parser.token[4] == '1')
                 result.quark_tx1 = true;
             else if (parser.token[4] == '2')
                 result.quark_tx2 = true;
         }
-    } else {
+        return true;
+    };
+
+    if (!parse_quark_comment()) {
         // Parse extra Quake 2 surface info
         if (parser.parse_token(PARSE_OPTIONAL)) {
             uint32_t native = std::stoul(parser.token);
@@ -915,6 +921,8 @@ static quark_tx_info_t ParseExtendedTX(parser_t &parser)
             if (parser.parse_token(PARSE_OPTIONAL)) {
                 result.info->value = std::stoi(parser.token);
             }
+
+            parse_quark_comment();
         }
     }
 
-- 
2.43.0


From 6d1a97b9a742e3a6e10050b5fe4db205df143b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:30 +0000
Subject: [PATCH 38/63] fix: -scale moves rotating entities and their origins,
 keeps bevels and fits the world extent

---
 qbsp/map.cc | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 74631e9..9e07391 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3319,22 +3319,23 @@ void ProcessMapBrushes()
 
             // apply global scale
             if (qbsp_options.scale.value() != 1.0) {
-                // scale brushes
+                // scale brushes; their planes, as bevels have no plane points
+                // and the plane points are not moved to the entity's origin
                 for (auto &brush : entity.mapbrushes) {
                     for (auto &f : brush.faces) {
-                        ScaleMapFace(f, qvec3d(qbsp_options.scale.value()));
-                    }
-                    CalculateBrushBounds(brush);
-                }
-
-                // scale point entity origin
-                if (entity.epairs.find("origin") != entity.epairs.end()) {
-                    qvec3f origin;
-                    if (entity.epairs.get_vector("origin", origin) == 3) {
-                        origin *= qbsp_options.scale.value();
+                        texvecf vecs = f.get_texvecs();
+                        for (int i = 0; i < 2; i++) {
+                            for (int j = 0; j < 3; j++) {
+                                vecs.at(i, j) /= qbsp_options.scale.value();
+                            }
+                        }
+                        f.set_texvecs(vecs);
 
-                        entity.epairs.set("origin", qv::to_string(origin));
+                        qplane3d plane = f.get_plane();
+                        plane.dist *= qbsp_options.scale.value();
+                        f.planenum = map.add_or_find_plane(plane);
                     }
+                    CalculateBrushBounds(brush);
                 }
             }
 
@@ -3350,6 +3351,22 @@ void ProcessMapBrushes()
         clock.print();
     }
 
+    // scale entity origins, once no entity needs to look up another's unscaled origin
+    if (qbsp_options.scale.value() != 1.0) {
+        for (auto &entity : map.entities) {
+            entity.origin *= static_cast<double>(qbsp_options.scale.value());
+
+            if (entity.epairs.find("origin") != entity.epairs.end()) {
+                qvec3f origin;
+                if (entity.epairs.get_vector("origin", origin) == 3) {
+                    origin *= qbsp_options.scale.value();
+
+                    entity.epairs.set("origin", qv::to_string(origin));
+                }
+            }
+        }
+    }
+
     logging::print(logging::flag::STAT, "\n");
 
     // remove ents in region
@@ -3824,6 +3841,9 @@ void CalculateWorldExtent(void)
         });
     });
 
+    // the brushes are scaled later
+    extents = extents * std::max(1.0f, qbsp_options.scale.value());
+
     double hull_extents = 0;
 
     for (auto &hull : qbsp_options.target_game->get_hull_sizes()) {
-- 
2.43.0


From 7682a5f63c86e9086b28add9935d24507e2883cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 39/63] fix: light: store the fallback lightmap of -lmshift at
 its own offset

---
 light/write.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index 6d5c83e..c7d6fff 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1068,7 +1068,10 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
                 }
             } else {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                // the fallback lightmap has a space of its own
+                lightmap_intermediate_data_t vanilla_data = intermediate_data[i];
+                vanilla_data.lightofs = vanilla_data.vanilla_lightofs;
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, vanilla_data);
                 SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             }
         });
-- 
2.43.0


From 06800bc0df881d582acd15e09576fe4c233ec6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 40/63] fix: light: take over the lightmap offset after it has
 been set

---
 light/write.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index c7d6fff..32c00b3 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1057,12 +1057,12 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (faces_sup.empty()) {
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
-- 
2.43.0


From a1080e73d985bef845eec31fc6f37aac8197208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:59 +0000
Subject: [PATCH 41/63] fix: light: test sample points against the face's own
 model in its own space

---
 light/ltface.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index b7fc218..2b42442 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -300,10 +300,11 @@ static void CalcPoints_Debug(const lightsurf_t *surf, const mbsp_t *bsp)
 /// This is used for marking sample points as occluded.
 static bool Light_PointInAnySolid(const mbsp_t *bsp, const dmodelh2_t *self, const qvec3f &point)
 {
-    if (Light_PointInSolid(bsp, self, point))
+    auto *self_modelinfo = ModelInfoForModel(bsp, self - bsp->dmodels.data());
+
+    if (Light_PointInSolid(bsp, self, point - self_modelinfo->offset))
         return true;
 
-    auto *self_modelinfo = ModelInfoForModel(bsp, self - bsp->dmodels.data());
     if (self_modelinfo->object_channel_mask.value() == CHANNEL_MASK_DEFAULT) {
         if (Light_PointInWorld(bsp, point))
             return true;
-- 
2.43.0


From 142c8716018ce0ec33197ad8bff2e1c0957e6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:00 +0000
Subject: [PATCH 42/63] fix: light: honour LMSHIFT scales larger than the
 default

---
 light/ltface.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index 2b42442..c73b778 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -586,9 +586,8 @@ static lightsurf_t Lightsurf_Init(const modelinfo_t *modelinfo, const settings::
          */
         lightsurf.twosided = Face_IsTranslucent(bsp, face);
 
-        // pick the larger of the two scales
-        lightsurf.lightmapscale =
-            (facesup && facesup->lmscale < modelinfo->lightmapscale) ? facesup->lmscale : modelinfo->lightmapscale;
+        // the scale of the LMSHIFT lump, if there is one: readers of the lump rely on it
+        lightsurf.lightmapscale = facesup ? facesup->lmscale : modelinfo->lightmapscale;
 
         const surfflags_t &extended_flags = extended_texinfo_flags[face->texinfo];
         lightsurf.curved = extended_flags.phong_angle != 0 || Q2_FacePhongValue(bsp, face);
-- 
2.43.0


From 4203cf9d7c95381aa14437c5328bd618e0e710d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 43/63] fix: light: write each luxel from its own sample,
 whatever the lightmap's size

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 32c00b3..2c5d7f9 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -408,8 +408,8 @@ static void WriteSingleLightmap(const mbsp_t *bsp, const mface_t *face, const li
 
     for (int t = 0; t < output_height; t++) {
         for (int s = 0; s < output_width; s++) {
-            const int input_sample_s = (s / (float)output_width) * actual_width;
-            const int input_sample_t = (t / (float)output_height) * actual_height;
+            const int input_sample_s = (s * actual_width) / output_width;
+            const int input_sample_t = (t * actual_height) / output_height;
             const int sampleindex = (input_sample_t * actual_width) + input_sample_s;
 
             if (lit || out) {
-- 
2.43.0


From 7192c42333d7a269f28592c2a143ece41bd772d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 44/63] fix: light: local minlight respects the lighting
 channels

---
 light/ltface.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index c73b778..b456c26 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -1712,6 +1712,11 @@ static void LightFace_LocalMin(
             continue;
         }
 
+        // check lighting channels
+        if (!(entity->light_channel_mask.value() & lightsurf->object_channel_mask)) {
+            continue;
+        }
+
         raystream_occlusion_t &rs = occlusion_stream;
         rs.clearPushedRays();
 
@@ -1735,7 +1740,7 @@ static void LightFace_LocalMin(
         }
 
         // local minlight just needs occlusion, not closest hit
-        rs.tracePushedRaysOcclusion(modelinfo, CHANNEL_MASK_DEFAULT);
+        rs.tracePushedRaysOcclusion(modelinfo, entity->shadow_channel_mask.value());
 #if 0
         total_light_rays += rs.numPushedRays();
 #endif
-- 
2.43.0


From ccf03a33e31f6a9dd409da3f8844e203907c440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:57 +0000
Subject: [PATCH 45/63] fix: light: the mangle of a _sun entity is yaw pitch
 roll, as documented

---
 light/entities.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/entities.cc b/light/entities.cc
index 66201da..a629168 100644
--- a/light/entities.cc
+++ b/light/entities.cc
@@ -474,7 +474,7 @@ static void SetupSuns(const settings::worldspawn_keys &cfg)
                 entity->targetent->get_vector("origin", target_pos);
                 sunvec = target_pos - entity->origin.value();
             } else if (qv::length2(entity->mangle.value()) > 0) {
-                sunvec = entity->mangle.value();
+                sunvec = qv::vec_from_mangle(entity->mangle.value());
             } else { // Use { 0, 0, 0 } as sun target...
                 logging::print("WARNING: sun missing target, entity origin used.\n");
                 sunvec = -entity->origin.value();
-- 
2.43.0


From d16454ba36b62f04d61bb0ed1587e017db636791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:42 +0000
Subject: [PATCH 46/63] fix: light: the fallback lightmap of
 -world_units_per_luxel has grey and directions too

---
 light/write.cc | 66 +++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 2c5d7f9..05d063b 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -365,6 +365,25 @@ static std::vector<qvec4f> BoxBlurImage(const std::vector<qvec4f> &input, int w,
     return res;
 }
 
+// writes a light direction in the face's tangent space, and advances lux
+static void WriteLuxSample(const lightsurf_t *lightsurf, const qvec3f &direction, uint8_t *&lux)
+{
+    qvec3f temp = {qv::dot(direction, lightsurf->snormal), qv::dot(direction, lightsurf->tnormal),
+        qv::dot(direction, lightsurf->plane.normal)};
+
+    if (qv::emptyExact(temp))
+        temp = {0, 0, 1};
+    else
+        qv::normalizeInPlace(temp);
+
+    int v = (temp[0] + 1) * 128;
+    *lux++ = (v > 255) ? 255 : v;
+    v = (temp[1] + 1) * 128;
+    *lux++ = (v > 255) ? 255 : v;
+    v = (temp[2] + 1) * 128;
+    *lux++ = (v > 255) ? 255 : v;
+}
+
 /**
  * - Writes (actual_width * actual_height) bytes to `out`
  * - Writes (actual_width * actual_height * 3) bytes to `lit`
@@ -439,21 +458,7 @@ static void WriteSingleLightmap(const mbsp_t *bsp, const mface_t *face, const li
             }
 
             if (lux) {
-                qvec3f direction = output_dir->at(sampleindex).xyz();
-                qvec3f temp = {qv::dot(direction, lightsurf->snormal), qv::dot(direction, lightsurf->tnormal),
-                    qv::dot(direction, lightsurf->plane.normal)};
-
-                if (qv::emptyExact(temp))
-                    temp = {0, 0, 1};
-                else
-                    qv::normalizeInPlace(temp);
-
-                int v = (temp[0] + 1) * 128;
-                *lux++ = (v > 255) ? 255 : v;
-                v = (temp[1] + 1) * 128;
-                *lux++ = (v > 255) ? 255 : v;
-                v = (temp[2] + 1) * 128;
-                *lux++ = (v > 255) ? 255 : v;
+                WriteLuxSample(lightsurf, output_dir->at(sampleindex).xyz(), lux);
             }
         }
     }
@@ -474,16 +479,21 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
     const qmat4x4f vanillaLMToDecoupled =
         lightsurf->extents.worldToLMMatrix * lightsurf->vanilla_extents.lmToWorldMatrix;
 
+    std::vector<qvec4f> fullres_dir;
+    if (lux) {
+        fullres_dir = LightmapNormalsToGLMVector(lightsurf, lm);
+    }
+
     // samples the "decoupled" lightmap at an integer coordinate, with clamping
-    auto tex = [&lightsurf, &fullres](int x, int y) -> qvec4f {
+    auto tex = [&lightsurf](const std::vector<qvec4f> &image, int x, int y) -> qvec4f {
         const int x_clamped = std::clamp(x, 0, lightsurf->width - 1);
         const int y_clamped = std::clamp(y, 0, lightsurf->height - 1);
 
         const int sampleindex = (y_clamped * lightsurf->width) + x_clamped;
         assert(sampleindex >= 0);
-        assert(sampleindex < fullres.size());
+        assert(sampleindex < image.size());
 
-        return fullres[sampleindex];
+        return image[sampleindex];
     };
 
     for (int t = 0; t < output_height; t++) {
@@ -501,12 +511,17 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
             const float coord_frac_y = decoupled_lm_coord[1] - coord_floor_y;
 
             // 2D bilinear interpolation
-            const qvec4f color =
-                mix(mix(tex(coord_floor_x, coord_floor_y), tex(coord_floor_x + 1, coord_floor_y), coord_frac_x),
-                    mix(tex(coord_floor_x, coord_floor_y + 1), tex(coord_floor_x + 1, coord_floor_y + 1), coord_frac_x),
+            auto bilinear = [&](const std::vector<qvec4f> &image) -> qvec4f {
+                return mix(mix(tex(image, coord_floor_x, coord_floor_y), tex(image, coord_floor_x + 1, coord_floor_y),
+                               coord_frac_x),
+                    mix(tex(image, coord_floor_x, coord_floor_y + 1), tex(image, coord_floor_x + 1, coord_floor_y + 1),
+                        coord_frac_x),
                     coord_frac_y);
+            };
 
             if (lit || out) {
+                const qvec4f color = bilinear(fullres);
+
                 if (lit) {
                     *lit++ = color[0];
                     *lit++ = color[1];
@@ -514,16 +529,13 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
                 }
 
                 if (out) {
-                    // FIXME: implement
-                    *out++ = 0;
+                    // as in WriteSingleLightmap
+                    *out++ = std::clamp(std::max({color[0], color[1], color[2]}), 0.0f, 255.0f);
                 }
             }
 
             if (lux) {
-                // FIXME: implement
-                *lux++ = 0;
-                *lux++ = 0;
-                *lux++ = 0;
+                WriteLuxSample(lightsurf, bilinear(fullres_dir).xyz(), lux);
             }
         }
     }
-- 
2.43.0


From 6f3cb386e436778d0c700890c953e209075cd6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:50 +0000
Subject: [PATCH 47/63] fix: light: interpolate the fallback of decoupled
 lightmaps, never extrapolate

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 05d063b..f99d8da 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -504,8 +504,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
             decoupled_lm_coord = decoupled_lm_coord * light_options.extra.value();
 
             // split into integer/fractional part for bilinear interpolation
-            const int coord_floor_x = (int)decoupled_lm_coord[0];
-            const int coord_floor_y = (int)decoupled_lm_coord[1];
+            const int coord_floor_x = (int)std::floor(decoupled_lm_coord[0]);
+            const int coord_floor_y = (int)std::floor(decoupled_lm_coord[1]);
 
             const float coord_frac_x = decoupled_lm_coord[0] - coord_floor_x;
             const float coord_frac_y = decoupled_lm_coord[1] - coord_floor_y;
-- 
2.43.0


From e06a7d3cebcee24aae2386d076dadd43352e9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:57 +0000
Subject: [PATCH 48/63] fix: light: -facestyles applies where -lmshift keeps a
 fallback lightmap too

---
 light/write.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index f99d8da..28eb81d 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1029,8 +1029,9 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                 num_styles = CalculateLightmapStyles(bsp, f, &faces_sup[i], &surf, surf.extents, lightmap_size, intermediate_data[i]);
             } else {
-                num_styles = CalculateLightmapStyles(bsp, f, nullptr, &surf, surf.extents, lightmap_size, intermediate_data[i]);
-                intermediate_data[i].vanilla_lightofs = GetFileSpace(lightmap_size, surf.vanilla_extents.numsamples() * num_styles);
+                num_styles = CalculateLightmapStyles(bsp, f, &faces_sup[i], &surf, surf.extents, lightmap_size, intermediate_data[i]);
+                // the fallback lightmap has no room for more than MAXLIGHTMAPS styles
+                intermediate_data[i].vanilla_lightofs = GetFileSpace(lightmap_size, surf.vanilla_extents.numsamples() * std::min<size_t>(num_styles, MAXLIGHTMAPS));
             }
             
             if (num_styles) {
@@ -1083,6 +1084,9 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
                 // the fallback lightmap has a space of its own
                 lightmap_intermediate_data_t vanilla_data = intermediate_data[i];
                 vanilla_data.lightofs = vanilla_data.vanilla_lightofs;
+                if (vanilla_data.sorted.size() > MAXLIGHTMAPS) {
+                    vanilla_data.sorted.resize(MAXLIGHTMAPS);
+                }
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, vanilla_data);
                 SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             }
-- 
2.43.0


From 9a2508c064558dda049101aae76f8d18ad072389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:41 +0000
Subject: [PATCH 49/63] fix: light: reset every lightmap of a map that was lit
 before

---
 light/light.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index 74d1411..32e1713 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -627,15 +627,15 @@ static void CreateLightmapSurfaces(mbsp_t *bsp)
                 for (size_t i = 0; i < MAXLIGHTMAPSSUP; i++) {
                     facesup->styles[i] = INVALID_LIGHTSTYLE;
                 }
-            } else {
-                face->lightofs = -1;
-                for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
-                    face->styles[i] = INVALID_LIGHTSTYLE_OLD;
-                }
+            }
 
-                if (facesup_decoupled) {
-                    facesup_decoupled->offset = -1;
-                }
+            face->lightofs = -1;
+            for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
+                face->styles[i] = INVALID_LIGHTSTYLE_OLD;
+            }
+
+            if (facesup_decoupled) {
+                facesup_decoupled->offset = -1;
             }
         }
 
-- 
2.43.0


From 3ddb30ea1a304b01abaabb957feac9b0c63179e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 50/63] fix: light: -world_units_per_luxel leaves no LMSHIFT
 without lightmaps behind

---
 light/light.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/light/light.cc b/light/light.cc
index 32e1713..8579396 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -776,6 +776,10 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
     facesup_decoupled_global.clear();
     if (light_options.world_units_per_luxel.is_changed()) {
         facesup_decoupled_global.resize(bsp.dfaces.size());
+
+        // these replace the scales of LMSHIFT: its lightmaps are not written
+        bspdata->bspx.entries.erase("LMSHIFT");
+        faces_sup.clear();
     }
 
     CalculateVertexNormals(&bsp);
-- 
2.43.0


From eb63b7ecf4ae07aefd4d74e5aa3069b504210625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:59 +0000
Subject: [PATCH 51/63] fix: light: -lit2 writes the luxels it computed,
 whatever the map held before

---
 light/write.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 28eb81d..15fb496 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -57,7 +57,7 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
 
     header.v1.version = version;
     header.v2.numsurfs = bsp->dfaces.size();
-    header.v2.lmsamples = bsp->dlightdata.size();
+    header.v2.lmsamples = lit_filebase.size() / 3;
 
     logging::print("Writing {}\n", litname);
     std::ofstream litfile(litname, std::ios_base::out | std::ios_base::binary);
@@ -78,8 +78,8 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
                 j++;
             litfile <= (uint8_t)j;
         }
-        litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
-        litfile.write((const char *)lux_filebase.data(), bsp->dlightdata.size() * 3);
+        litfile.write((const char *)lit_filebase.data(), lit_filebase.size());
+        litfile.write((const char *)lux_filebase.data(), lux_filebase.size());
     } else
         litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
 }
@@ -1048,7 +1048,8 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             lit_filebase.resize(lightmap_size * 3);
         }
 
-        if (light_options.write_luxfile) {
+        // a .lit2 holds the directions too
+        if (light_options.write_luxfile || light_options.write_litfile == lightfile::lit2) {
             lux_filebase.resize(lightmap_size * 3);
         }
 
-- 
2.43.0


From 63f21b5738f0a86d95adc357d85a841fbbea4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:40 +0000
Subject: [PATCH 52/63] fix: light: -litonly follows the LMSHIFT layout of the
 map

---
 light/light.cc |  4 ++-
 light/write.cc | 67 +++++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index 8579396..f3fdae2 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -738,7 +738,9 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
 
     ClearLightmapSurfaces();
 
-    if (forcedscale) {
+    if (light_options.litonly.value()) {
+        // the layout of the lightmaps is as the bsp has it
+    } else if (forcedscale) {
         bspdata->bspx.entries.erase("LMSHIFT");
     } else if (light_options.lmshift.is_changed()) {
         // if we forcefully specified an lmshift lump, we have to generate one.
diff --git a/light/write.cc b/light/write.cc
index 15fb496..65a647a 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -619,8 +619,8 @@ static float Lightmap_MaxBrightness(const lightmap_t *lm, const lightsurf_t *lig
     return maxb;
 }
 
-static void SaveLitOnlyLightmapSurface(const mbsp_t *bsp, mface_t *face,
-    lightsurf_t *lightsurf, const faceextents_t &extents,
+static void SaveLitOnlyLightmapSurface(const mbsp_t *bsp, mface_t *face, int32_t lightofs,
+    const std::vector<int> &styles, lightsurf_t *lightsurf, const faceextents_t &extents,
     const faceextents_t &output_extents, std::vector<uint8_t> &filebase, std::vector<uint8_t> &lit_filebase, std::vector<uint8_t> &lux_filebase)
 {
     lightmapdict_t &lightmaps = lightsurf->lightmapsByStyle;
@@ -632,36 +632,30 @@ static void SaveLitOnlyLightmapSurface(const mbsp_t *bsp, mface_t *face,
     // involves looking at which styles were written to the bsp in the previous lighting run, and then
     // writing the same styles to the same offsets in the .lit file.
 
-    if (face->lightofs == -1) {
+    if (lightofs == -1) {
         // nothing to write for this face
         return;
     }
 
     uint8_t *out = nullptr, *lit = nullptr, *lux = nullptr;
 
-    Q_assert(face->lightofs >= 0);
+    Q_assert(lightofs >= 0);
 
     if (!filebase.empty()) {
-        out = filebase.data() + face->lightofs;
+        out = filebase.data() + lightofs;
     }
 
     if (!lit_filebase.empty()) {
-        lit = lit_filebase.data() + (face->lightofs * 3);
+        lit = lit_filebase.data() + (lightofs * 3);
     }
 
     if (!lux_filebase.empty()) {
-        lux = lux_filebase.data() + (face->lightofs * 3);
+        lux = lux_filebase.data() + (lightofs * 3);
     }
 
     // NOTE: file_p et. al. are not updated, since we're not dynamically allocating the lightmaps
 
-    for (int mapnum = 0; mapnum < MAXLIGHTMAPS; mapnum++) {
-        const int style = face->styles[mapnum];
-
-        if (style == 255) {
-            break; // all done for this face
-        }
-
+    for (int style : styles) {
         // see if we have computed lighting for this style
         for (const lightmap_t &lm : lightmaps) {
             if (lm.style == style) {
@@ -984,6 +978,15 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             lux_filebase.resize(filebase.size() * 3);
         }
         
+        // where the lightmaps at the scales of LMSHIFT are, and the styles they have
+        auto find_lump = [&](const char *name) -> const std::vector<uint8_t> * {
+            auto it = bspdata->bspx.entries.find(name);
+            return it == bspdata->bspx.entries.end() ? nullptr : &it->second;
+        };
+        const auto *lmoffset = find_lump("LMOFFSET");
+        const auto *lmstyle = find_lump("LMSTYLE");
+        const auto *lmstyle16 = find_lump("LMSTYLE16");
+
         logging::parallel_for(static_cast<size_t>(0), bsp->dfaces.size(), [&](size_t i) {
             auto &surf = LightSurfaces()[i];
 
@@ -995,7 +998,41 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
 
             auto f = &bsp->dfaces[i];
 
-            SaveLitOnlyLightmapSurface(bsp, f, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase);
+            std::vector<int> styles;
+            for (int mapnum = 0; mapnum < MAXLIGHTMAPS && f->styles[mapnum] != INVALID_LIGHTSTYLE_OLD; mapnum++) {
+                styles.push_back(f->styles[mapnum]);
+            }
+
+            int32_t sup_lightofs = f->lightofs;
+            std::vector<int> sup_styles = styles;
+
+            if (lmoffset && lmoffset->size() >= (i + 1) * 4) {
+                const uint8_t *p = lmoffset->data() + i * 4;
+                sup_lightofs = static_cast<int32_t>(p[0] | (p[1] << 8) | (p[2] << 16) | (uint32_t(p[3]) << 24));
+            }
+            if (lmstyle16) {
+                const size_t perface = lmstyle16->size() / 2 / bsp->dfaces.size();
+                const uint8_t *p = lmstyle16->data() + i * perface * 2;
+                sup_styles.clear();
+                for (size_t j = 0; j < perface && (p[j * 2] | (p[j * 2 + 1] << 8)) != INVALID_LIGHTSTYLE; j++) {
+                    sup_styles.push_back(p[j * 2] | (p[j * 2 + 1] << 8));
+                }
+            } else if (lmstyle) {
+                const size_t perface = lmstyle->size() / bsp->dfaces.size();
+                const uint8_t *p = lmstyle->data() + i * perface;
+                sup_styles.clear();
+                for (size_t j = 0; j < perface && p[j] != INVALID_LIGHTSTYLE_OLD; j++) {
+                    sup_styles.push_back(p[j]);
+                }
+            }
+
+            SaveLitOnlyLightmapSurface(bsp, f, sup_lightofs, sup_styles, &surf, surf.extents, surf.extents, filebase,
+                lit_filebase, lux_filebase);
+            if (f->lightofs != sup_lightofs) {
+                // the fallback lightmap
+                SaveLitOnlyLightmapSurface(bsp, f, f->lightofs, styles, &surf, surf.extents, surf.vanilla_extents,
+                    filebase, lit_filebase, lux_filebase);
+            }
         });
     } else {
         std::atomic_size_t lightmap_size = 0;
-- 
2.43.0


From 330cd50aede8a7afb5d31c808bbd20f7a82d13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:21 +0000
Subject: [PATCH 53/63] fix: light: don't lose the flag that there is light to
 bounce in a race

---
 light/bounce.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/light/bounce.cc b/light/bounce.cc
index 124c31d..b6c4f51 100644
--- a/light/bounce.cc
+++ b/light/bounce.cc
@@ -227,7 +227,11 @@ bool MakeBounceLights(const settings::worldspawn_keys &cfg, const mbsp_t *bsp, s
 
     std::atomic_bool any_to_bounce = false;
 
-    logging::parallel_for_each(bsp->dfaces, [&](const mface_t &face) { any_to_bounce = MakeBounceLightsThread(cfg, bsp, face, depth) || any_to_bounce; });
+    logging::parallel_for_each(bsp->dfaces, [&](const mface_t &face) {
+        // several threads get here: only ever set the flag
+        if (MakeBounceLightsThread(cfg, bsp, face, depth))
+            any_to_bounce = true;
+    });
 
     return any_to_bounce.load();
 }
-- 
2.43.0


From 5e14caa21aa090c82556399ef46ee4ce5060bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 54/63] fix: decompile: liquids only get textures of the same
 liquid

---
 common/decompile.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/common/decompile.cc b/common/decompile.cc
index 2d3bdb2..8a8f5f5 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -353,6 +353,30 @@ struct leaf_decompile_task
 static std::vector<decomp_brush_face_t> BuildDecompFacesOnPlane(
     const mbsp_t *bsp, const leaf_decompile_task &task, const decomp_plane_t &plane)
 {
+/**
+ * In Quake the texture decides about the contents: liquids must only get textures of the same liquid.
+ */
+static bool FaceSuitsLeaf(const mbsp_t *bsp, const mface_t *face, const mleaf_t &leaf)
+{
+    const gamedef_t *game = bsp->loadversion->game;
+    const char *name = Face_TextureName(bsp, face);
+
+    if (game->id == GAME_QUAKE_II || !name) {
+        return true;
+    }
+
+    const contentflags_t of_leaf = game->create_contents_from_native(leaf.contents);
+    const contentflags_t of_face = game->face_get_contents(name, {}, {});
+    // brush models are solid whatever their texture
+    const bool world = static_cast<size_t>(face - bsp->dfaces.data()) < static_cast<size_t>(bsp->dmodels[0].numfaces);
+
+    if (!of_leaf.is_liquid(game) && !(world && of_face.is_liquid(game))) {
+        return true;
+    }
+
+    return game->contents_to_native(of_face) == leaf.contents;
+}
+
     if (plane.node == nullptr) {
         return {};
     }
@@ -380,6 +404,11 @@ static std::vector<decomp_brush_face_t> BuildDecompFacesOnPlane(
     return result;
 }
 
+        // liquids have faces for both directions, so this may be the inner side of another liquid's surface
+        if (task.leaf && !FaceSuitsLeaf(bsp, face, *task.leaf)) {
+            continue;
+        }
+
 struct decomp_brush_side_t
 {
     /**
-- 
2.43.0


From e38d10c5e3cda0b809884fc2dbaba113a5b1faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 55/63] fix: decompile: brushes without contents stay without
 in every mode

---
 common/decompile.cc | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 8a8f5f5..085b9a7 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -557,6 +557,21 @@ static const char *DefaultTriggerTexture(const mbsp_t *bsp)
         return "e1u1/trigger";
     } else {
         return "trigger";
+// brushes and leafs without contents: these must not become solid
+static bool IsHint(const mbsp_t *bsp, const contentflags_t &contents)
+{
+    return bsp->loadversion->game->contents_to_native(contents) == 0;
+}
+
+static void DefaultHintSide(compiled_brush_side_t &side, const mbsp_t *bsp)
+{
+    side.texture_name = "e1u1/hint";
+
+    if (bsp->loadversion->game->id == GAME_QUAKE_II) {
+        side.flags = {Q2_SURF_HINT};
+    }
+}
+
     }
 }
 
@@ -852,7 +867,11 @@ static std::vector<compiled_brush_t> DecompileLeafTaskGeometryOnly(
         compiled_brush_side_t &side = brush.sides.emplace_back();
         side.source = plane.source;
         side.plane = plane;
-        DefaultSkipSide(side, bsp);
+        if (IsHint(bsp, brush.contents)) {
+            DefaultHintSide(side, bsp);
+        } else {
+            DefaultSkipSide(side, bsp);
+        }
         side.valve = plane.normal;
     }
 
@@ -912,14 +931,8 @@ static std::vector<compiled_brush_t> DecompileLeafTask(
             side.winding = std::move(finalSide.winding);
             side.source = finalSide.plane.source;
 
-            if (bsp->loadversion->game->contents_to_native(brush.contents) == 0) {
-                // hint brush
-                side.texture_name = "e1u1/hint";
-
-                if (bsp->loadversion->game->id == GAME_QUAKE_II) {
-                    side.flags = {Q2_SURF_HINT};
-                }
-
+            if (IsHint(bsp, brush.contents)) {
+                DefaultHintSide(side, bsp);
                 side.valve = finalSide.plane.normal;
                 continue;
             }
@@ -1308,6 +1321,9 @@ static void DecompileEntity(
     // If we run into a trigger brush, replace all of its faces with trigger texture.
     if (modelNum > 0 && dict.find("classname")->second.compare(0, 8, "trigger_") == 0) {
         for (auto &brushlist : compiledBrushes) {
+                if (IsHint(bsp, brush.contents)) {
+                    continue;
+                }
             for (auto &brush : brushlist) {
                 for (auto &side : brush.sides) {
                     DefaultTriggerSide(side, bsp);
-- 
2.43.0


From 18f639768dd58676eff0e27ea792ded6496839d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 56/63] fix: decompile: keep the texture alignment of scaled
 textures under an origin brush

---
 common/decompile.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 085b9a7..b9a8580 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -172,8 +172,12 @@ struct compiled_brush_t
                     v += brush_offset.value();
                 }
 
-                side.valve.shift[0] -= qv::dot(brush_offset.value(), side.valve.axis.row(0));
-                side.valve.shift[1] -= qv::dot(brush_offset.value(), side.valve.axis.row(1));
+                for (int i = 0; i < 2; i++) {
+                    if (side.valve.scale[i] != 0.0) {
+                        side.valve.shift[i] -=
+                            qv::dot(brush_offset.value(), side.valve.axis.row(i)) / side.valve.scale[i];
+                    }
+                }
             }
 
 #if 0
-- 
2.43.0


From 366251bc0e32c8a6e302b83559e7a0ec20f12847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 57/63] fix: decompile: write the surface info unless the
 texture file says exactly the same

---
 common/decompile.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index b9a8580..f75c400 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -212,9 +212,10 @@ struct compiled_brush_t
                     }
                 }
 
-                if (!meta || !((meta->contents & ~(Q2_CONTENTS_SOLID | Q2_CONTENTS_WINDOW)) ==
-                                     (native & ~(Q2_CONTENTS_SOLID | Q2_CONTENTS_WINDOW)) &&
-                                 meta->flags == side.flags.native && meta->value == side.value)) {
+                // a texture without contents makes a solid brush
+                const int meta_contents = meta ? (meta->contents ? meta->contents : Q2_CONTENTS_SOLID) : 0;
+
+                if (!meta || !(meta_contents == native && meta->flags == side.flags.native && meta->value == side.value)) {
                     ewt::print(stream, " {} {} {}", native, side.flags.native, side.value);
                 }
             }
-- 
2.43.0


From e83f02a9bbd4ddabde85663e2d861cc7583236d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 58/63] fix: decompile: write brushes in the order of the lump

---
 common/decompile.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index f75c400..37525ee 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -31,6 +31,7 @@
 #include <common/ostream.hh>
 
 #include <fstream>
+#include <map>
 #include <vector>
 #include <cstdio>
 #include <string>
@@ -1246,7 +1247,8 @@ static void DecompileEntity(
                 compiledBrushes[i] = DecompileLeafTaskGeometryOnly(bsp, tasks[i], brush_offset);
             });
         } else if (bsp->loadversion->game->id == GAME_QUAKE_II && !options.ignoreBrushes) {
-            std::unordered_map<const dbrush_t *, leaf_decompile_task> brushes;
+            // in the order of the lump: where brushes overlap, the order matters
+            std::map<const dbrush_t *, leaf_decompile_task> brushes;
 
             auto handle_leaf = [&brushes, bsp, model](const mleaf_t *leaf) {
                 for (size_t i = 0; i < leaf->numleafbrushes; i++) {
-- 
2.43.0


From 7f2765107da0ff7ff69fc0f7b29a3d674ef403e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:34 +0000
Subject: [PATCH 59/63] fix: decompile: entities without classname or with
 malformed origin and style

---
 common/decompile.cc | 58 +++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 37525ee..b9ce0d8 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -353,12 +353,6 @@ struct leaf_decompile_task
     std::optional<int32_t> contents = std::nullopt; // for clipnodes
 };
 
-/**
- * Builds the initial list of faces on the node
- */
-static std::vector<decomp_brush_face_t> BuildDecompFacesOnPlane(
-    const mbsp_t *bsp, const leaf_decompile_task &task, const decomp_plane_t &plane)
-{
 /**
  * In Quake the texture decides about the contents: liquids must only get textures of the same liquid.
  */
@@ -383,6 +377,12 @@ static bool FaceSuitsLeaf(const mbsp_t *bsp, const mface_t *face, const mleaf_t
     return game->contents_to_native(of_face) == leaf.contents;
 }
 
+/**
+ * Builds the initial list of faces on the node
+ */
+static std::vector<decomp_brush_face_t> BuildDecompFacesOnPlane(
+    const mbsp_t *bsp, const leaf_decompile_task &task, const decomp_plane_t &plane)
+{
     if (plane.node == nullptr) {
         return {};
     }
@@ -404,17 +404,17 @@ static bool FaceSuitsLeaf(const mbsp_t *bsp, const mface_t *face, const mleaf_t
             continue;
         }
 
+        // liquids have faces for both directions, so this may be the inner side of another liquid's surface
+        if (task.leaf && !FaceSuitsLeaf(bsp, face, *task.leaf)) {
+            continue;
+        }
+
         result.emplace_back(bsp, face);
     }
 
     return result;
 }
 
-        // liquids have faces for both directions, so this may be the inner side of another liquid's surface
-        if (task.leaf && !FaceSuitsLeaf(bsp, face, *task.leaf)) {
-            continue;
-        }
-
 struct decomp_brush_side_t
 {
     /**
@@ -557,12 +557,6 @@ static void DefaultSkipSide(compiled_brush_side_t &side, const mbsp_t *bsp)
     }
 }
 
-static const char *DefaultTriggerTexture(const mbsp_t *bsp)
-{
-    if (bsp->loadversion->game->id == GAME_QUAKE_II) {
-        return "e1u1/trigger";
-    } else {
-        return "trigger";
 // brushes and leafs without contents: these must not become solid
 static bool IsHint(const mbsp_t *bsp, const contentflags_t &contents)
 {
@@ -578,6 +572,12 @@ static void DefaultHintSide(compiled_brush_side_t &side, const mbsp_t *bsp)
     }
 }
 
+static const char *DefaultTriggerTexture(const mbsp_t *bsp)
+{
+    if (bsp->loadversion->game->id == GAME_QUAKE_II) {
+        return "e1u1/trigger";
+    } else {
+        return "trigger";
     }
 }
 
@@ -1152,8 +1152,6 @@ static std::vector<compiled_brush_t> DecompileBrushTask(
     }
 }
 
-#include "common/parser.hh"
-
 static void DecompileEntity(
     const mbsp_t *bsp, const decomp_options &options, std::ofstream &file, const entdict_t &dict, bool isWorld)
 {
@@ -1163,6 +1161,7 @@ static void DecompileEntity(
         modelNum = 0;
     }
 
+    const std::string &classname = dict.get("classname"); // may be missing
     const dbrush_t *areaportal_brush = nullptr;
     std::optional<qvec3d> brush_offset;
 
@@ -1170,10 +1169,10 @@ static void DecompileEntity(
     // brushes were moved to the world, so we have to "reconstruct"
     // the model. We're also assuming that the areaportal brushes are
     // emitted in the same order as the func_areaportal entities.
-    if (dict.find("classname")->second == "func_areaportal") {
+    if (classname == "func_areaportal") {
 
         if (dict.has("style")) {
-            size_t brush_offset = std::stoull(dict.find("style")->second);
+            int brush_offset = dict.get_int("style");
 
             for (auto &brush : bsp->dbrushes) {
                 if (brush.contents & Q2_CONTENTS_AREAPORTAL) {
@@ -1187,7 +1186,7 @@ static void DecompileEntity(
                 }
             }
         }
-    } else if (dict.find("classname")->second == "func_group") {
+    } else if (classname == "func_group") {
         // Some older Q2 maps included func_group in the entity list.
         return;
     }
@@ -1206,15 +1205,8 @@ static void DecompileEntity(
         } else if (areaportal_brush && keyValue.first == "style") {
             continue;
         } else if (modelNum > 0 && keyValue.first == "origin") {
-            auto &value = keyValue.second;
-            parser_t parser(value, {});
-            qvec3d vec;
-            parser.parse_token();
-            vec[0] = stof(parser.token);
-            parser.parse_token();
-            vec[1] = stof(parser.token);
-            parser.parse_token();
-            vec[2] = stof(parser.token);
+            qvec3f vec;
+            dict.get_vector("origin", vec);
             if (!qv::emptyExact(vec)) {
                 brush_offset = vec;
             }
@@ -1326,12 +1318,12 @@ static void DecompileEntity(
     }
 
     // If we run into a trigger brush, replace all of its faces with trigger texture.
-    if (modelNum > 0 && dict.find("classname")->second.compare(0, 8, "trigger_") == 0) {
+    if (modelNum > 0 && classname.compare(0, 8, "trigger_") == 0) {
         for (auto &brushlist : compiledBrushes) {
+            for (auto &brush : brushlist) {
                 if (IsHint(bsp, brush.contents)) {
                     continue;
                 }
-            for (auto &brush : brushlist) {
                 for (auto &side : brush.sides) {
                     DefaultTriggerSide(side, bsp);
                 }
-- 
2.43.0


From 07cb835b9ba0f127749120510060d4a5d5a4d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:35 +0000
Subject: [PATCH 60/63] fix: bsputil: several options in one command, and no
 overwriting with a map that can't be converted

---
 bsputil/bsputil.cc | 122 ++++++++++++++++++++++++---------------------
 1 file changed, 66 insertions(+), 56 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 973266b..2c0519c 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -137,6 +137,19 @@ static void ReplaceTexturesFromWad(mbsp_t &bsp)
     }
 }
 
+// writes the map in the given format. The one in memory stays as it is, for the
+// next operation of the command line.
+static void WriteConvertedBSP(const bspdata_t &bspdata, const fs::path &filename, const bspversion_t *version)
+{
+    bspdata_t converted = bspdata;
+
+    if (!ConvertBSPFormat(&converted, version)) {
+        FError("the map can't be converted to {}", version->short_name);
+    }
+
+    WriteBSPFile(filename, &converted);
+}
+
 static void PrintModelInfo(const mbsp_t *bsp)
 {
     // TODO: remove, bspinfo .json export is more useful
@@ -938,7 +951,7 @@ int bsputil_main(int argc, char **argv)
         } else if (!strcmp(argv[i], "--scale")) {
 
             i++;
-            if (i == argc - 1) {
+            if (i + 2 >= argc - 1) {
                 Error("--scale requires three arguments; x y z");
             }
 
@@ -1173,9 +1186,8 @@ int bsputil_main(int argc, char **argv)
                 }
             }
 
-            ConvertBSPFormat(&bspdata, bspdata.loadversion);
-
-            WriteBSPFile(source.replace_filename(source.stem().string() + "-scaled.bsp"), &bspdata);
+            WriteConvertedBSP(bspdata, fs::path(source).replace_filename(source.stem().string() + "-scaled.bsp"),
+                bspdata.loadversion);
 
         } else if (!strcmp(argv[i], "--replace-entities")) {
             i++;
@@ -1197,9 +1209,7 @@ int bsputil_main(int argc, char **argv)
 
                 bsp.dentdata = std::string(reinterpret_cast<char *>(ent->data()), ent->size());
 
-                ConvertBSPFormat(&bspdata, bspdata.loadversion);
-
-                WriteBSPFile(source, &bspdata);
+                WriteConvertedBSP(bspdata, source, bspdata.loadversion);
             } else {
                 map_file_t ents = LoadMapOrEntFile(argv[i]);
 
@@ -1286,8 +1296,6 @@ int bsputil_main(int argc, char **argv)
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
             CompareBSPFiles(std::get<mbsp_t>(refbspdata.bsp), bsp);
-
-            break;
         } else if (!strcmp(argv[i], "--convert")) {
             i++;
             if (!(i < argc - 1)) {
@@ -1297,7 +1305,7 @@ int bsputil_main(int argc, char **argv)
             const bspversion_t *fmt = nullptr;
 
             for (const bspversion_t *bspver : bspversions) {
-                if (!strcmp(argv[i], bspver->short_name)) {
+                if (bspver != &bspver_generic && !strcmp(argv[i], bspver->short_name)) {
                     fmt = bspver;
                     break;
                 }
@@ -1307,9 +1315,7 @@ int bsputil_main(int argc, char **argv)
                 Error("Unsupported format {}", argv[i]);
             }
 
-            ConvertBSPFormat(&bspdata, fmt);
-
-            WriteBSPFile(source.replace_filename(source.stem().string() + "-" + argv[i]), &bspdata);
+            WriteConvertedBSP(bspdata, fs::path(source).replace_filename(source.stem().string() + "-" + argv[i]), fmt);
 
         } else if (!strcmp(argv[i], "--extract-entities")) {
 
@@ -1317,12 +1323,12 @@ int bsputil_main(int argc, char **argv)
 
             uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size() - 1);
 
-            source.replace_extension(".ent");
-            fmt::print("-> writing {} [CRC: {:04x}]... ", source, crc);
+            fs::path output = fs::path(source).replace_extension(".ent");
+            fmt::print("-> writing {} [CRC: {:04x}]... ", output, crc);
 
-            std::ofstream f(source, std::ios_base::out | std::ios_base::binary);
+            std::ofstream f(output, std::ios_base::out | std::ios_base::binary);
             if (!f)
-                Error("couldn't open {} for writing\n", source);
+                Error("couldn't open {} for writing\n", output);
 
             f << bsp.dentdata;
 
@@ -1336,31 +1342,31 @@ int bsputil_main(int argc, char **argv)
 
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
-            source.replace_extension(".wad");
-            fmt::print("-> writing {}... ", source);
+            fs::path output = fs::path(source).replace_extension(".wad");
+            fmt::print("-> writing {}... ", output);
 
-            std::ofstream f(source, std::ios_base::binary);
+            std::ofstream f(output, std::ios_base::binary);
 
             if (!f)
-                Error("couldn't open {} for writing\n", source);
+                Error("couldn't open {} for writing\n", output);
 
             ExportWad(f, &bsp);
 
             printf("done.\n");
         } else if (!strcmp(argv[i], "--replace-textures")) {
-            if (i + 1 >= argc) {
+            i++;
+            if (!(i < argc - 1)) {
                 Error("--replace-textures requires 1 argument");
             }
 
-            fs::path wad_source = argv[i + 1];
+            fs::path wad_source = argv[i];
 
             if (auto wad = fs::addArchive(wad_source, false)) {
                 logging::print("loaded wad file: {}\n", wad_source);
 
                 mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
                 ReplaceTexturesFromWad(bsp);
-                ConvertBSPFormat(&bspdata, bspdata.loadversion);
-                WriteBSPFile(source, &bspdata);
+                WriteConvertedBSP(bspdata, source, bspdata.loadversion);
             } else {
                 Error("couldn't load .wad file {}\n", wad_source);
             }
@@ -1379,7 +1385,7 @@ int bsputil_main(int argc, char **argv)
             // (i + 1) ... (i + 6) = x y z nx ny nz
             // i + 7 = bsp file
 
-            if (i + 7 >= argc) {
+            if (i + 6 >= argc - 1) {
                 Error("--findfaces requires 6 arguments");
             }
 
@@ -1392,12 +1398,12 @@ int bsputil_main(int argc, char **argv)
             } catch (const std::exception &) {
                 Error("Error reading position/normal\n");
             }
-            return 0;
+            i += 6;
         } else if (!strcmp(argv[i], "--findleaf")) {
             // (i + 1) ... (i + 3) = x y z
             // i + 4 = bsp file
 
-            if (i + 4 >= argc) {
+            if (i + 3 >= argc - 1) {
                 Error("--findleaf requires 3 arguments");
             }
 
@@ -1409,12 +1415,12 @@ int bsputil_main(int argc, char **argv)
             } catch (const std::exception &) {
                 Error("Error reading position/normal\n");
             }
-            return 0;
+            i += 3;
         } else if (!strcmp(argv[i], "--settexinfo")) {
             // (i + 1) facenum
             // (i + 2) texinfonum
 
-            if (i + 2 >= argc) {
+            if (i + 2 >= argc - 1) {
                 Error("--settexinfo requires 2 arguments");
             }
 
@@ -1426,12 +1432,10 @@ int bsputil_main(int argc, char **argv)
             mface_t *face = BSP_GetFace(&bsp, fnum);
             face->texinfo = texinfonum;
 
-            ConvertBSPFormat(&bspdata, bspdata.loadversion);
-
             // Overwrite source bsp!
-            WriteBSPFile(source, &bspdata);
+            WriteConvertedBSP(bspdata, source, bspdata.loadversion);
 
-            return 0;
+            i += 2;
         } else if (!strcmp(argv[i], "--decompile") || !strcmp(argv[i], "--decompile-geomonly") ||
                    !strcmp(argv[i], "--decompile-ignore-brushes") || !strcmp(argv[i], "--decompile-hull")) {
             const bool geomOnly = !strcmp(argv[i], "--decompile-geomonly");
@@ -1440,22 +1444,28 @@ int bsputil_main(int argc, char **argv)
 
             int hullnum = 0;
             if (hull) {
-                hullnum = std::stoi(argv[i + 1]);
+                i++;
+                if (!(i < argc - 1)) {
+                    Error("--decompile-hull requires 1 argument");
+                }
+                hullnum = std::stoi(argv[i]);
             }
 
             // generate output filename
+            fs::path output = source;
+
             if (hull) {
-                source.replace_extension(fmt::format(".decompile.hull{}.map", hullnum));
+                output.replace_extension(fmt::format(".decompile.hull{}.map", hullnum));
             } else {
-                source.replace_extension(".decompile.map");
+                output.replace_extension(".decompile.map");
             }
 
-            fmt::print("-> writing {}...\n", source);
+            fmt::print("-> writing {}...\n", output);
 
-            std::ofstream f(source);
+            std::ofstream f(output);
 
             if (!f)
-                Error("couldn't open {} for writing\n", source);
+                Error("couldn't open {} for writing\n", output);
 
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
@@ -1472,16 +1482,17 @@ int bsputil_main(int argc, char **argv)
                 Error("{}", strerror(errno));
 
             printf("done!\n");
-            return 0;
         } else if (!strcmp(argv[i], "--extract-bspx-lump")) {
-            std::string lump_name = argv[i + 1];
-            fs::path output_file_name = argv[i + 2];
             // argv[i + 3] == input bsp
 
-            if (i + 3 >= argc) {
+            if (i + 2 >= argc - 1) {
                 Error("--extract-bspx-lump requires 3 arguments");
             }
 
+            std::string lump_name = argv[i + 1];
+            fs::path output_file_name = argv[i + 2];
+            i += 2;
+
             const auto &entries = bspdata.bspx.entries;
             if (entries.find(lump_name) == entries.end()) {
                 FError("couldn't find bspx lump {}", lump_name);
@@ -1501,16 +1512,17 @@ int bsputil_main(int argc, char **argv)
             f.close();
 
             fmt::print("done.\n");
-            return 0;
         } else if (!strcmp(argv[i], "--insert-bspx-lump")) {
-            std::string lump_name = argv[i + 1];
-            fs::path input_file_name = argv[i + 2];
             // argv[i + 3] == input bsp
 
-            if (i + 3 >= argc) {
+            if (i + 2 >= argc - 1) {
                 Error("--insert-bspx-lump requires 3 arguments");
             }
 
+            std::string lump_name = argv[i + 1];
+            fs::path input_file_name = argv[i + 2];
+            i += 2;
+
             // read entire input
             auto data = fs::load(input_file_name);
             if (!data)
@@ -1522,19 +1534,19 @@ int bsputil_main(int argc, char **argv)
             entries[lump_name] = std::move(*data);
 
             // Overwrite source bsp!
-            ConvertBSPFormat(&bspdata, bspdata.loadversion);
-            WriteBSPFile(source, &bspdata);
+            WriteConvertedBSP(bspdata, source, bspdata.loadversion);
 
             fmt::print("done.\n");
-            return 0;
         } else if (!strcmp(argv[i], "--remove-bspx-lump")) {
-            std::string lump_name = argv[i + 1];
             // argv[i + 2] == input bsp
 
-            if (i + 2 >= argc) {
+            if (i + 1 >= argc - 1) {
                 Error("--remove-bspx-lump requires 2 arguments");
             }
 
+            std::string lump_name = argv[i + 1];
+            i++;
+
             // remove bspx lump
             fmt::print("-> removing bspx lump {}\n", lump_name);
 
@@ -1546,11 +1558,9 @@ int bsputil_main(int argc, char **argv)
             entries.erase(it);
 
             // Overwrite source bsp!
-            ConvertBSPFormat(&bspdata, bspdata.loadversion);
-            WriteBSPFile(source, &bspdata);
+            WriteConvertedBSP(bspdata, source, bspdata.loadversion);
 
             fmt::print("done.\n");
-            return 0;
         } else {
             fmt::print("unknown command {}\n", argv[i]);
         }
-- 
2.43.0


From 437f31ec3af3213c623a02618132e56a90724b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:35 +0000
Subject: [PATCH 61/63] fix: bsputil: the CRC of the entities covers all of
 them

---
 bsputil/bsputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 2c0519c..93b0793 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1321,7 +1321,7 @@ int bsputil_main(int argc, char **argv)
 
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
-            uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size() - 1);
+            uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size());
 
             fs::path output = fs::path(source).replace_extension(".ent");
             fmt::print("-> writing {} [CRC: {:04x}]... ", output, crc);
-- 
2.43.0


From e97ad48d328946441340c5c454923edcca79be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:35 +0000
Subject: [PATCH 62/63] fix: bsputil: --extract-textures writes the place and
 size of each texture

---
 bsputil/bsputil.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 93b0793..b0ebe28 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -81,13 +81,20 @@ void ExportWad(std::ofstream &wadfile, const mbsp_t *bsp)
         }
     }
 
+    // Half-Life textures bring their own palette
+    const bool wad3 = bsp->loadversion->game->id == GAME_HALF_LIFE;
+
     // Write out
     wadinfo_t header;
+    if (wad3) {
+        header.identification[3] = '3';
+    }
     header.numlumps = numvalid;
+    wadfile << endianness<std::endian::little>;
     wadfile <= header;
 
     lumpinfo_t lump{};
-    lump.type = 'D';
+    lump.type = wad3 ? 'C' : 'D';
 
     /* Miptex data will follow the lump headers */
     filepos = sizeof(header) + numvalid * sizeof(lump);
@@ -96,9 +103,11 @@ void ExportWad(std::ofstream &wadfile, const mbsp_t *bsp)
             continue;
 
         lump.filepos = filepos;
-        lump.size = sizeof(dmiptex_t) + miptex.width * miptex.height / 64 * 85;
+        lump.size = miptex.stream_size();
         lump.disksize = lump.size;
-        snprintf(lump.name.data(), sizeof(lump.name), "%s", miptex.name.data());
+        lump.name.fill(0);
+        // not terminated if it has the full 16 characters
+        std::copy_n(miptex.name.data(), std::min(miptex.name.size(), lump.name.size()), lump.name.data());
 
         filepos += lump.disksize;
 
-- 
2.43.0


From a44dd26d41d96848a6695f84dd5449fbea92797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:55 +0000
Subject: [PATCH 63/63] fix: bsputil: --scale keeps clip hulls, mirrored maps
 and the light grid right

---
 bsputil/bsputil.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index b0ebe28..6ce7ac1 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1015,6 +1015,10 @@ int bsputil_main(int argc, char **argv)
                 for (auto &s : bsp.dfaces) {
                     std::reverse(
                         bsp.dsurfedges.data() + s.firstedge, bsp.dsurfedges.data() + (s.firstedge + s.numedges));
+
+                    for (int32_t e = 0; e < s.numedges; e++) {
+                        bsp.dsurfedges[s.firstedge + e] = -bsp.dsurfedges[s.firstedge + e];
+                    }
                 }
             }
 
@@ -1033,11 +1037,12 @@ int bsputil_main(int argc, char **argv)
                         pt *= scalar;
                     }
 
-                    if (flip_faces) {
+                    if (flip_faces & 1) {
                         std::reverse(pts.begin(), pts.end());
                     }
 
-                    dplane_t scaled{qplane3f(pts.plane()), p.type};
+                    dplane_t scaled{qplane3f(pts.plane())};
+                    scaled.type = static_cast<int32_t>(calculate_plane_type(scaled));
 
                     plane_remap[i] = new_planes.add_or_find_plane(scaled);
                     i++;
@@ -1095,6 +1100,15 @@ int bsputil_main(int argc, char **argv)
                 }
             }
 
+            for (auto &c : bsp.dclipnodes) {
+                c.planenum = plane_remap[c.planenum];
+
+                if (c.planenum & 1) {
+                    std::reverse(c.children.begin(), c.children.end());
+                    c.planenum &= ~1;
+                }
+            }
+
             // remap planes on stuff
             for (auto &v : bsp.dbrushsides) {
                 v.planenum = plane_remap[v.planenum];
@@ -1188,10 +1202,8 @@ int bsputil_main(int argc, char **argv)
                     qvec3f grid_mins;
                     istream >= grid_mins;
 
-                    qvec3f scaled_mins = grid_mins * scalar;
-                    qvec3f scaled_maxs = (grid_mins + original_grid_dist * (grid_size - qvec3i{1, 1, 1})) * scalar;
-
-                    ostream <= qv::min(scaled_mins, scaled_maxs);
+                    // where the first sample is, the distance is negative for a mirrored axis
+                    ostream <= qvec3f(grid_mins * scalar);
                 }
             }
 
-- 
2.43.0

