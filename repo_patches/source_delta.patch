From 8025030f4911fff41f2adec2ec01b9531227150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 01/34] fix: ChangeNodePage records the node's new page

---
 cpp/src/io/copc_writer_public.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..f883134 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -163,11 +163,13 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     hierarchy_->seen_pages_[new_page_key]->nodes[node_key] = node;
 
     // Remove node from old page
-    hierarchy_->seen_pages_[node->page_key]->nodes.erase(node_key);
+    auto old_page_key = node->page_key;
+    hierarchy_->seen_pages_[old_page_key]->nodes.erase(node_key);
+    node->page_key = new_page_key;
 
     // If old page has no nodes left then remove it, unless it is root page
-    if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
-        hierarchy_->seen_pages_.erase(node->page_key);
+    if (old_page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[old_page_key]->nodes.empty())
+        hierarchy_->seen_pages_.erase(old_page_key);
 }
 
 void FileWriter::Close()
-- 
2.43.0


From 2b9b85d5c96bb1246e08ead368379a524e7bc874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 02/34] fix: decompress into a buffer as large as the point
 record

---
 cpp/include/copc-lib/laz/decompressor.hpp | 7 ++++---
 cpp/src/io/laz_reader.cpp                 | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..1b3aae5 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,12 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        // A point record can be bigger than 255 bytes when it has extra bytes
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..907413f 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,12 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    // A point record can be bigger than 255 bytes when it has extra bytes
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From f911f897cf3faabe45a799ea16eb4ad8dfd846c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 03/34] fix: header strings that fill their field are read
 without running past it

---
 cpp/src/las/header.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..79c377d 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -58,11 +58,12 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    // The fixed size fields have no terminating zero when they are full
+    h.guid_ = std::string(header.guid, strnlen(header.guid, 16));
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ = std::string(header.system_identifier, strnlen(header.system_identifier, 32));
+    h.generating_software_ = std::string(header.generating_software, strnlen(header.generating_software, 32));
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
-- 
2.43.0


From 1b126cc9fb7a60b7f6914719773301daeb5b9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 04/34] fix: read a WKT that is stored as a VLR from its own
 offset

---
 cpp/src/io/base_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..e25ee16 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,8 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        // The WKT can be stored as a VLR or as an EVLR
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
-- 
2.43.0


From f505e9af60f307416578bf20b4f6ca0b19e6026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 05/34] fix: copying a LazConfigWriter copies its header

---
 cpp/include/copc-lib/las/laz_config.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..69ea1b2 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -53,6 +53,9 @@ class LazConfigWriter : public LazConfig
                     const Vector3 &offset = Vector3::DefaultOffset(), const std::string &wkt = "",
                     const las::EbVlr &extra_bytes_vlr = las::EbVlr(0));
 
+    // Copy constructor, the copy has a header of its own
+    LazConfigWriter(const LazConfigWriter &laz_config_writer) : LazConfig(laz_config_writer) {}
+
     LazConfigWriter(const LazConfig &laz_config)
         : LazConfig(las::LasHeader(laz_config.LasHeader(), false), laz_config.Wkt(), laz_config.ExtraBytesVlr())
     {
-- 
2.43.0


From f075bc9cddfdd14ee8b97efca18e69c09af3a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 06/34] fix: LazReader::GetPointData returns all points each
 time it is called

---
 cpp/src/io/laz_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 907413f..3107596 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -5,6 +5,9 @@ namespace copc::laz
 std::vector<char> LazReader::GetPointData()
 {
     auto las_header = las_config_.LasHeader();
+    // Start again from the first chunk, whatever an earlier call has read
+    in_stream_->clear();
+    lazperf::reader::generic_file reader(*in_stream_);
     // Seek to the end of the chunk table offset/start of the points
     in_stream_->seekg(las_header.PointOffset() + sizeof(int64_t));
 
@@ -14,7 +17,7 @@ std::vector<char> LazReader::GetPointData()
     std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff.data());
+        reader.readPoint(buff.data());
         out.insert(out.end(), buff.begin(), buff.end());
     }
 
-- 
2.43.0


From 47e937309a469556719662ffa568a7f4f36f47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 07/34] fix: write the extra bytes VLR exactly when it has
 items, as space is reserved for it

---
 cpp/src/io/laz_base_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..501bb33 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     !config_->ExtraBytesVlr().items.empty(), extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (!config_->ExtraBytesVlr().items.empty())
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From 317cfccb8bbd5c3fb45197a0099194d73a9a7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 08/34] fix: a failed read does not make the reader's later
 queries fail

---
 cpp/include/copc-lib/io/base_reader.hpp | 2 ++
 cpp/src/io/base_reader.cpp              | 8 ++++++++
 cpp/src/io/copc_reader.cpp              | 6 +++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 9e4d52a..5844dd3 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -32,6 +32,8 @@ class BaseReader
 
     // Constructor helper function, initializes the file and hierarchy
     void InitReader();
+    // Moves to an absolute position, whatever state an earlier (failed) read has left the stream in
+    void Seek(uint64_t position);
     // Reads file VLRs and EVLRs into vlrs_
     std::map<uint64_t, las::VlrHeader> ReadVlrHeaders(); // TODO: Allow user to create/reader arbitrary VLRs
     // Fetchs the map key for a query vlr user and record IDs
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index e25ee16..9da206a 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -31,6 +31,14 @@ void BaseReader::InitReader()
     las_config_ = las::LazConfig(header, wkt.wkt, eb);
 }
 
+void BaseReader::Seek(uint64_t position)
+{
+    in_stream_->clear();
+    in_stream_->seekg(static_cast<std::streamoff>(position));
+    if (!in_stream_->good())
+        throw std::runtime_error("BaseReader::Seek: Error while moving to position " + std::to_string(position) + ".");
+}
+
 std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
 {
     std::map<uint64_t, las::VlrHeader> out;
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..d8033fe 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -74,7 +74,7 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
         throw std::runtime_error("Reader::ReadPage: Cannot load an invalid page.");
 
     // reset the stream to the page's offset
-    in_stream_->seekg(page->offset);
+    Seek(page->offset);
 
     // Iterate through each Entry in the page
     int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);
@@ -112,7 +112,7 @@ std::vector<char> Reader::GetPointData(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointData: Cannot load an invalid node.");
 
-    in_stream_->seekg(node.offset);
+    Seek(node.offset);
 
     auto las_header = config_.LasHeader();
     std::vector<char> point_data = laz::Decompressor::DecompressBytes(*in_stream_, las_header, node.point_count);
@@ -137,7 +137,7 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
-    in_stream_->seekg(node.offset);
+    Seek(node.offset);
 
     std::vector<char> out;
     out.resize(node.byte_size);
-- 
2.43.0


From 7f7d1cb22106b0c7c69c6bf3fd9e048b4795fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 09/34] fix: GetPointDataCompressed reports a node that cannot
 be read in full

---
 cpp/src/io/copc_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index d8033fe..a01aed0 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -141,7 +141,10 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    in_stream_->read(out.data(), node.byte_size);
+    if (in_stream_->gcount() != node.byte_size)
+        throw std::runtime_error("Reader::GetPointDataCompressed: Error while reading node " + node.key.ToString() +
+                                 ".");
     return out;
 }
 
-- 
2.43.0


From fe362b722410fc010f0b806a323de97ad0306397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/34] fix: a hierarchy page is loaded completely or not at
 all, and only once

---
 cpp/src/io/copc_base_io.cpp | 26 +++++++++++++++++++++-----
 cpp/src/io/copc_reader.cpp  |  3 ++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..d33767a 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -52,20 +52,36 @@ void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &pa
 void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page)
 {
     auto children = ReadPage(page);
+
+    // Build everything before the hierarchy is touched, so that a page that fails to load is left as it was
+    std::set<std::shared_ptr<Internal::PageInternal>> sub_pages;
+    std::unordered_map<VoxelKey, std::shared_ptr<Internal::PageInternal>> seen_pages;
+    std::unordered_map<VoxelKey, std::shared_ptr<Node>> nodes;
     for (const Entry &e : children)
     {
         if (e.IsPage())
         {
+            // Each page is listed once, anything else could send us round in circles
             auto subpage = std::make_shared<Internal::PageInternal>(e);
-            hierarchy_->seen_pages_[e.key] = subpage;
-            page->sub_pages.insert(subpage);
+            if (hierarchy_->PageExists(e.key) || !seen_pages.insert({e.key, subpage}).second)
+                throw std::runtime_error("BaseIO::ReadAndParsePage: Page " + e.key.ToString() +
+                                         " is listed more than once.");
+            sub_pages.insert(subpage);
         }
         else
         {
-            auto node = std::make_shared<Node>(e, page->key);
-            hierarchy_->loaded_nodes_[e.key] = node;
-            page->nodes[node->key] = node;
+            nodes[e.key] = std::make_shared<Node>(e, page->key);
         }
     }
+    auto loaded_nodes = nodes;
+    hierarchy_->seen_pages_.reserve(hierarchy_->seen_pages_.size() + seen_pages.size());
+    hierarchy_->loaded_nodes_.reserve(hierarchy_->loaded_nodes_.size() + loaded_nodes.size());
+
+    // Nothing below allocates
+    hierarchy_->seen_pages_.merge(seen_pages);
+    hierarchy_->loaded_nodes_.merge(loaded_nodes);
+    page->sub_pages.swap(sub_pages);
+    page->nodes.swap(nodes);
+    page->loaded = true;
 }
 } // namespace copc
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a01aed0..e4c8951 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -81,13 +81,14 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
+        if (!in_stream_->good())
+            throw std::runtime_error("Reader::ReadPage: Error while reading page " + page->key.ToString() + ".");
         if (!e.IsValid())
             throw std::runtime_error("Entry is invalid! " + e.ToString());
 
         out.push_back(e);
     }
 
-    page->loaded = true;
     return out;
 }
 
-- 
2.43.0


From 6d7769afd2d4cfbf978408d95596976d7b4f362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 11/34] fix: GetAllChildrenOfPage does not depend on what was
 loaded before

---
 cpp/src/io/copc_reader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index e4c8951..c34ce90 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -168,7 +168,14 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
     if (!key.IsValid())
         return out;
 
-    // Load all pages upto the current key
+    // Load all pages upto the current key, even if a node with this key is known already
+    auto parents_list = key.GetParents(true);
+    auto nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    while (nearest_page != nullptr && !nearest_page->loaded)
+    {
+        ReadAndParsePage(nearest_page);
+        nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    }
     auto node = FindNode(key);
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
-- 
2.43.0


From 904db1a794048d1b0594b2004cb23b081cd3610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 12/34] fix: opening a file reports VLRs that cannot be read
 instead of using what is left of them

---
 cpp/include/copc-lib/io/base_reader.hpp |  4 ++
 cpp/include/copc-lib/io/copc_reader.hpp |  2 +-
 cpp/src/io/base_reader.cpp              | 49 ++++++++++++++++++++-----
 cpp/src/io/copc_reader.cpp              | 23 +++++++-----
 4 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 5844dd3..fda3884 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -34,6 +34,10 @@ class BaseReader
     void InitReader();
     // Moves to an absolute position, whatever state an earlier (failed) read has left the stream in
     void Seek(uint64_t position);
+    // Returns the size of the stream in bytes
+    uint64_t StreamSize();
+    // Throws if the stream is in a failed state
+    void CheckStream(const std::string &what);
     // Reads file VLRs and EVLRs into vlrs_
     std::map<uint64_t, las::VlrHeader> ReadVlrHeaders(); // TODO: Allow user to create/reader arbitrary VLRs
     // Fetchs the map key for a query vlr user and record IDs
diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 75a2652..568788c 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -76,7 +76,7 @@ class Reader : public BaseIO, public BaseReader
     // Finds and loads the COPC vlr
     CopcInfo ReadCopcInfoVlr(std::map<uint64_t, las::VlrHeader> &vlrs);
     // Finds and loads the COPC vlr
-    CopcExtents ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr) const;
+    CopcExtents ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr);
 
     std::vector<Entry> ReadPage(std::shared_ptr<Internal::PageInternal> page) override;
 };
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9da206a..2a12770 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -39,34 +39,61 @@ void BaseReader::Seek(uint64_t position)
         throw std::runtime_error("BaseReader::Seek: Error while moving to position " + std::to_string(position) + ".");
 }
 
+uint64_t BaseReader::StreamSize()
+{
+    in_stream_->clear();
+    in_stream_->seekg(0, std::ios::end);
+    auto size = in_stream_->tellg();
+    if (!in_stream_->good() || size < 0)
+        throw std::runtime_error("BaseReader::StreamSize: Error while getting the size of the stream.");
+    return static_cast<uint64_t>(size);
+}
+
+void BaseReader::CheckStream(const std::string &what)
+{
+    if (!in_stream_->good())
+        throw std::runtime_error("BaseReader: Error while reading " + what + ".");
+}
+
 std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
 {
     std::map<uint64_t, las::VlrHeader> out;
 
+    auto file_size = StreamSize();
+
     // Move stream to beginning of VLRs
-    in_stream_->seekg(reader_->header().header_size);
+    Seek(reader_->header().header_size);
 
     // Iterate through all vlr's and add them to the `vlrs` list
     for (int i = 0; i < reader_->header().vlr_count; i++)
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        CheckStream("VLR header");
+        auto data_pos = cur_pos + las::VLR_HEADER_SIZE;
+        if (h.data_length > file_size - data_pos)
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: VLR goes past the end of the file.");
         out.insert({cur_pos, h});
 
-        in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
+        Seek(data_pos + h.data_length); // jump foward
     }
 
     // Move stream to beginning of EVLRs
-    in_stream_->seekg(reader_->header().evlr_offset);
+    if (reader_->header().evlr_count > 0)
+        Seek(reader_->header().evlr_offset);
 
     // Iterate through all vlr's and add them to the `vlrs` list
-    for (int i = 0; i < reader_->header().evlr_count; i++)
+    for (uint32_t i = 0; i < reader_->header().evlr_count; i++)
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        CheckStream("EVLR header");
+        auto data_pos = cur_pos + las::EVLR_HEADER_SIZE;
+        if (h.data_length > file_size - data_pos)
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: EVLR goes past the end of the file.");
         out.insert({cur_pos, h});
 
-        in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
+        Seek(data_pos + h.data_length); // jump foward
     }
 
     return out;
@@ -77,8 +104,10 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     if (offset != 0)
     {
         // The WKT can be stored as a VLR or as an EVLR
-        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
-        return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        Seek(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
+        auto wkt = las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        CheckStream("WKT VLR");
+        return wkt;
     }
     return las::WktVlr();
 }
@@ -88,8 +117,10 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-        return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        Seek(offset + las::VLR_HEADER_SIZE);
+        auto eb = las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        CheckStream("extra bytes VLR");
+        return eb;
     }
     return las::EbVlr();
 }
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index c34ce90..02f6b18 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -37,27 +37,32 @@ CopcInfo Reader::ReadCopcInfoVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
         throw std::runtime_error("Reader::ReadCopcInfoVlr: COPC Info VLR was found in the wrong position, MUST be at "
                                  "offset 375 as per COPC specs.");
 
-    in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-    return lazperf::copc_info_vlr::create(*in_stream_);
+    Seek(offset + las::VLR_HEADER_SIZE);
+    CopcInfo copc_info = lazperf::copc_info_vlr::create(*in_stream_);
+    CheckStream("COPC Info VLR");
+    return copc_info;
 }
 
-CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr) const
+CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs, const las::EbVlr &eb_vlr)
 {
     auto offset = FetchVlr(vlrs, "copc", 10000);
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
-        CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
-                            static_cast<int8_t>(reader_->header().point_format_id),
+        Seek(offset + las::VLR_HEADER_SIZE);
+        auto extents_vlr = las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
+        CheckStream("COPC Extents VLR");
+        CopcExtents extents(extents_vlr, static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
 
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
-            extents.SetExtendedStats(
-                las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
+            Seek(extended_offset + las::VLR_HEADER_SIZE);
+            auto extended_vlr =
+                las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length));
+            CheckStream("COPC extended stats VLR");
+            extents.SetExtendedStats(extended_vlr);
         }
         return extents;
     }
-- 
2.43.0


From 8c002856186001da3e839ee8d72e07a2323cdeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 13/34] fix: a file without extents VLR has extents for its
 extra bytes too

---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 02f6b18..60f6ff8 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -68,7 +68,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From e442093a798d79fe768c7c61257eb9db0e2cbbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 14/34] fix: GetPointDataCompressed does not allocate for a
 node bigger than the file

---
 cpp/src/io/copc_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 60f6ff8..4006ac6 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -144,6 +144,11 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
+    auto stream_size = StreamSize();
+    if (node.offset > stream_size || static_cast<uint64_t>(node.byte_size) > stream_size - node.offset)
+        throw std::runtime_error("Reader::GetPointDataCompressed: Node " + node.key.ToString() +
+                                 " goes past the end of the file.");
+
     Seek(node.offset);
 
     std::vector<char> out;
-- 
2.43.0


From 40a187aae3bdedfc3516570afef1b58a1199627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 15/34] fix: packing and compressing to memory report an
 allocation that fails

---
 cpp/include/copc-lib/laz/compressor.hpp | 3 +++
 cpp/src/las/points.cpp                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/include/copc-lib/laz/compressor.hpp b/cpp/include/copc-lib/laz/compressor.hpp
index df35e5c..be02fc5 100644
--- a/cpp/include/copc-lib/laz/compressor.hpp
+++ b/cpp/include/copc-lib/laz/compressor.hpp
@@ -54,6 +54,9 @@ class Compressor
     {
         std::ostringstream out_stream;
         CompressBytes(out_stream, point_format_id, eb_byte_size, in);
+        // The stream keeps an allocation that fails to itself
+        if (!out_stream.good())
+            throw std::runtime_error("Compressor::CompressBytes: Error while compressing points.");
         auto ostr = out_stream.str();
         return std::vector<char>(ostr.begin(), ostr.end());
     }
diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 57e34b1..5b521ed 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -114,6 +114,9 @@ std::vector<char> Points::Pack(const Vector3 &scale, const Vector3 &offset) cons
 {
     std::stringstream out;
     Pack(out, scale, offset);
+    // The stream keeps an allocation that fails to itself
+    if (!out.good())
+        throw std::runtime_error("Points::Pack: Error while packing points.");
     auto ostr = out.str();
     return std::vector<char>(ostr.begin(), ostr.end());
 }
-- 
2.43.0


From 5ad773416de1da8580b2e3286bce66caa35b6e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 16/34] fix: a reader whose constructor fails closes its file

---
 cpp/include/copc-lib/io/copc_reader.hpp | 7 +++++--
 cpp/include/copc-lib/io/laz_reader.hpp  | 9 +++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 568788c..fade208 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -1,9 +1,11 @@
 #ifndef COPCLIB_IO_COPC_READER_H_
 #define COPCLIB_IO_COPC_READER_H_
 
+#include <fstream>
 #include <istream>
 #include <limits>
 #include <map>
+#include <memory>
 #include <string>
 
 #include "copc-lib/copc/copc_config.hpp"
@@ -86,15 +88,16 @@ class FileReader : public Reader
   public:
     FileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
+        auto f_stream = std::make_unique<std::fstream>();
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         if (!f_stream->good())
             throw std::runtime_error("FileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = f_stream.get();
 
         InitReader();
         InitCopcReader();
+        f_stream.release(); // From here on it belongs to the reader
     }
 
     void Close()
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index faf4edb..abec446 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -1,6 +1,10 @@
 #ifndef COPCLIB_IO_LAZ_READER_H_
 #define COPCLIB_IO_LAZ_READER_H_
 
+#include <fstream>
+#include <memory>
+#include <string>
+
 #include "copc-lib/io/base_reader.hpp"
 
 namespace copc::laz
@@ -25,14 +29,15 @@ class LazFileReader : public LazReader
   public:
     LazFileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
+        auto f_stream = std::make_unique<std::fstream>();
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         if (!f_stream->good())
             throw std::runtime_error("LazFileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = f_stream.get();
 
         InitReader();
+        f_stream.release(); // From here on it belongs to the reader
     }
 
     void Close()
-- 
2.43.0


From 55a85ef571db984cde34503fe752447900648146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 17/34] fix: a write, flush or close that fails is reported,
 Close can be retried, and destructors do not throw

---
 cpp/include/copc-lib/io/copc_writer.hpp       |  8 +-
 .../io/internal/copc_writer_internal.hpp      |  2 +-
 cpp/include/copc-lib/io/laz_base_writer.hpp   |  8 +-
 cpp/include/copc-lib/io/laz_writer.hpp        | 12 ++-
 cpp/src/io/copc_writer_internal.cpp           | 17 ++++-
 cpp/src/io/copc_writer_public.cpp             | 18 +++++
 cpp/src/io/laz_base_writer.cpp                | 76 ++++++++++++++-----
 7 files changed, 116 insertions(+), 25 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..9d9a1ce 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -49,7 +49,8 @@ class Writer : public BaseIO
 
     std::shared_ptr<CopcConfigWriter> CopcConfig() { return config_; }
 
-    ~Writer() { Close(); }
+    // Closes the writer if that has not been done yet, an error can only be seen by calling Close
+    ~Writer() { CloseNoThrow(); }
 
   protected:
     Writer() = default;
@@ -60,6 +61,9 @@ class Writer : public BaseIO
 
     bool PageExists(const VoxelKey &key);
 
+    // For destructors
+    void CloseNoThrow() noexcept;
+
     Node DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t point_count, bool compressed_data,
                    const VoxelKey &page_key);
     std::vector<Entry> ReadPage(std::shared_ptr<Internal::PageInternal> page) override
@@ -89,7 +93,7 @@ class FileWriter : public Writer, laz::BaseFileWriter
     }
 
     void Close() override;
-    ~FileWriter() { Close(); }
+    ~FileWriter();
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 8ca65fd..9f3fc61 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -20,7 +20,7 @@ class WriterInternal : laz::BaseWriter
     // Writes the header and COPC vlrs
     void Close() override;
     // Call close on destructor if needed
-    ~WriterInternal() { Close(); }
+    ~WriterInternal();
 
     // Writes a chunk to the laz file
     Entry WriteNode(const std::vector<char> &in, int32_t point_count, bool compressed);
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..0d53380 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -41,9 +41,15 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter() { Close(); }
+    // Closes the writer if that has not been done yet, an error can only be seen by calling Close
+    ~BaseWriter();
 
   protected:
+    // Throws if anything written to the stream so far has failed
+    void CheckStream(const std::string &error) const;
+    // Last step of Close: makes sure that everything has been written
+    void FinishClose();
+
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
 
     bool open_{};
diff --git a/cpp/include/copc-lib/io/laz_writer.hpp b/cpp/include/copc-lib/io/laz_writer.hpp
index 1586a2e..83c36bf 100644
--- a/cpp/include/copc-lib/io/laz_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_writer.hpp
@@ -51,7 +51,17 @@ class LazFileWriter : BaseFileWriter, public LazWriter
         LazWriter::Close();
         BaseFileWriter::Close();
     };
-    ~LazFileWriter() { Close(); };
+    // An error can only be seen by calling Close
+    ~LazFileWriter()
+    {
+        try
+        {
+            Close();
+        }
+        catch (...)
+        {
+        }
+    };
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index deab4e8..df9ad22 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -52,7 +52,7 @@ void WriterInternal::Close()
     // Set COPC hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
     evlr_offset_ = static_cast<int64_t>(out_stream_.tellp());
-    evlr_count_ += hierarchy_->seen_pages_.size();
+    evlr_count_ = hierarchy_->seen_pages_.size();
 
     // Compute the hierarchy between existing pages
     ComputePageHierarchy();
@@ -64,6 +64,19 @@ void WriterInternal::Close()
 
     WriteHeader();
 
+    FinishClose();
+}
+
+WriterInternal::~WriterInternal()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Only an explicit Close can report that it failed
+    }
     open_ = false;
 }
 
@@ -149,6 +162,8 @@ void WriterInternal::WritePage(const std::shared_ptr<PageInternal> &page)
 void WriterInternal::ComputePageHierarchy()
 {
     // loop through each page
+    for (const auto &page : hierarchy_->seen_pages_)
+        page.second->sub_pages.clear();
     for (const auto &page : hierarchy_->seen_pages_)
     {
         if (page.first != VoxelKey::RootKey())
diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index f883134..ce987ea 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -69,6 +69,17 @@ void Writer::Close()
         writer_->Close();
 }
 
+void Writer::CloseNoThrow() noexcept
+{
+    try
+    {
+        Writer::Close();
+    }
+    catch (...)
+    {
+    }
+}
+
 bool Writer::PageExists(const VoxelKey &key) { return hierarchy_->PageExists(key); }
 
 // Writes a node to the file and reference it in the hierarchy and in the parent page
@@ -179,4 +190,11 @@ void FileWriter::Close()
     laz::BaseFileWriter::Close();
 }
 
+FileWriter::~FileWriter()
+{
+    CloseNoThrow();
+    // The file goes away before the base class does
+    writer_ = nullptr;
+}
+
 } // namespace copc
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 501bb33..4183871 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -72,8 +72,9 @@ void BaseWriter::WriteChunkTable()
     auto chunk_table_offset = static_cast<uint64_t>(out_stream_.tellp());
 
     // Fixup the chunk table to be relative offsets rather than absolute ones.
+    auto chunks = chunks_;
     uint64_t prevOffset = FirstChunkOffset();
-    for (auto &c : chunks_)
+    for (auto &c : chunks)
     {
         uint64_t relOffset = c.offset - prevOffset;
         prevOffset = c.offset;
@@ -83,15 +84,15 @@ void BaseWriter::WriteChunkTable()
     // write out the chunk table header (version and total chunks)
     uint32_t version = 0;
     out_stream_.write((const char *)&version, sizeof(uint32_t));
-    if (chunks_.size() > (std::numeric_limits<uint32_t>::max)())
+    if (chunks.size() > (std::numeric_limits<uint32_t>::max)())
         throw std::runtime_error("You've got way too many chunks!");
-    auto numChunks = static_cast<uint32_t>(chunks_.size());
+    auto numChunks = static_cast<uint32_t>(chunks.size());
     out_stream_.write((const char *)&numChunks, sizeof(uint32_t));
 
     // Write the chunk table
     lazperf::OutFileStream w(out_stream_);
 
-    compress_chunk_table(w.cb(), chunks_, true);
+    compress_chunk_table(w.cb(), chunks, true);
     // go back to where we're supposed to write chunk table offset
     out_stream_.seekp(static_cast<int64_t>(OffsetToPointData()));
     out_stream_.write(reinterpret_cast<char *>(&chunk_table_offset), sizeof(uint64_t));
@@ -112,35 +113,48 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
-    uint64_t startpos = out_stream_.tellp();
-    if (startpos <= 0)
-        throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
-    if (offset != nullptr)
-        *offset = static_cast<uint64_t>(startpos);
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: The writer is closed!");
+
+    // Each chunk starts where the last one ended, whatever an operation that failed has left behind
+    uint64_t startpos = chunks_.empty() ? FirstChunkOffset() : chunks_.back().offset;
+    if (out_stream_.tellp() != static_cast<std::streamoff>(startpos))
+        out_stream_.seekp(static_cast<std::streamoff>(startpos));
+    CheckStream("BaseWriter::WriteChunk: Error while writing chunk!");
 
     if (compressed)
         out_stream_.write(in.data(), in.size());
     else
         point_count = laz::Compressor::CompressBytes(out_stream_, config_->LasHeader(), in);
+    CheckStream("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    point_count_ += point_count;
-
-    uint64_t endpos = out_stream_.tellp();
+    auto endpos = static_cast<int64_t>(out_stream_.tellp());
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
-
-    auto size = endpos - startpos;
+    auto size = static_cast<uint64_t>(endpos) - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
-    if (byte_size != nullptr)
-        *byte_size = static_cast<int32_t>(size);
     if (point_count > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("BaseWriter::WriteChunk: Chunk has too many points!");
+
+    // The chunk counts only once it is written
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
+    point_count_ += point_count;
+
+    if (offset != nullptr)
+        *offset = startpos;
+    if (byte_size != nullptr)
+        *byte_size = static_cast<int32_t>(size);
     return point_count;
 }
 
+void BaseWriter::CheckStream(const std::string &error) const
+{
+    if (out_stream_.fail())
+        throw std::runtime_error(error);
+}
+
 void BaseWriter::Close()
 {
     if (!open_)
@@ -151,14 +165,35 @@ void BaseWriter::Close()
     // Set hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
     evlr_offset_ = out_stream_.tellp();
+    evlr_count_ = 0;
 
     WriteWKT();
 
     WriteHeader();
 
+    FinishClose();
+}
+
+void BaseWriter::FinishClose()
+{
+    out_stream_.flush();
+    CheckStream("BaseWriter::Close: Error while writing the file.");
+
     open_ = false;
 }
 
+BaseWriter::~BaseWriter()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Only an explicit Close can report that it failed
+    }
+}
+
 BaseFileWriter::BaseFileWriter(const std::string &file_path)
 {
     file_path_ = file_path;
@@ -169,7 +204,10 @@ BaseFileWriter::BaseFileWriter(const std::string &file_path)
 
 void BaseFileWriter::Close()
 {
-    if (f_stream_.is_open())
-        f_stream_.close();
+    if (!f_stream_.is_open())
+        return;
+    f_stream_.close();
+    if (f_stream_.fail())
+        throw std::runtime_error("FileWriterBase: Error while closing file " + file_path_ + ".");
 }
 } // namespace copc::laz
-- 
2.43.0


From 0ceb83c70bb042a051bc57227ede48e29edd198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 18/34] fix: deeply nested hierarchy pages are not walked by
 recursion

---
 .../copc-lib/hierarchy/internal/hierarchy.hpp |  8 ++++
 cpp/include/copc-lib/io/copc_base_io.hpp      |  2 +-
 cpp/src/io/copc_base_io.cpp                   | 38 +++++++++++++------
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
index e5ea74a..523ca82 100644
--- a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
@@ -29,6 +29,14 @@ class Hierarchy
             std::make_shared<PageInternal>(VoxelKey::RootKey(), root_hier_offset, root_hier_size);
     };
 
+    ~Hierarchy()
+    {
+        // Pages own their sub pages: take them apart one by one instead of by recursion
+        for (auto &page : seen_pages_)
+            if (page.second != nullptr)
+                page.second->sub_pages.clear();
+    }
+
     // Find the lowest depth page that has been seen within a hierarchy list
     std::shared_ptr<PageInternal> NearestLoadedPage(const std::vector<VoxelKey> &parents_list)
     {
diff --git a/cpp/include/copc-lib/io/copc_base_io.hpp b/cpp/include/copc-lib/io/copc_base_io.hpp
index 5136187..f1ba01c 100644
--- a/cpp/include/copc-lib/io/copc_base_io.hpp
+++ b/cpp/include/copc-lib/io/copc_base_io.hpp
@@ -29,7 +29,7 @@ class BaseIO
     std::shared_ptr<Internal::Hierarchy> hierarchy_;
     virtual std::vector<Entry> ReadPage(std::shared_ptr<Internal::PageInternal> page) = 0;
     void ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page);
-    // Recursively reads all subpages and nodes given a root and returns all the nodes that were loaded
+    // Reads all subpages and nodes, at any depth, given a root and returns all the nodes that were loaded
     void LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes);
 };
 
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index d33767a..2c9c266 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -33,19 +33,35 @@ Node BaseIO::FindNode(VoxelKey key)
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
 {
-    if (!page->IsValid())
-        return;
-
-    if (!page->loaded)
-        ReadAndParsePage(page);
-
-    for (const auto &sub_page : page->sub_pages)
+    // The pages from the given one down to the current one, each with its next sub page.
+    // Only the file limits how deep pages are nested, so this is not done by recursion.
+    std::vector<std::pair<std::shared_ptr<Internal::PageInternal>,
+                          std::set<std::shared_ptr<Internal::PageInternal>>::const_iterator>>
+        path;
+    auto enter = [&](const std::shared_ptr<Internal::PageInternal> &entered)
     {
-        LoadPageHierarchy(sub_page, loaded_nodes);
-    }
-    for (const auto &node : page->nodes)
+        if (!entered->IsValid())
+            return;
+        if (!entered->loaded)
+            ReadAndParsePage(entered);
+        path.emplace_back(entered, entered->sub_pages.begin());
+    };
+
+    enter(page);
+    while (!path.empty())
     {
-        loaded_nodes.push_back(*node.second);
+        auto &[current, next] = path.back();
+        if (next != current->sub_pages.end())
+        {
+            auto sub_page = *next++;
+            enter(sub_page);
+            continue;
+        }
+        for (const auto &node : current->nodes)
+        {
+            loaded_nodes.push_back(*node.second);
+        }
+        path.pop_back();
     }
 }
 
-- 
2.43.0


From ec34f9c68f69f7e44fa6e0cced83203751c6a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 19/34] fix: looking up a key does not build a list of its
 ancestors

---
 .../copc-lib/hierarchy/internal/hierarchy.hpp     | 15 +++++++++------
 cpp/src/io/copc_base_io.cpp                       |  5 +----
 cpp/src/io/copc_reader.cpp                        |  5 ++---
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
index 523ca82..ab208d6 100644
--- a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
@@ -37,13 +37,16 @@ class Hierarchy
                 page.second->sub_pages.clear();
     }
 
-    // Find the lowest depth page that has been seen within a hierarchy list
-    std::shared_ptr<PageInternal> NearestLoadedPage(const std::vector<VoxelKey> &parents_list)
+    // Find the lowest depth page that has been seen among a key and its ancestors
+    std::shared_ptr<PageInternal> NearestLoadedPage(VoxelKey key)
     {
-        // Iterates through the list of key ancestors to find if any have been seen
-        for (auto &nearest_seen_parent : parents_list)
-            if (PageExists(nearest_seen_parent))
-                return seen_pages_[nearest_seen_parent];
+        // There is no limit on the depth of a key, so its ancestors are not put in a list
+        for (; key.IsValid(); key = key.GetParent())
+        {
+            auto page = seen_pages_.find(key);
+            if (page != seen_pages_.end())
+                return page->second;
+        }
 
         return nullptr;
     }
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2c9c266..fa8e965 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -14,11 +14,8 @@ Node BaseIO::FindNode(VoxelKey key)
         return *hierarchy_->loaded_nodes_[key];
     }
 
-    // Get a list of the key's hierarchial parents, so we can see if any of them are loaded
-    auto parents_list = key.GetParents(true);
-
     // Find if of the key's ancestors have been seen
-    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(key);
     // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
     // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
     if (nearest_page == nullptr || nearest_page->loaded)
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 4006ac6..2086cfc 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -180,12 +180,11 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
         return out;
 
     // Load all pages upto the current key, even if a node with this key is known already
-    auto parents_list = key.GetParents(true);
-    auto nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    auto nearest_page = hierarchy_->NearestLoadedPage(key);
     while (nearest_page != nullptr && !nearest_page->loaded)
     {
         ReadAndParsePage(nearest_page);
-        nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+        nearest_page = hierarchy_->NearestLoadedPage(key);
     }
     auto node = FindNode(key);
     // If a page with this key doesn't exist, check if the node itself exists and return it
-- 
2.43.0


From 141453d9bdd9acb4dee0541f4c15c4b5a69fcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 20/34] fix: FindNode goes down nested pages without recursion

---
 cpp/src/io/copc_base_io.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index fa8e965..c68cf19 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -8,24 +8,23 @@ namespace copc
 // Find a node object given a key
 Node BaseIO::FindNode(VoxelKey key)
 {
-    // Check if the entry has already been loaded
-    if (hierarchy_->loaded_nodes_.find(key) != hierarchy_->loaded_nodes_.end())
+    while (true)
     {
-        return *hierarchy_->loaded_nodes_[key];
-    }
-
-    // Find if of the key's ancestors have been seen
-    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(key);
-    // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
-    // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
-    if (nearest_page == nullptr || nearest_page->loaded)
-        return {};
+        // Check if the entry has already been loaded
+        auto node = hierarchy_->loaded_nodes_.find(key);
+        if (node != hierarchy_->loaded_nodes_.end())
+            return *node->second;
 
-    // Load the page and add the subpages and page nodes
-    ReadAndParsePage(nearest_page);
+        // Find if of the key's ancestors have been seen
+        std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(key);
+        // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
+        // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
+        if (nearest_page == nullptr || nearest_page->loaded)
+            return {};
 
-    // Try to find the key again
-    return FindNode(key);
+        // Load the page and add the subpages and page nodes, then try to find the key again
+        ReadAndParsePage(nearest_page);
+    }
 }
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
-- 
2.43.0


From 1c55cc4f6c5479725655dbc2ce9a93323771a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 21/34] fix: a writer notices when the position in the stream
 cannot be told

---
 cpp/include/copc-lib/io/laz_base_writer.hpp |  2 ++
 cpp/src/io/copc_writer_internal.cpp         |  6 +++---
 cpp/src/io/laz_base_writer.cpp              | 23 +++++++++++++--------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 0d53380..f815b33 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -47,6 +47,8 @@ class BaseWriter
   protected:
     // Throws if anything written to the stream so far has failed
     void CheckStream(const std::string &error) const;
+    // Returns the current position in the stream, throws if that cannot be told
+    uint64_t Position() const;
     // Last step of Close: makes sure that everything has been written
     void FinishClose();
 
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index df9ad22..c935cd3 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -51,7 +51,7 @@ void WriterInternal::Close()
 
     // Set COPC hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
-    evlr_offset_ = static_cast<int64_t>(out_stream_.tellp());
+    evlr_offset_ = Position();
     evlr_count_ = hierarchy_->seen_pages_.size();
 
     // Compute the hierarchy between existing pages
@@ -115,7 +115,7 @@ void WriterInternal::WriteHeader()
     WriteLazAndEbVlrs();
 
     // Make sure that we haven't gone over allocated size
-    if (static_cast<int64_t>(out_stream_.tellp()) > OffsetToPointData())
+    if (Position() > OffsetToPointData())
         throw std::runtime_error("WriterInternal::WriteHeader: LasHeader + VLRs are bigger than offset to point data.");
 }
 
@@ -140,7 +140,7 @@ void WriterInternal::WritePage(const std::shared_ptr<PageInternal> &page)
     h.write(out_stream_);
 
     // Set the page's offset/size
-    auto offset = static_cast<uint64_t>(out_stream_.tellp());
+    auto offset = Position();
     page->offset = offset;
     if (page_size > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("Page is too large!");
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 4183871..fe09298 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -59,7 +59,7 @@ void BaseWriter::WriteHeader()
     WriteLazAndEbVlrs();
 
     // Make sure that we haven't gone over allocated size
-    if (out_stream_.tellp() > OffsetToPointData())
+    if (Position() > OffsetToPointData())
         throw std::runtime_error("BaseWriter::WriteHeader: LasHeader + VLRs are bigger than offset to point data.");
 }
 
@@ -69,7 +69,7 @@ void BaseWriter::WriteChunkTable()
     out_stream_.seekp(0, std::ios::end);
 
     // take note of where we're writing the chunk table, we need this later
-    auto chunk_table_offset = static_cast<uint64_t>(out_stream_.tellp());
+    auto chunk_table_offset = Position();
 
     // Fixup the chunk table to be relative offsets rather than absolute ones.
     auto chunks = chunks_;
@@ -128,18 +128,15 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
         point_count = laz::Compressor::CompressBytes(out_stream_, config_->LasHeader(), in);
     CheckStream("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    auto endpos = static_cast<int64_t>(out_stream_.tellp());
-    if (endpos <= 0)
-        throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
-
-    auto size = static_cast<uint64_t>(endpos) - startpos;
+    auto endpos = Position();
+    auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
     if (point_count > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("BaseWriter::WriteChunk: Chunk has too many points!");
 
     // The chunk counts only once it is written
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
     point_count_ += point_count;
 
     if (offset != nullptr)
@@ -155,6 +152,14 @@ void BaseWriter::CheckStream(const std::string &error) const
         throw std::runtime_error(error);
 }
 
+uint64_t BaseWriter::Position() const
+{
+    auto position = static_cast<std::streamoff>(out_stream_.tellp());
+    if (position < 0)
+        throw std::runtime_error("BaseWriter: Error while getting the position in the stream.");
+    return static_cast<uint64_t>(position);
+}
+
 void BaseWriter::Close()
 {
     if (!open_)
@@ -164,7 +169,7 @@ void BaseWriter::Close()
 
     // Set hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
-    evlr_offset_ = out_stream_.tellp();
+    evlr_offset_ = Position();
     evlr_count_ = 0;
 
     WriteWKT();
-- 
2.43.0


From a5cb4ae4da4e023914fc450b4a44274d49490ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 22/34] fix: refuse data that has no points, pages outside the
 octree, and page changes after Close

---
 .../copc-lib/io/internal/copc_writer_internal.hpp        | 3 +++
 cpp/src/io/copc_writer_public.cpp                        | 9 ++++++++-
 cpp/src/io/laz_writer.cpp                                | 4 +++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 9f3fc61..6ffe17b 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -22,6 +22,9 @@ class WriterInternal : laz::BaseWriter
     // Call close on destructor if needed
     ~WriterInternal();
 
+    // False once Close has succeeded
+    bool IsOpen() const { return open_; }
+
     // Writes a chunk to the laz file
     Entry WriteNode(const std::vector<char> &in, int32_t point_count, bool compressed);
 
diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ce987ea..6b9a4c3 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -88,6 +88,9 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
 {
     if (!page_key.IsValid() || !key.IsValid())
         throw std::runtime_error("Invalid page or node key!");
+    // Otherwise the page could not be linked to the root page
+    if (!page_key.ChildOf(VoxelKey::RootKey()))
+        throw std::runtime_error("Page key " + page_key.ToString() + " is not a child of the root!");
     // TODO[leo]: Check if node already loaded
 
     if (!key.ChildOf(page_key))
@@ -137,14 +140,18 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
+    if (compressed_data.empty())
+        throw std::runtime_error("Writer::AddNodeCompressed: Empty point data array.");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
 }
 
 void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_key)
 {
+    if (!writer_->IsOpen())
+        throw std::runtime_error("Writer::ChangeNodePage: The writer is closed!");
     if (!node_key.IsValid())
         throw std::runtime_error("Writer::ChangeNodePage: Node Key " + node_key.ToString() + " is invalid.");
     if (!new_page_key.IsValid())
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..9b9bddb 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,8 +29,10 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
+    if (compressed_data.empty())
+        throw std::runtime_error("LazWriter::WritePointsCompressed: Empty point data array.");
 
     WriteChunk(compressed_data, point_count, true);
 }
-- 
2.43.0


From 27ba330bd69e09b3c17e41d15c53292cdfb51366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 23/34] fix: AddNode and ChangeNodePage leave the hierarchy as
 it was when they fail

---
 cpp/src/io/copc_writer_public.cpp | 49 +++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 6b9a4c3..c30d9a9 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -96,20 +96,36 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
     if (!key.ChildOf(page_key))
         throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
 
-    Entry e = writer_->WriteNode(in, point_count, compressed_data);
-    e.key = key;
-
-    auto node = std::make_shared<Node>(e, page_key);
-    hierarchy_->loaded_nodes_[key] = node;
-    // If page doesn't exist then create it
-    if (!PageExists(page_key))
+    // Everything that can fail comes first, so that an operation that fails leaves the hierarchy as it was
+    auto node = std::make_shared<Node>();
+    std::unordered_map<VoxelKey, std::shared_ptr<Node>> loaded_nodes{{key, node}}, page_nodes{{key, node}};
+    std::unordered_map<VoxelKey, std::shared_ptr<Internal::PageInternal>> seen_pages;
+    std::shared_ptr<Internal::PageInternal> page;
+    if (PageExists(page_key))
     {
-        auto new_page = std::make_shared<Internal::PageInternal>(page_key);
-        new_page->loaded = true;
-        hierarchy_->seen_pages_[page_key] = new_page;
+        page = hierarchy_->seen_pages_[page_key];
+    }
+    else
+    {
+        // If page doesn't exist then create it
+        page = std::make_shared<Internal::PageInternal>(page_key);
+        page->loaded = true;
+        seen_pages[page_key] = page;
     }
-    // Add node to page
-    hierarchy_->seen_pages_[page_key]->nodes[node->key] = node;
+    hierarchy_->loaded_nodes_.reserve(hierarchy_->loaded_nodes_.size() + 1);
+    hierarchy_->seen_pages_.reserve(hierarchy_->seen_pages_.size() + 1);
+    page->nodes.reserve(page->nodes.size() + 1);
+
+    Entry e = writer_->WriteNode(in, point_count, compressed_data);
+    e.key = key;
+    *node = Node(e, page_key);
+
+    // Add node to hierarchy and page, nothing here allocates
+    hierarchy_->loaded_nodes_.erase(key);
+    hierarchy_->loaded_nodes_.merge(loaded_nodes);
+    page->nodes.erase(key);
+    page->nodes.merge(page_nodes);
+    hierarchy_->seen_pages_.merge(seen_pages);
     return *node;
 }
 
@@ -174,11 +190,14 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     {
         auto new_page = std::make_shared<Internal::PageInternal>(new_page_key);
         new_page->loaded = true;
+        new_page->nodes[node_key] = node;
         hierarchy_->seen_pages_[new_page_key] = new_page;
     }
-
-    // Add node to new page
-    hierarchy_->seen_pages_[new_page_key]->nodes[node_key] = node;
+    else
+    {
+        // Add node to new page
+        hierarchy_->seen_pages_[new_page_key]->nodes[node_key] = node;
+    }
 
     // Remove node from old page
     auto old_page_key = node->page_key;
-- 
2.43.0


From 085bac815aa35da2efc298db953da9d9e03cfdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 24/34] fix: opening a file does not depend on the stream
 telling its position

---
 cpp/src/io/base_reader.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 2a12770..01886ec 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -62,12 +62,12 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     auto file_size = StreamSize();
 
     // Move stream to beginning of VLRs
-    Seek(reader_->header().header_size);
+    uint64_t cur_pos = reader_->header().header_size;
+    Seek(cur_pos);
 
     // Iterate through all vlr's and add them to the `vlrs` list
     for (int i = 0; i < reader_->header().vlr_count; i++)
     {
-        uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
         CheckStream("VLR header");
         auto data_pos = cur_pos + las::VLR_HEADER_SIZE;
@@ -75,17 +75,18 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
             throw std::runtime_error("BaseReader::ReadVlrHeaders: VLR goes past the end of the file.");
         out.insert({cur_pos, h});
 
-        Seek(data_pos + h.data_length); // jump foward
+        cur_pos = data_pos + h.data_length;
+        Seek(cur_pos); // jump foward
     }
 
     // Move stream to beginning of EVLRs
+    cur_pos = reader_->header().evlr_offset;
     if (reader_->header().evlr_count > 0)
-        Seek(reader_->header().evlr_offset);
+        Seek(cur_pos);
 
     // Iterate through all vlr's and add them to the `vlrs` list
     for (uint32_t i = 0; i < reader_->header().evlr_count; i++)
     {
-        uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
         CheckStream("EVLR header");
         auto data_pos = cur_pos + las::EVLR_HEADER_SIZE;
@@ -93,7 +94,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
             throw std::runtime_error("BaseReader::ReadVlrHeaders: EVLR goes past the end of the file.");
         out.insert({cur_pos, h});
 
-        Seek(data_pos + h.data_length); // jump foward
+        cur_pos = data_pos + h.data_length;
+        Seek(cur_pos); // jump foward
     }
 
     return out;
-- 
2.43.0


From c4ba62dd476ebc8338a3a88d304ea5c9b25c456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 25/34] fix: ship headers whose text fields are not valid UTF-8
 to other processes

---
 python/bindings.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..694af82 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -506,11 +506,12 @@ PYBIND11_MODULE(_core, m)
         .def(py::pickle(
             [](const las::LasHeader &h) { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                return py::make_tuple(h.file_source_id, h.global_encoding, h.GUID(), h.SystemIdentifier(),
-                                      h.GeneratingSoftware(), h.creation_day, h.creation_year, h.PointOffset(),
-                                      h.VlrCount(), h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(),
-                                      h.max, h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
-                                      h.IsCopc());
+                // The text fields are raw bytes in the file and need not be valid UTF-8
+                return py::make_tuple(h.file_source_id, h.global_encoding, py::bytes(h.GUID()),
+                                      py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware()),
+                                      h.creation_day, h.creation_year, h.PointOffset(), h.VlrCount(),
+                                      h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(), h.max, h.min,
+                                      h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return, h.IsCopc());
             },
             [](const py::tuple &t) { // __setstate__
                 if (t.size() != 20)
-- 
2.43.0


From c44c3695991f9bf0b31ddd292fe30cf84189e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 26/34] fix: return an empty array from
 read_concat_xyz_class_limit when no node is selected

---
 python/copclib/mp/read.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/copclib/mp/read.py b/python/copclib/mp/read.py
index e2a90df..b925a20 100644
--- a/python/copclib/mp/read.py
+++ b/python/copclib/mp/read.py
@@ -171,8 +171,8 @@ def read_concat_xyz_class_limit(
         if invalid_arg in kwargs:
             raise RuntimeError(f"Invalid kwarg '{invalid_arg}'!")
 
-    # Container of all XYZ points
-    all_xyz = []
+    # Container of all XYZ points; starts with no points, in case there are no nodes
+    all_xyz = [np.empty((0, 3))]
 
     # After each node is done, add the array of that node's XYZ coordinates
     # to our container
-- 
2.43.0


From 14284c29976b52970919124890719530e9671c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 27/34] fix: refuse transformed points whose record layout is
 not the writer's

---
 python/copclib/mp/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index cc2a00b..232e84e 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -217,6 +217,14 @@ def _transform_node(
         xyz_max = [max(points.x), max(points.y), max(points.z)]
 
     point_count = len(points)
+    # Points of another record layout can't be written with this header
+    if point_count > 0 and (
+        points.point_format_id != writer_header.point_format_id
+        or points.point_record_length != writer_header.point_record_length
+    ):
+        raise RuntimeError(
+            "The points returned by the transform_function don't have the writer's point format or record length!"
+        )
     # Repack and compress the points using the new writer header
     compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0


From 45587b5e0f8a93db6c7483096b65d4a33ad92584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:05 +0000
Subject: [PATCH 28/34] fix: a GUID with zero bytes survives writing and
 reading

The GUID is sixteen binary bytes. It was copied as a C string in both
directions, so everything after its first zero byte was lost.
---
 cpp/src/las/header.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 79c377d..b36cc8b 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -1,6 +1,8 @@
 #include "copc-lib/las/header.hpp"
 
+#include <algorithm>
 #include <cstring>
+#include <iterator>
 #include <limits>
 #include <stdexcept>
 #include <string>
@@ -58,10 +60,12 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    // The fixed size fields have no terminating zero when they are full
-    h.guid_ = std::string(header.guid, strnlen(header.guid, 16));
+    // The GUID is binary: a zero byte is part of it, unless only zeros follow
+    h.guid_ = std::string(header.guid, sizeof(header.guid));
+    h.guid_.erase(h.guid_.find_last_not_of('\0') + 1);
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
+    // The fixed size fields have no terminating zero when they are full
     h.system_identifier_ = std::string(header.system_identifier, strnlen(header.system_identifier, 32));
     h.generating_software_ = std::string(header.generating_software, strnlen(header.generating_software, 32));
     h.creation_day = header.creation.day;
@@ -103,7 +107,8 @@ lazperf::header14 LasHeader::ToLazPerf(uint32_t point_offset, uint64_t point_cou
     h.file_source_id = file_source_id;
     h.global_encoding = global_encoding;
     h.global_encoding |= (1 << 4); // Set the WKT bit.
-    std::strncpy(h.guid, guid_.c_str(), 16);
+    std::fill(std::begin(h.guid), std::end(h.guid), '\0');
+    std::copy_n(guid_.begin(), std::min<size_t>(guid_.size(), sizeof(h.guid)), std::begin(h.guid));
     h.version.major = version_major_;
     h.version.minor = version_minor_;
     std::strncpy(h.system_identifier, system_identifier_.c_str(), 32);
-- 
2.43.0


From 144ce96ee376e2ef7bc1c82928c862773762210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 29/34] fix: refuse extra bytes the format cannot hold

---
 cpp/include/copc-lib/io/laz_base_writer.hpp |  3 +++
 cpp/include/copc-lib/las/vlr.hpp            |  3 +++
 cpp/src/io/copc_writer_public.cpp           |  3 +--
 cpp/src/las/laz_config.cpp                  |  4 ++--
 cpp/src/las/vlr.cpp                         | 15 ++++++++++++++-
 5 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index f815b33..5aa26b3 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <ostream>
 #include <stdexcept>
@@ -26,6 +27,8 @@ class BaseWriter
     BaseWriter(std::ostream &out_stream, std::shared_ptr<las::LazConfig> laz_config)
         : out_stream_(out_stream), config_(std::move(laz_config)), open_(true)
     {
+        if (config_->ExtraBytesVlr().size() > (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("BaseWriter: The extra bytes do not fit in a VLR!");
     }
 
     int32_t WriteChunk(const std::vector<char> &in, int32_t point_count = 0, bool compressed = false,
diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..0498f60 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -19,6 +19,9 @@ static const int EVLR_HEADER_SIZE = 60;
 // Gets the sum of the byte size the extra bytes will take up, for calculating point_record_len
 int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items);
 
+// Gets the point_record_len of a point format with extra bytes, throws if it is more than the LAS header can hold
+uint16_t PointByteSizeFromExtraBytes(const int8_t &point_format_id, const std::vector<EbVlr::ebfield> &items);
+
 class VlrHeader : public lazperf::evlr_header
 {
   public:
diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index c30d9a9..3df8b82 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -42,8 +42,7 @@ void Writer::InitWriter(std::ostream &out_stream, const CopcConfigWriter &copc_c
             new_has_extended_stats = *has_extended_stats;
 
         las::LasHeader new_header(copc_config_writer.LasHeader(), new_point_format_id,
-                                  las::PointBaseByteSize(new_point_format_id) +
-                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items),
+                                  las::PointByteSizeFromExtraBytes(new_point_format_id, new_extra_bytes_vlr.items),
                                   new_scale, new_offset);
 
         copc::CopcExtents new_extents(copc_config_writer.CopcExtents(), new_point_format_id,
diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 8452046..9c0fc77 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -14,8 +14,8 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("LasConfig: Supported point formats are 6 to 8.");
     header_ = std::make_shared<las::LasHeader>(
-        point_format_id, las::PointBaseByteSize(point_format_id) + las::NumBytesFromExtraBytes(extra_bytes_vlr.items),
-        scale, offset, copc_flag);
+        point_format_id, las::PointByteSizeFromExtraBytes(point_format_id, extra_bytes_vlr.items), scale, offset,
+        copc_flag);
     eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
 }
 
diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..240df56 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -1,4 +1,7 @@
 #include "copc-lib/las/vlr.hpp"
+
+#include <limits>
+
 #include "copc-lib/las/utils.hpp"
 
 namespace copc::las
@@ -14,12 +17,22 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
-        else
+        else if (item.data_type < sizeof(EXTRA_BYTE_DATA_TYPE))
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
+        else
+            throw std::runtime_error("NumBytesFromExtraBytes: Unknown extra byte data type.");
     }
     return out;
 }
 
+uint16_t PointByteSizeFromExtraBytes(const int8_t &point_format_id, const std::vector<EbVlr::ebfield> &items)
+{
+    auto point_record_length = PointBaseByteSize(point_format_id) + NumBytesFromExtraBytes(items);
+    if (point_record_length > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("PointByteSizeFromExtraBytes: Point record is too long.");
+    return static_cast<uint16_t>(point_record_length);
+}
+
 VlrHeader::VlrHeader(const lazperf::vlr_header &vlr_header) : evlr_flag(false)
 {
     reserved = vlr_header.reserved;
-- 
2.43.0


From 9cf3a96b41ff01c009452b84057261e6d85c4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 30/34] fix: find extra bytes and extents that are stored as
 EVLRs

---
 cpp/include/copc-lib/las/vlr.hpp | 3 +++
 cpp/src/io/base_reader.cpp       | 4 ++--
 cpp/src/io/copc_reader.cpp       | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 0498f60..8bba201 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -32,6 +32,9 @@ class VlrHeader : public lazperf::evlr_header
     VlrHeader(const lazperf::vlr_header &vlr_header);
     VlrHeader(const VlrHeader &vlr_header);
 
+    // Size of the header itself, that is how far behind its start the data begins
+    int HeaderSize() const { return evlr_flag ? EVLR_HEADER_SIZE : VLR_HEADER_SIZE; }
+
     lazperf::vlr_header ToLazperfVlrHeader() const;
     lazperf::evlr_header ToLazperfEvlrHeader() const;
 };
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 01886ec..05c8fd8 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -106,7 +106,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     if (offset != 0)
     {
         // The WKT can be stored as a VLR or as an EVLR
-        Seek(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
+        Seek(offset + vlrs[offset].HeaderSize());
         auto wkt = las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
         CheckStream("WKT VLR");
         return wkt;
@@ -119,7 +119,7 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        Seek(offset + las::VLR_HEADER_SIZE);
+        Seek(offset + vlrs[offset].HeaderSize());
         auto eb = las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
         CheckStream("extra bytes VLR");
         return eb;
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 2086cfc..c47e1ff 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -49,7 +49,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        Seek(offset + las::VLR_HEADER_SIZE);
+        Seek(offset + vlrs[offset].HeaderSize());
         auto extents_vlr = las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
         CheckStream("COPC Extents VLR");
         CopcExtents extents(extents_vlr, static_cast<int8_t>(reader_->header().point_format_id),
@@ -58,7 +58,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            Seek(extended_offset + las::VLR_HEADER_SIZE);
+            Seek(extended_offset + vlrs[extended_offset].HeaderSize());
             auto extended_vlr =
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length));
             CheckStream("COPC extended stats VLR");
-- 
2.43.0


From 89688afa851d6a39a84dda28bda95d3d4cbc0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 31/34] fix: make a closed file reader throw instead of using a
 deleted stream

---
 cpp/include/copc-lib/io/copc_reader.hpp | 8 ++++++--
 cpp/include/copc-lib/io/laz_reader.hpp  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index fade208..a74ee05 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -104,15 +104,19 @@ class FileReader : public Reader
     {
         if (is_open_)
         {
+            // The stream itself stays until the end, reading from it fails from here on
             dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
             is_open_ = false;
         }
     }
 
     std::string FilePath() { return file_path_; }
 
-    ~FileReader() { Close(); }
+    ~FileReader()
+    {
+        Close();
+        delete in_stream_;
+    }
 
   private:
     bool is_open_;
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index abec446..e294f93 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -44,15 +44,19 @@ class LazFileReader : public LazReader
     {
         if (is_open_)
         {
+            // The stream itself stays until the end, reading from it fails from here on
             dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
             is_open_ = false;
         }
     }
 
     std::string FilePath() { return file_path_; }
 
-    ~LazFileReader() { Close(); }
+    ~LazFileReader()
+    {
+        Close();
+        delete in_stream_;
+    }
 
   private:
     bool is_open_;
-- 
2.43.0


From 21e27f110e60e2f58840182ee3d05c753969a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 32/34] fix: refuse LAZ files whose record length changed since
 they were opened

---
 cpp/src/io/laz_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 3107596..96f1944 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -13,6 +13,9 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
+    // The file may have been replaced since its header was read
+    if (reader.header().point_record_length != point_size)
+        throw std::runtime_error("LazReader::GetPointData: The point record length of the file has changed.");
     // A point record can be bigger than 255 bytes when it has extra bytes
     std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
-- 
2.43.0


From 73c5e3e3dede93faad9ce42c16807ae057a3192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 33/34] fix: order sub pages by key, so that files do not
 depend on memory addresses

---
 .../copc-lib/hierarchy/internal/page.hpp       | 18 +++++++++++++++++-
 cpp/src/io/copc_base_io.cpp                    |  6 ++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/page.hpp b/cpp/include/copc-lib/hierarchy/internal/page.hpp
index f4ab4e1..7c39936 100644
--- a/cpp/include/copc-lib/hierarchy/internal/page.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/page.hpp
@@ -1,7 +1,9 @@
 #ifndef COPCLIB_HIERARCHY_PAGE_INTERNAL_H_
 #define COPCLIB_HIERARCHY_PAGE_INTERNAL_H_
 
+#include <memory>
 #include <set>
+#include <tuple>
 #include <unordered_map>
 #include <utility>
 
@@ -10,6 +12,14 @@
 namespace copc::Internal
 {
 class PageInternal;
+
+// Orders pages by their key: what is written and listed must not depend on where the pages are in memory
+struct PageKeyLess
+{
+    bool operator()(const std::shared_ptr<PageInternal> &a, const std::shared_ptr<PageInternal> &b) const;
+};
+using PageSet = std::set<std::shared_ptr<PageInternal>, PageKeyLess>;
+
 // This internal class allows for tracking of a page's subpages and nodes without exposing them to the user
 class PageInternal : public Page
 {
@@ -18,10 +28,16 @@ class PageInternal : public Page
     PageInternal(VoxelKey key, int64_t offset, int32_t byte_size) : Page(key, offset, byte_size){};
     PageInternal(VoxelKey key) : Page(key, -1, -1){};
 
-    std::set<std::shared_ptr<PageInternal>> sub_pages;
+    PageSet sub_pages;
     std::unordered_map<VoxelKey, std::shared_ptr<Node>> nodes;
 };
 
+inline bool PageKeyLess::operator()(const std::shared_ptr<PageInternal> &a,
+                                    const std::shared_ptr<PageInternal> &b) const
+{
+    return std::tie(a->key.d, a->key.x, a->key.y, a->key.z) < std::tie(b->key.d, b->key.x, b->key.y, b->key.z);
+}
+
 } // namespace copc::Internal
 
 #endif // COPCLIB_HIERARCHY_PAGE_INTERNAL_H_
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index c68cf19..0b454e7 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -31,9 +31,7 @@ void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &pa
 {
     // The pages from the given one down to the current one, each with its next sub page.
     // Only the file limits how deep pages are nested, so this is not done by recursion.
-    std::vector<std::pair<std::shared_ptr<Internal::PageInternal>,
-                          std::set<std::shared_ptr<Internal::PageInternal>>::const_iterator>>
-        path;
+    std::vector<std::pair<std::shared_ptr<Internal::PageInternal>, Internal::PageSet::const_iterator>> path;
     auto enter = [&](const std::shared_ptr<Internal::PageInternal> &entered)
     {
         if (!entered->IsValid())
@@ -66,7 +64,7 @@ void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &pag
     auto children = ReadPage(page);
 
     // Build everything before the hierarchy is touched, so that a page that fails to load is left as it was
-    std::set<std::shared_ptr<Internal::PageInternal>> sub_pages;
+    Internal::PageSet sub_pages;
     std::unordered_map<VoxelKey, std::shared_ptr<Internal::PageInternal>> seen_pages;
     std::unordered_map<VoxelKey, std::shared_ptr<Node>> nodes;
     for (const Entry &e : children)
-- 
2.43.0


From 35b7e42673b15102a877deedadc6c2f74860b266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:57 +0000
Subject: [PATCH 34/34] fix: update the bounds to those of the points as they
 are written

---
 python/copclib/mp/transform.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index 232e84e..247a671 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -209,13 +209,6 @@ def _transform_node(
         points = ret
         return_vals = {}
 
-    # compute the minimum and maximum of the node's points, if necessary
-    xyz_min = None
-    xyz_max = None
-    if update_minmax and len(points) > 0:
-        xyz_min = [min(points.x), min(points.y), min(points.z)]
-        xyz_max = [max(points.x), max(points.y), max(points.z)]
-
     point_count = len(points)
     # Points of another record layout can't be written with this header
     if point_count > 0 and (
@@ -225,6 +218,16 @@ def _transform_node(
         raise RuntimeError(
             "The points returned by the transform_function don't have the writer's point format or record length!"
         )
-    # Repack and compress the points using the new writer header
-    compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
+    # Repack the points using the new writer header
+    packed_points = points.Pack(writer_header)
+
+    # compute the minimum and maximum of the node's points as they get written, if necessary
+    xyz_min = None
+    xyz_max = None
+    if update_minmax and point_count > 0:
+        points = copc.Points.Unpack(packed_points, writer_header)
+        xyz_min = [min(points.x), min(points.y), min(points.z)]
+        xyz_max = [max(points.x), max(points.y), max(points.z)]
+
+    compressed_points = copc.CompressBytes(packed_points, writer_header)
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0

