From 8d8dd7df23cc73191e23205d18a607e6539726a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 01/94] fix: compare blob offsets and sizes without truncating
 their difference

---
 arki/types/source/blob.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arki/types/source/blob.cc b/arki/types/source/blob.cc
index 6eb6b23..95a800e 100644
--- a/arki/types/source/blob.cc
+++ b/arki/types/source/blob.cc
@@ -76,9 +76,15 @@ int Blob::compare_local(const Source& o) const
         return -1;
     if (filename > v->filename)
         return 1;
-    if (int res = offset - v->offset)
-        return res;
-    return size - v->size;
+    if (offset < v->offset)
+        return -1;
+    if (offset > v->offset)
+        return 1;
+    if (size < v->size)
+        return -1;
+    if (size > v->size)
+        return 1;
+    return 0;
 }
 
 bool Blob::equals(const Type& o) const
-- 
2.43.0


From c8f52f87b89cbe8c7731df0288474e5ba887aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 02/94] fix: BUFR product type overwrote the metadata type in
 python structures

---
 arki/structured/keys.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/structured/keys.cc b/arki/structured/keys.cc
index 5169925..97046c3 100644
--- a/arki/structured/keys.cc
+++ b/arki/structured/keys.cc
@@ -114,7 +114,7 @@ static Keys make_python()
     res.product_number               = "number";
     res.product_table_version        = "table_version";
     res.product_local_table_version  = "local_table_version";
-    res.product_type                 = "type";
+    res.product_type                 = "product_type";
     res.product_subtype              = "subtype";
     res.product_local_subtype        = "local_subtype";
     res.product_value                = "value";
-- 
2.43.0


From 9c70073fdf6f89f4507f5b55223e97cd147dc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 03/94] fix: quote value bag strings which contain separators,
 so that they can be parsed back

---
 arki/types/values.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index ef47a35..5537c73 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -57,6 +57,11 @@ static bool needsQuoting(const std::string& str)
     if (str.find('\0', 0) != std::string::npos)
         return true;
 
+    // Strings containing characters that terminate an unquoted value
+    for (char c : str)
+        if (isspace(static_cast<unsigned char>(c)) || c == ',' || c == ';')
+            return true;
+
     // Otherwise, no quoting is neeed as decoding should be unambiguous
     return false;
 }
-- 
2.43.0


From 11233ea347fd6cbb2466617d95f50da5acbaee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 04/94] fix: compare value bag integers without overflowing

---
 arki/types/values.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/types/values.cc b/arki/types/values.cc
index 5537c73..26c6a49 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -351,7 +351,10 @@ public:
             return res;
         switch (type_id())
         {
-            case 1: return as_int() - v.as_int();
+            case 1: {
+                int a = as_int(), b = v.as_int();
+                return a < b ? -1 : a > b ? 1 : 0;
+            }
             case 2: return as_string().compare(v.as_string());
             default:
                 throw std::runtime_error(
-- 
2.43.0


From 3dfa89b4bbbef4f9cf311e4fee52849cbdde43a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:34 +0000
Subject: [PATCH 05/94] fix: notice when inline data is truncated reading from
 an abstract input file

---
 arki/metadata.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..711bacc 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -585,7 +585,15 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
     // Read the inline data
-    fd.read(buf.data(), si->size);
+    for (size_t pos = 0; pos < buf.size();)
+    {
+        size_t res = fd.read(buf.data() + pos, buf.size() - pos);
+        if (res == 0)
+            throw std::runtime_error(
+                fd.path().native() +
+                ": inline data not found after arkimet metadata");
+        pos += res;
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
-- 
2.43.0


From e19d8cd8345ed3eeee3ab0686137b2fedf0fae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 06/94] fix: write and read back Yaml metadata with more than
 one note

---
 arki/metadata.cc        | 4 +---
 arki/metadata/reader.cc | 4 +++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 711bacc..169b623 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -691,11 +691,9 @@ std::string Metadata::to_yaml(const Formatter* formatter) const
             buf << **i << endl;
         else
         {
+            buf << endl;
             for (; i != notes_end; ++i)
-            {
-                buf << endl;
                 buf << " " << **i << endl;
-            }
         }
     }
 
diff --git a/arki/metadata/reader.cc b/arki/metadata/reader.cc
index ad17fa2..59209b9 100644
--- a/arki/metadata/reader.cc
+++ b/arki/metadata/reader.cc
@@ -239,7 +239,9 @@ std::shared_ptr<Metadata> YamlReader::read(bool read_inline)
         switch (type)
         {
             case TYPE_NOTE:
-                res->add_note(types::Note::decodeString(val));
+                // There can be more than one note, one per line
+                for (const auto& note : utils::str::Split(val, "\n", true))
+                    res->add_note(types::Note::decodeString(note));
                 break;
             case TYPE_SOURCE:
                 res->set_source(
-- 
2.43.0


From 6b8d89e6a75bcdc03fa1a7c47b4a0dcfcb095654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 07/94] fix: read 64 bit offsets from gzip indices

---
 arki/utils/compress.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 8540afd..512f083 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -222,8 +222,8 @@ void SeekIndex::read(sys::File& fd)
     core::BinaryDecoder dec(diskidx);
     for (size_t i = 0; i < idxcount; ++i)
     {
-        ofs_unc.push_back(ofs_unc[i] + dec.pop_uint(8, "uncompressed index"));
-        ofs_comp.push_back(ofs_comp[i] + dec.pop_uint(8, "compressed index"));
+        ofs_unc.push_back(ofs_unc[i] + dec.pop_ulint(8, "uncompressed index"));
+        ofs_comp.push_back(ofs_comp[i] + dec.pop_ulint(8, "compressed index"));
     }
 }
 
-- 
2.43.0


From a590cb62970701d1cee705d9312d637198a722d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 08/94] fix: convert segments which have no summary file

---
 arki/segment/metadata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 0e37b2e..2674cbe 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -722,7 +722,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -768,7 +768,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -816,7 +816,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
-- 
2.43.0


From 33841755f2bbeb8571f25d63ec26a140c7791e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 09/94] fix: repacking a gzip segment with an index replaced
 the wrong file

---
 arki/segment/data/gz.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 0bab34b..43f32f6 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -271,7 +271,7 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], this->segment().abspath());
+                std::filesystem::rename(tmpfiles[0], gzabspath);
                 if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
                     std::filesystem::remove(gzidxabspath);
             };
-- 
2.43.0


From df9ed8713bb635d6619c98a9fde6e1b4f86f2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 10/94] fix: alternatives in a reftime expression were
 intersected instead of joined

---
 arki/matcher/utils.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..b23474e 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,15 +194,30 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
-    for (auto i : components)
+    if (components.empty())
+        return true;
+
+    // A time matches if it matches any of the components: compute the smallest
+    // interval that contains what each of them selects
+    bool found = false;
+    core::Interval res;
+    for (const auto& i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval selected(interval);
+        if (!rt->intersect_interval(selected))
+            continue;
+        if (found)
+            res.extend(selected);
+        else
+            res = selected;
+        found = true;
     }
-    return true;
+    if (found)
+        interval = res;
+    return found;
 }
 
 std::string OR::toReftimeSQL(const std::string& column) const
-- 
2.43.0


From b3fb45e1e6cf15a4d56a1432a4da198f0b354faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 11/94] fix: sorting with an interval ignored the interval when
 sorting buffered metadata

---
 arki/metadata/sort.cc | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 43c985b..1a2a0fc 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -111,8 +111,38 @@ struct IntervalCompare : public Items
 
     Interval interval() const override { return m_interval; }
 
+    /// Return the beginning of the interval that contains the given time
+    Time truncate(Time t) const
+    {
+        switch (m_interval)
+        {
+            case YEAR:   t.mo = 1; // Falls through
+            case MONTH:  t.da = 1; // Falls through
+            case DAY:    t.ho = 0; // Falls through
+            case HOUR:   t.mi = 0; // Falls through
+            case MINUTE: t.se = 0; // Falls through
+            default:     break;
+        }
+        return t;
+    }
+
     int compare(const Metadata& a, const Metadata& b) const override
     {
+        // Group by interval, then order the contents of each group
+        if (m_interval != NONE)
+        {
+            const Reftime* rta = a.get<Reftime>();
+            const Reftime* rtb = b.get<Reftime>();
+            if (rta && rtb)
+            {
+                int cmp = truncate(rta->get_Position())
+                              .compare(truncate(rtb->get_Position()));
+                if (cmp != 0)
+                    return cmp;
+            }
+            else if (rta || rtb)
+                return rta ? 1 : -1;
+        }
         return Items::compare(a, b);
     }
 
-- 
2.43.0


From 0cc4f1dc1d6746e3e7b11d9f67ac52d5a14085ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 12/94] fix: stop producing sorted data when the consumer asks
 to stop

---
 arki/dataset/simple/reader.cc | 6 ++++--
 arki/metadata/sort.cc         | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 17d1a80..a923bf3 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -67,8 +67,10 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         auto segment = dataset().segment_session->segment_from_relpath(
             segmentinfo.relpath);
         auto reader = segment->reader(lock);
-        reader->query_data(
-            q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
+        if (!reader->query_data(q, [&](std::shared_ptr<Metadata> md) {
+                return sorter.add(md);
+            }))
+            return track.done(false);
         if (!sorter.flush())
             return track.done(false);
     }
diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 1a2a0fc..f7b6c39 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -233,7 +233,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
         auto time = rt->get_Position();
         if (hasInterval && (!endofperiod.get() || time > *endofperiod))
         {
-            flush();
+            if (!flush())
+                return false;
             buffer.push_back(m);
             setEndOfPeriod(time);
         }
@@ -242,8 +243,8 @@ bool Stream::add(std::shared_ptr<Metadata> m)
     }
     else
     {
-        if (hasInterval)
-            flush();
+        if (hasInterval && !flush())
+            return false;
         buffer.push_back(m);
     }
     return true;
-- 
2.43.0


From 1ca4aae221f4c32b59a758b4046cda27c1fcdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 13/94] fix: forget cached summaries when a segment is removed
 from a simple dataset

---
 arki/dataset/simple/checker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 6568bed..800c8d7 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -160,6 +160,7 @@ public:
     {
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
+        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
-- 
2.43.0


From d5b740fcfdf9f4eead92cb2788fcd2912f746266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 14/94] fix: forget cached summaries when a segment of an iseg
 dataset is removed, archived or reindexed

---
 arki/dataset/iseg/checker.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index f119fed..4c1c629 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -65,6 +65,24 @@ public:
             dataset_checker.archive());
     }
 
+    /// Delete the cached summaries that include data from this segment
+    void invalidate_summary_cache()
+    {
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        core::Interval interval;
+        if (!dataset().step().path_timespan(segment->relpath(), interval))
+            return;
+        interval.iter_months([&](const core::Interval& month) {
+            scache.invalidate(month.begin.ye, month.begin.mo);
+            return true;
+        });
+    }
+
+    void pre_remove(std::shared_ptr<segment::Fixer>) override
+    {
+        invalidate_summary_cache();
+    }
+
     segmented::SegmentState fsck(dataset::Reporter& reporter,
                                  bool quick = true) override
     {
@@ -114,6 +132,7 @@ public:
         // Remove .metadata and .summary files
         std::filesystem::remove(segment->abspath_metadata());
         std::filesystem::remove(segment->abspath_summary());
+        invalidate_summary_cache();
     }
 
     void rescan(dataset::Reporter& reporter) override
@@ -130,6 +149,7 @@ public:
 
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_summary_cache();
     }
 
     arki::metadata::Collection
@@ -140,6 +160,7 @@ public:
         auto fixer               = segment_checker->fixer();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
+        invalidate_summary_cache();
         return mds;
     }
 };
-- 
2.43.0


From a09f90c30df2192c58fedc1562704d77bceaba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 15/94] fix: removing data from compressed or archived segments
 was silently ignored

---
 arki/dataset/segmented.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 134e204..368f0fc 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -424,7 +424,13 @@ void Checker::remove(const metadata::Collection& mds)
         auto relpath    = sys::with_suffix(dataset().step()(time),
                                            "."s + format_name(source->format));
 
-        if (!dataset().segment_session->is_segment(relpath))
+        // The segment can also be stored as a compressed file or an archive
+        bool found = false;
+        for (const auto& suffix : {"", ".gz", ".tar", ".zip"})
+            if (dataset().segment_session->is_segment(
+                    sys::with_suffix(relpath, suffix)))
+                found = true;
+        if (!found)
             continue;
 
         by_segment[relpath].emplace(source->offset);
-- 
2.43.0


From c502ccd02a5a130d679c84899410a14286762a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:22 +0000
Subject: [PATCH 16/94] fix: do not return data from a gzip block that failed
 to decompress

---
 arki/utils/compress.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 512f083..b18530e 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -245,6 +245,8 @@ std::vector<uint8_t> SeekIndexReader::read(size_t offset, size_t size)
         // Open the compressed chunk
         int fd1 = fd.dup();
         utils::gzip::File gzfd(fd.path(), fd1, "rb");
+        // Do not leave partial contents around if decompression fails
+        last_group.clear();
         last_group_offset = idx.ofs_unc[block];
         acct::gzip_idx_reposition_count.incr();
 
@@ -257,8 +259,9 @@ std::vector<uint8_t> SeekIndexReader::read(size_t offset, size_t size)
         {
             // Read and uncompress the compressed chunk
             size_t unc_size = idx.ofs_unc[block + 1] - idx.ofs_unc[block];
-            last_group.resize(unc_size);
-            gzfd.read_all_or_throw(last_group.data(), last_group.size());
+            std::vector<uint8_t> group(unc_size);
+            gzfd.read_all_or_throw(group.data(), group.size());
+            last_group = std::move(group);
         }
     }
     size_t group_offset = offset - last_group_offset;
-- 
2.43.0


From a1c80df715b03efdb76d042552a42d7373c49893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 17/94] fix: unarchive segments stored in compressed files

---
 arki/dataset/segmented.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 368f0fc..1a78466 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -299,6 +299,8 @@ void CheckerSegment::unarchive()
     auto arcrelpath          = "last" / segment->relpath();
     metadata::Collection mdc = archives()->release_segment(
         arcrelpath, dataset().segment_session, segment->relpath());
+    // Redo detection of how data is stored, now that data is there
+    segment_checker = segment->checker(lock);
     index(std::move(mdc));
 }
 
-- 
2.43.0


From d20936c513420e6bb8ea3f246cf2ddce52f81240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 18/94] fix: compute the time span of weekly and biweekly
 segments

---
 arki/dataset/step.cc | 113 +++++++++++++++++++++++++++++++------------
 1 file changed, 83 insertions(+), 30 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 62cb1a0..3c3d1b3 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -17,6 +17,39 @@ using arki::core::Time;
 namespace arki {
 namespace dataset {
 
+/// Time span of half a month (the second half starts on the 16th)
+static bool biweek_timespan(int ye, int mo, int biweek,
+                            core::Interval& interval)
+{
+    switch (biweek)
+    {
+        case 1:
+            interval.begin = core::Time::create_lowerbound(ye, mo, 1);
+            interval.end   = core::Time::create_lowerbound(ye, mo, 16);
+            return true;
+        case 2:
+            interval.begin = core::Time::create_lowerbound(ye, mo, 16);
+            interval.end   = interval.begin.start_of_next_month();
+            return true;
+        default: return false;
+    }
+}
+
+/// Time span of a week of a month (the last week ends with the month)
+static bool week_timespan(int ye, int mo, int week, core::Interval& interval)
+{
+    if (week < 1 || week > 5)
+        return false;
+    interval.begin = core::Time::create_lowerbound(ye, mo, (week - 1) * 7 + 1);
+    if (week < 5)
+        interval.end = core::Time::create_lowerbound(ye, mo, week * 7 + 1);
+    else
+        interval.end = interval.begin.start_of_next_month();
+    interval.begin.normalise();
+    interval.end.normalise();
+    return true;
+}
+
 namespace step {
 
 SegmentQuery::SegmentQuery() {}
@@ -251,6 +284,36 @@ struct MonthDayFiles : public BaseFiles
     }
 };
 
+/// Segments named after a month and a part of it
+template <bool (*timespan)(int ye, int mo, int part, core::Interval& interval)>
+struct MonthPartFiles : public BaseFiles
+{
+    using BaseFiles::BaseFiles;
+
+    std::unique_ptr<Regexp> make_regexp() const override
+    {
+        string re = "^(([[:digit:]]{2})-([[:digit:]])\\.([^.]+))" +
+                    dirs.query.extension_re;
+        return unique_ptr<Regexp>(new ERegexp(re, 5));
+    }
+
+    core::Interval to_period(const Regexp& re) const override
+    {
+        core::Interval res;
+        timespan(value, std::stoul(re[2]), std::stoul(re[3]), res);
+        return res;
+    }
+
+    DataFormat to_format(const Regexp& re) const override
+    {
+        return format_from_string(re[4]);
+    }
+    std::filesystem::path to_relpath(const Regexp& re) const override
+    {
+        return re[1];
+    }
+};
+
 Dirs::Dirs(const SegmentQuery& query) : query(query) {}
 
 struct BaseDirs : public Dirs
@@ -648,27 +711,20 @@ struct Biweekly : public BaseStep
 {
     static const char* name() { return "biweekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::MonthPartFiles<biweek_timespan>>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
-        int ye, mo = -1, biweek = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 2)
+        int ye, mo, biweek;
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 3)
             return false;
-
-        switch (biweek)
-        {
-            case 1:
-                interval.begin.set_lowerbound(ye, mo, 1);
-                interval.end.set_lowerbound(ye, mo, 15);
-                break;
-            case 2:
-                interval.begin.set_lowerbound(ye, mo, 15);
-                interval.end.set_lowerbound(ye, mo + 1, 1);
-                interval.end.normalise();
-                break;
-            default: break;
-        }
-        return true;
+        return biweek_timespan(ye, mo, biweek, interval);
     }
 
     std::filesystem::path operator()(const core::Time& time) const override
@@ -687,23 +743,20 @@ struct Weekly : public BaseStep
 {
     static const char* name() { return "weekly"; }
 
+    std::unique_ptr<step::Dirs>
+    explore(const step::SegmentQuery& query) const override
+    {
+        return std::unique_ptr<step::Dirs>(
+            new step::YearDirs<step::MonthPartFiles<week_timespan>>(query));
+    }
+
     bool path_timespan(const std::filesystem::path& path,
                        core::Interval& interval) const override
     {
-        int ye, mo = -1, week = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 2)
+        int ye, mo, week;
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 3)
             return false;
-        int min_da = -1;
-        int max_da = -1;
-        if (week != -1)
-        {
-            min_da = (week - 1) * 7 + 1;
-            max_da = min_da + 7;
-        }
-        // TODO: are these normalised?
-        interval.begin.set_lowerbound(ye, mo, min_da);
-        interval.end.set_lowerbound(ye, mo, max_da);
-        return true;
+        return week_timespan(ye, mo, week, interval);
     }
 
     std::filesystem::path operator()(const core::Time& time) const override
-- 
2.43.0


From d0290215b11b80592a7698a7ef1223127b0a479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 19/94] fix: match times of day against intervals which partly
 cover them

---
 arki/matcher/reftime/parser.cc | 95 +++++++++++-----------------------
 1 file changed, 31 insertions(+), 64 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..0e3b33e 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -66,6 +66,29 @@ static int time_to_seconds(const Time& t)
     return t.ho * 3600 + t.mi * 60 + t.se;
 }
 
+/**
+ * Check if an interval contains instants whose time of day is between ge and
+ * le, both included
+ */
+static bool contains_daytime(const Interval& interval, int ge, int le)
+{
+    if (le < ge || ge >= 3600 * 24)
+        return false;
+    if (!interval.begin.is_set() || !interval.end.is_set())
+        return true;
+
+    long long int duration = Time::duration(interval);
+    if (duration >= 3600 * 24)
+        return true;
+
+    // First and last second covered: the last can be in the following day
+    int first = time_to_seconds(interval.begin);
+    int last  = first + (duration > 0 ? duration - 1 : 0);
+    if (ge <= last && le >= first)
+        return true;
+    return ge + 3600 * 24 <= last && le + 3600 * 24 >= first;
+}
+
 struct DateInterval : public DTMatch
 {
     Interval interval;
@@ -153,13 +176,7 @@ struct TimeLE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) <= ref)
-            return true;
-        if (time_to_seconds(interval.end) <= ref)
-            return true;
-        return false;
+        return contains_daytime(interval, 0, ref);
     }
     string sql(const std::string& column) const override
     {
@@ -178,13 +195,7 @@ struct TimeLT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) < ref)
-            return true;
-        if (time_to_seconds(interval.end) < ref)
-            return true;
-        return false;
+        return contains_daytime(interval, 0, ref - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -203,13 +214,7 @@ struct TimeGT : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) > ref)
-            return true;
-        if (time_to_seconds(interval.end) > ref)
-            return true;
-        return false;
+        return contains_daytime(interval, ref + 1, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -228,13 +233,7 @@ struct TimeGE : public TimeMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        if (time_to_seconds(interval.begin) >= ref)
-            return true;
-        if (time_to_seconds(interval.end) >= ref)
-            return true;
-        return false;
+        return contains_daytime(interval, ref, 3600 * 24 - 1);
     }
     string sql(const std::string& column) const override
     {
@@ -260,25 +259,7 @@ struct TimeEQ : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        // If the times are more than 24hours apart, then we necessarily cover a
-        // whole day
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        if (rb <= re)
-        {
-            if (rb <= geref && leref <= re)
-                return true;
-        }
-        else
-        {
-            if (leref <= re || rb <= geref)
-                return true;
-        }
-
-        return false;
+        return contains_daytime(interval, geref, leref);
     }
     string sql(const std::string& column) const override
     {
@@ -320,23 +301,9 @@ struct TimeExact : public DTMatch
     }
     bool match(const core::Interval& interval) const override
     {
-        if (Time::duration(interval) >= 3600 * 24)
-            return true;
-        int rb = time_to_seconds(interval.begin);
-        int re = time_to_seconds(interval.end);
-        for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
-        {
-            if (rb <= re)
-            {
-                if (*i >= rb && *i <= re)
-                    return true;
-            }
-            else
-            {
-                if (*i >= rb || *i <= re)
-                    return true;
-            }
-        }
+        for (const auto& time : times)
+            if (contains_daytime(interval, time, time))
+                return true;
         return false;
     }
     string sql(const std::string& column) const override
-- 
2.43.0


From 98f7359c4852d1901170ec6359a3c94d6ad58c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 20/94] fix: generate SQL that SQLite accepts for short time
 steps

---
 arki/matcher/reftime/parser.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 0e3b33e..bda00ea 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -310,6 +310,21 @@ struct TimeExact : public DTMatch
     {
         string res = "(";
         bool first = true;
+        // SQLite limits the depth of expressions: a long chain of ORs would be
+        // refused
+        if (times.size() > 500)
+        {
+            res += "TIME(" + column + ") IN (";
+            for (const auto& time : times)
+            {
+                if (first)
+                    first = false;
+                else
+                    res += ",";
+                res += tosqlTime(time);
+            }
+            return res + "))";
+        }
         for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
         {
             if (first)
-- 
2.43.0


From ed5c5249c6a8e72f93bf484c0cb9fe4111182b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:13 +0000
Subject: [PATCH 21/94] fix: refuse zero time steps, and steps starting at
 24:00:00 which matched nothing

---
 arki/matcher/reftime/parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index bda00ea..809efd3 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -478,6 +478,12 @@ DTMatch* Parser::createStep(int val, int idx, const int* tt)
 
     std::set<int> times;
     int repetition = timesecs(val, idx);
+    if (repetition <= 0)
+        throw std::invalid_argument(
+            "cannot parse reftime match expression: the time step is zero");
+
+    // 24:00:00 is midnight
+    timebase %= 3600 * 24;
 
     for (int step = timebase % repetition; step < 3600 * 24; step += repetition)
         times.emplace(step);
-- 
2.43.0


From 884c3143ac48bd07833a3bb5ee1d80d9d211b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 22/94] fix: parse time steps made of several units

---
 arki/matcher/reftime/lexer.cc       | 75 +++++++++++++++++------------
 arki/matcher/reftime/lexer.h        |  3 ++
 arki/matcher/reftime/reftime-lex.ll |  2 +-
 3 files changed, 49 insertions(+), 31 deletions(-)

diff --git a/arki/matcher/reftime/lexer.cc b/arki/matcher/reftime/lexer.cc
index 00e3a56..0ae7cdc 100644
--- a/arki/matcher/reftime/lexer.cc
+++ b/arki/matcher/reftime/lexer.cc
@@ -195,41 +195,56 @@ SParser::SParser(const char* sbuf, unsigned slen, struct LexInterval& res)
     res.val = num();
     eatSpaces();
     itype();
+    eatSpaces();
+    if (!len)
+        return;
+
+    // Combination of hours, minutes and seconds: add them all up in seconds
+    long long int total = seconds(res);
+    while (len)
+    {
+        res.val = num();
+        eatSpaces();
+        itype();
+        eatSpaces();
+        total += seconds(res);
+    }
+    if (total > 3600 * 24)
+        total = 3600 * 24;
+    res.val = total;
+    res.idx = 5;
 }
 
-void SParser::itype()
+long long int SParser::seconds(const LexInterval& val)
 {
-    switch (*buf)
+    switch (val.idx)
     {
-        case 'h': {
-            if (string_in({"h", "hour", "hours"}))
-            {
-                res.idx = 3;
-                return;
-            }
-            error("expected h, hour or hours");
-            break;
-        }
-        case 'm': {
-            if (string_in({"m", "min", "minute", "minutes"}))
-            {
-                res.idx = 4;
-                return;
-            }
-            error("expected m, min, minute, minutes");
-            break;
-        }
-        case 's': {
-            if (string_in({"s", "sec", "second", "seconds"}))
-            {
-                res.idx = 5;
-                return;
-            }
-            error("expected s, sec, second or seconds");
-            break;
-        }
+        case 3:  return val.val * 3600ll;
+        case 4:  return val.val * 60ll;
+        default: return val.val;
     }
-    error("expected a time name like hours, minutes or seconds");
+}
+
+void SParser::itype()
+{
+    // The step can go on after the unit
+    unsigned unit_len = 0;
+    while (unit_len < len && isalpha(buf[unit_len]))
+        ++unit_len;
+    std::string unit(buf, unit_len);
+    buf += unit_len;
+    len -= unit_len;
+
+    if (unit == "h" || unit == "hour" || unit == "hours")
+        res.idx = 3;
+    else if (unit == "m" || unit == "min" || unit == "minute" ||
+             unit == "minutes")
+        res.idx = 4;
+    else if (unit == "s" || unit == "sec" || unit == "second" ||
+             unit == "seconds")
+        res.idx = 5;
+    else
+        error("expected a time name like hours, minutes or seconds");
 }
 
 } // namespace lexer
diff --git a/arki/matcher/reftime/lexer.h b/arki/matcher/reftime/lexer.h
index 0777292..d08edde 100644
--- a/arki/matcher/reftime/lexer.h
+++ b/arki/matcher/reftime/lexer.h
@@ -237,6 +237,9 @@ struct SParser : public ISParser
     SParser(const char* sbuf, unsigned slen, struct LexInterval& res);
 
     void itype();
+
+    /// Duration in seconds of a time step
+    static long long int seconds(const LexInterval& val);
 };
 
 } // namespace lexer
diff --git a/arki/matcher/reftime/reftime-lex.ll b/arki/matcher/reftime/reftime-lex.ll
index ac19db1..4cc4675 100644
--- a/arki/matcher/reftime/reftime-lex.ll
+++ b/arki/matcher/reftime/reftime-lex.ll
@@ -54,7 +54,7 @@ an?{space}+{unit} {
         parse_time(yytext + 1, yyleng - 1, yylval->tspec);
         return TIMEBASE;
 }
-(%|every){space}*[0-9]+{space}*{timeunit} {
+(%|every){space}*[0-9]+{space}*{timeunit}({space}*[0-9]+{space}*{timeunit})* {
         SParser p(yytext, yyleng, yylval->lexInterval);
         return STEP;
 }
-- 
2.43.0


From 76f7c73304450300252c03eab6ac5c17c4e71aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 23/94] fix: format and parse timedef timeranges with a missing
 forecast step

---
 arki/types/timerange.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index 25515f7..bb8e550 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -1719,7 +1719,10 @@ bool Timedef::timeunit_conversion(TimedefUnit unit, int& timemul)
 
 void Timedef::timeunit_output(TimedefUnit unit, uint32_t val, std::ostream& out)
 {
-    out << val << timeunit_suffix(unit);
+    if (unit == UNIT_MISSING)
+        out << "-";
+    else
+        out << val << timeunit_suffix(unit);
 }
 
 bool Timedef::timeunit_parse_suffix(const char*& str, TimedefUnit& unit)
@@ -1814,6 +1817,7 @@ bool Timedef::timeunit_parse(const char*& str, TimedefUnit& unit, uint32_t& val)
         unit = UNIT_MISSING;
         val  = 0;
 
+        ++str;
         skipCommasAndSpaces(str);
         return true;
     }
-- 
2.43.0


From c65eb5bcc8ca9e8b706e9cb9586ebaf3aa88c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 24/94] fix: give GRIB1Unit a fixed underlying type, as it
 holds unknown units

---
 arki/types/timerange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/types/timerange.h b/arki/types/timerange.h
index a5fb629..bd5f256 100644
--- a/arki/types/timerange.h
+++ b/arki/types/timerange.h
@@ -18,7 +18,7 @@ enum class Style : unsigned char {
     TIMEDEF = 4,
 };
 
-enum GRIB1Unit { SECOND = 0, MONTH = 1 };
+enum GRIB1Unit : int { SECOND = 0, MONTH = 1 };
 
 enum TimedefUnit {
     UNIT_MINUTE  = 0,
-- 
2.43.0


From 265c539a35da1a0062202a053a48f3f9ec10c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 25/94] fix: match the processing type of timedef timeranges
 without forecast step

---
 arki/matcher/timerange.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 9866f5c..1af26b0 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -470,8 +470,11 @@ bool MatchTimerangeTimedef::matchItem(const Type& o) const
         int v_step;
         bool v_is_seconds;
         if (!v->get_forecast_step(v_step, v_is_seconds))
-            return step.value == -1;
-        if (step.value != v_step || step_is_seconds != v_is_seconds)
+        {
+            if (step.value != -1)
+                return false;
+        }
+        else if (step.value != v_step || step_is_seconds != v_is_seconds)
             return false;
     }
 
-- 
2.43.0


From db8fab5c31aba14728f13c959a17f5bc635a3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 26/94] fix: keep sections without alternatives when printing a
 matcher

---
 arki/matcher/utils.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index b23474e..ca843a6 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -464,7 +464,9 @@ std::string AND::toString() const
     {
         if (!res.empty())
             res += "; ";
-        res += i.second->toString();
+        std::string expr = i.second->toString();
+        // An expression without alternatives matches any value of its type
+        res += expr.empty() ? types::tag(i.first) + ":" : expr;
     }
     return res;
 }
@@ -479,7 +481,9 @@ std::string AND::toStringExpanded() const
     {
         if (!res.empty())
             res += "; ";
-        res += i.second->toStringExpanded();
+        std::string expr = i.second->toStringExpanded();
+        // An expression without alternatives matches any value of its type
+        res += expr.empty() ? types::tag(i.first) + ":" : expr;
     }
     return res;
 }
-- 
2.43.0


From 3c1680bcec87fe015efca2a17cc4048a0485d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 27/94] fix: resolve aliases that refer to other aliases not
 yet parsed

---
 arki/matcher/aliases.cc | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/arki/matcher/aliases.cc b/arki/matcher/aliases.cc
index 4eda634..caf2937 100644
--- a/arki/matcher/aliases.cc
+++ b/arki/matcher/aliases.cc
@@ -3,8 +3,10 @@
 #include "arki/core/curl.h"
 #include "arki/core/file.h"
 #include "arki/stream.h"
+#include "arki/utils/regexp.h"
 #include "arki/utils/string.h"
 #include "utils.h"
+#include <set>
 #include <string>
 #include <vector>
 
@@ -60,6 +62,11 @@ void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
      * Try multiple times to catch aliases referring to other aliases.
      * We continue until the number of aliases to parse stops decreasing.
      */
+    // Aliases still to be parsed
+    std::set<std::string> pending;
+    for (const auto& alias : aliases)
+        pending.insert(alias.first);
+
     for (size_t pass = 0; !aliases.empty(); ++pass)
     {
         failed.clear();
@@ -67,6 +74,23 @@ void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
         {
             std::unique_ptr<OR> val;
 
+            // Wait for the aliases that this one refers to: for some types of
+            // expression their names would otherwise parse as valid values
+            bool wait = false;
+            Splitter splitter("[ \t]+or[ \t]+", REG_EXTENDED | REG_ICASE);
+            for (Splitter::const_iterator i = splitter.begin(alias.second);
+                 i != splitter.end(); ++i)
+            {
+                std::string name = str::lower(*i);
+                if (name != alias.first && pending.count(name))
+                    wait = true;
+            }
+            if (wait)
+            {
+                failed.push_back(alias);
+                continue;
+            }
+
             // If instantiation fails, try it again later
             try
             {
@@ -87,11 +111,18 @@ void Aliases::add(const MatcherType& type, const core::cfg::Section& entries)
             {
                 j->second = move(val);
             }
+            pending.erase(alias.first);
         }
         if (!failed.empty() && failed.size() == aliases.size())
+        {
             // If no new aliases were successfully parsed, reparse one of the
             // failing ones to raise the appropriate exception
             OR::parse(nullptr, type, failed.front().second);
+
+            // If it is valid without references to other aliases, do not wait
+            // for them
+            pending.clear();
+        }
         aliases = failed;
     }
 }
-- 
2.43.0


From 0451b7454bf101cffccf15d59e6e1989673c2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 28/94] fix: gzip::File::close used the handle it had just
 closed to report errors

---
 arki/utils/gzip.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arki/utils/gzip.cc b/arki/utils/gzip.cc
index c32b207..1f4cc98 100644
--- a/arki/utils/gzip.cc
+++ b/arki/utils/gzip.cc
@@ -72,8 +72,10 @@ void File::close()
 
     int res = gzclose(fd);
     fd      = nullptr;
+    if (res == Z_BUF_ERROR)
+        throw_runtime_error("compressed data is truncated");
     if (res != Z_OK)
-        throw_error("cannot close");
+        throw_runtime_error("cannot close");
 }
 
 void File::fdopen(int fd, const char* mode)
-- 
2.43.0


From 11015e0da95cdfd55817ef157a4536e5f492a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 29/94] fix: reading a zip entry that is shorter than declared
 looped forever

---
 arki/utils/zip.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/utils/zip.cc b/arki/utils/zip.cc
index 0112c9a..d4eda30 100644
--- a/arki/utils/zip.cc
+++ b/arki/utils/zip.cc
@@ -48,6 +48,9 @@ public:
                 zip_fread(file, res.data() + ofs, res.size() - ofs);
             if (len == -1)
                 throw zip_error(file, "cannot read entry data");
+            if (len == 0)
+                throw std::runtime_error(
+                    "cannot read entry data: it is shorter than expected");
             ofs += len;
         }
         return res;
-- 
2.43.0


From c2bbdde5724db601b6c9174e3880c405489bc7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 30/94] fix: checking a truncated .gz segment reports it as
 corrupted instead of failing or missing it

---
 arki/segment/data/gz.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 43f32f6..ac35784 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -8,6 +8,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/compress.h"
 #include "arki/utils/files.h"
+#include "arki/utils/gzip.h"
 #include "arki/utils/sys.h"
 #include "common.h"
 #include <algorithm>
@@ -107,7 +108,19 @@ template <typename Data> struct CheckBackend : public AppendCheckBackend
             return State(SEGMENT_DELETED);
 
         // Decompress all the segment in memory
-        all_data = compress::gunzip(gzabspath);
+        try
+        {
+            gzip::File in(gzabspath, "rb");
+            all_data = in.read_all();
+            // This fails if the compressed data are truncated
+            in.close();
+        }
+        catch (std::exception& e)
+        {
+            reporter("cannot decompress "s + gzabspath.native() + ": " +
+                     e.what());
+            return State(SEGMENT_CORRUPTED);
+        }
 
         return AppendCheckBackend::check();
     }
-- 
2.43.0


From 1dd204ae442530052cf9e54c97fac5274ef1a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 31/94] fix: checking a damaged .zip segment reports it as
 corrupted instead of aborting the whole check

---
 arki/segment/data/zip.cc | 33 ++++++++++++++++++++++++---------
 arki/segment/data/zip.h  |  6 +++++-
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/arki/segment/data/zip.cc b/arki/segment/data/zip.cc
index 4bfa45e..fc6af14 100644
--- a/arki/segment/data/zip.cc
+++ b/arki/segment/data/zip.cc
@@ -284,15 +284,22 @@ std::shared_ptr<const Data> Data::create(const Segment& segment,
 Reader::Reader(shared_ptr<const Data> data,
                std::shared_ptr<const core::ReadLock> lock)
     : data::BaseReader<Data>(data, lock),
-      zip(segment().format(),
-          core::File(data->zipabspath, O_RDONLY | O_CLOEXEC))
+      fd(data->zipabspath, O_RDONLY | O_CLOEXEC)
 {
 }
 
+utils::ZipReader& Reader::zip()
+{
+    if (!m_zip)
+        m_zip = std::make_unique<utils::ZipReader>(segment().format(),
+                                                   std::move(fd));
+    return *m_zip;
+}
+
 bool Reader::scan_data(metadata_dest_func dest)
 {
     // Collect all file names in the directory
-    std::vector<Span> spans = zip.list_data();
+    std::vector<Span> spans = zip().list_data();
 
     // Sort them numerically
     std::sort(spans.begin(), spans.end());
@@ -301,7 +308,7 @@ bool Reader::scan_data(metadata_dest_func dest)
     auto scanner = arki::data::Scanner::get(segment().format());
     for (const auto& span : spans)
     {
-        std::vector<uint8_t> data = zip.get(span);
+        std::vector<uint8_t> data = zip().get(span);
         auto md                   = scanner->scan_data(data);
         md->set_source(
             Source::createBlob(segment().reader(lock), span.offset, span.size));
@@ -314,9 +321,9 @@ bool Reader::scan_data(metadata_dest_func dest)
 
 std::vector<uint8_t> Reader::read(const types::source::Blob& src)
 {
-    vector<uint8_t> buf = zip.get(Span(src.offset, src.size));
+    vector<uint8_t> buf = zip().get(Span(src.offset, src.size));
     acct::plain_data_read_count.incr();
-    iotrace::trace_file(zip.zipname, src.offset, src.size, "read data");
+    iotrace::trace_file(zip().zipname, src.offset, src.size, "read data");
     return buf;
 }
 
@@ -348,9 +355,17 @@ bool Checker::rescan_data(std::function<void(const std::string&)>,
 State Checker::check(std::function<void(const std::string&)> reporter,
                      const Collection& mds, bool quick)
 {
-    CheckBackend checker(segment(), data().zipabspath, reporter, mds);
-    checker.accurate = !quick;
-    return checker.check();
+    try
+    {
+        CheckBackend checker(segment(), data().zipabspath, reporter, mds);
+        checker.accurate = !quick;
+        return checker.check();
+    }
+    catch (std::runtime_error& e)
+    {
+        reporter("cannot read zip file: "s + e.what());
+        return State(SEGMENT_CORRUPTED);
+    }
 }
 
 void Checker::validate(Metadata& md, const arki::data::Validator& v)
diff --git a/arki/segment/data/zip.h b/arki/segment/data/zip.h
index def6751..e383d10 100644
--- a/arki/segment/data/zip.h
+++ b/arki/segment/data/zip.h
@@ -57,7 +57,11 @@ struct Data : public arki::segment::Data
 
 struct Reader : public data::BaseReader<Data>
 {
-    utils::ZipReader zip;
+    core::File fd;
+    std::unique_ptr<utils::ZipReader> m_zip;
+
+    /// Open the archive the first time it is needed
+    utils::ZipReader& zip();
 
     Reader(std::shared_ptr<const Data> data,
            std::shared_ptr<const core::ReadLock> lock);
-- 
2.43.0


From 8115253f6659e97fee4d16479e6c6832dd320ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 32/94] fix: remove-old deleted all archived data, however
 recent

---
 arki/dataset/archive.cc   | 30 +++++++++++++++++++++++++++++-
 arki/dataset/archive.h    |  2 ++
 arki/dataset/segmented.cc |  3 ++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 50b8cfb..567d929 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -1,4 +1,6 @@
 #include "archive.h"
+#include "arki/dataset/reporter.h"
+#include "arki/dataset/time.h"
 #include "arki/matcher.h"
 #include "arki/metadata.h"
 #include "arki/metadata/collection.h"
@@ -399,8 +401,34 @@ void Checker::segments_recursive(
 
 void Checker::remove_old(CheckerConfig& opts)
 {
+    // Archives do not have a delete age of their own: use the one of the
+    // dataset they belong to
+    if (dataset().delete_age == -1)
+        return;
+    const auto threshold =
+        SessionTime::get().age_threshold(dataset().delete_age);
+
     archives->iter([&](dataset::Checker& a) {
-        a.remove_all(opts);
+        auto sc = dynamic_cast<segmented::Checker*>(&a);
+        if (!sc)
+            return true;
+        sc->segments(opts, [&](segmented::CheckerSegment& segment) {
+            core::Interval interval;
+            if (!segment.dataset().relpath_timespan(segment.path_relative(),
+                                                    interval) ||
+                threshold < interval.end)
+                return;
+            if (opts.readonly)
+                opts.reporter->segment_remove(
+                    sc->name(), segment.path_relative(), "should be deleted");
+            else
+            {
+                auto freed = segment.remove(true);
+                opts.reporter->segment_remove(
+                    sc->name(), segment.path_relative(),
+                    "deleted (" + std::to_string(freed) + " freed)");
+            }
+        });
         return true;
     });
 }
diff --git a/arki/dataset/archive.h b/arki/dataset/archive.h
index 76a3548..ecbf277 100644
--- a/arki/dataset/archive.h
+++ b/arki/dataset/archive.h
@@ -34,6 +34,8 @@ public:
     std::filesystem::path root;
     std::shared_ptr<segment::Session> segment_session;
     std::string step_name;
+    /// Delete age of the dataset that contains the archives
+    int delete_age = -1;
 
     Dataset(std::shared_ptr<Session> session, const std::filesystem::path& root,
             const std::string& step_name);
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 1a78466..63d2ea8 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -111,6 +111,7 @@ std::shared_ptr<archive::Dataset> Dataset::archive()
         m_archive = std::shared_ptr<archive::Dataset>(
             new archive::Dataset(session, path / ".archive", step_name));
         m_archive->set_parent(this);
+        m_archive->delete_age = delete_age;
     }
     return m_archive;
 }
@@ -379,7 +380,7 @@ void Checker::remove_old(CheckerConfig& opts)
         }
     });
 
-    local::Checker::remove_all(opts);
+    local::Checker::remove_old(opts);
 }
 
 void Checker::remove_all(CheckerConfig& opts)
-- 
2.43.0


From 18f7a140537b625eb4fdbd31861016e339f0ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 33/94] fix: temporary metadata files left by a crash prevented
 any further change to their segment

---
 arki/metadata/collection.cc | 2 +-
 arki/segment/metadata.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index f02b687..3264d47 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -81,7 +81,7 @@ struct AtomicWriter
 
     explicit AtomicWriter(const std::filesystem::path& fname)
         : destfname(fname),
-          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 2674cbe..84541f5 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -93,9 +93,9 @@ struct AtomicWriterWithSummary
 
     explicit AtomicWriterWithSummary(const Segment& segment)
         : segment(segment), out_md(path_tmp(segment.abspath_metadata()),
-                                   O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666),
+                                   O_WRONLY | O_TRUNC | O_CREAT, 0666),
           out_sum(path_tmp(segment.abspath_summary()),
-                  O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+                  O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
-- 
2.43.0


From 7a27d043f8fd756ae53a1b46c45ac1524dc9e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 34/94] fix: notice directory segments with data whose sequence
 file was never written

---
 arki/segment/data/dir.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 639c0ef..a102333 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -182,14 +182,21 @@ struct CheckBackend : public AppendCheckBackend
         }
 
         size_t cur_sequence = 0;
+        bool new_sequence   = false;
         {
             SequenceFile sf(segment.abspath());
             sf.open();
             cur_sequence = sf.read_sequence();
+            new_sequence = sf.new_file;
         }
 
         scanner.list_files();
 
+        // The sequence file has never been written, but there are data: the
+        // next append would try to reuse the name of an existing file
+        if (scanner.on_disk.empty())
+            new_sequence = false;
+
         bool dirty  = false;
         State state = AppendCheckBackend::check();
         if (!state.is_ok())
@@ -200,7 +207,7 @@ struct CheckBackend : public AppendCheckBackend
                 return state;
         }
 
-        if (cur_sequence < scanner.max_sequence)
+        if (new_sequence or cur_sequence < scanner.max_sequence)
         {
             stringstream out;
             out << "sequence file has value " << cur_sequence
@@ -580,7 +587,8 @@ bool BaseChecker<Data>::rescan_data(
 
         // FIXME: this is a write done while holding a read lock, and needs to
         // be moved to a fix method
-        if (cur_sequence < scanner.max_sequence)
+        if (cur_sequence < scanner.max_sequence or
+            (sf.new_file and !scanner.on_disk.empty()))
         {
             stringstream out;
             out << "sequence file value set to " << scanner.max_sequence
-- 
2.43.0


From 1db700d39ae12b8ba3355d1ba1ba4ef5f44facf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 35/94] fix: importing only duplicates in a directory segment
 made it look newer than its index

---
 arki/segment/data/dir.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index a102333..1057a7f 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -520,7 +520,10 @@ template <typename Data> void BaseWriter<Data>::commit()
 {
     if (this->fired)
         return;
-    seqfile.write_sequence(current_pos - 1);
+    // Do not touch the sequence file, and the timestamp of the segment with it,
+    // if nothing was appended
+    if (!pending.empty())
+        seqfile.write_sequence(current_pos - 1);
     for (auto& p : pending)
         p.set_source();
     pending.clear();
-- 
2.43.0


From d58c5976105c54563cf352520ec8a338f454262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 36/94] fix: an index whose creation was interrupted was
 unusable, or reported all data as deleted

---
 arki/segment/iseg.cc       | 24 ++++++++++++++++-
 arki/segment/iseg.h        |  9 +++++++
 arki/segment/iseg/index.cc | 53 ++++++++++++++++++++++++--------------
 arki/segment/iseg/index.h  | 13 ++++++++--
 4 files changed, 77 insertions(+), 22 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 506d37a..5b69c53 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -402,11 +402,27 @@ void Checker::update_data() { data = Data::create(m_segment); }
 CIndex& Checker::index()
 {
     if (!m_index)
+    {
+        m_index_temporary =
+            !sys::access(segment().abspath_iseg_index(), F_OK);
         m_index = std::make_shared<CIndex>(
-            std::static_pointer_cast<const Segment>(m_segment), lock);
+            std::static_pointer_cast<const Segment>(m_segment), lock,
+            m_index_temporary);
+    }
     return *m_index;
 }
 
+void Checker::publish_index()
+{
+    if (!m_index || !m_index_temporary)
+        return;
+    m_index->flush();
+    m_index.reset();
+    m_index_temporary = false;
+    std::filesystem::rename(CIndex::temporary_pathname(segment()),
+                            segment().abspath_iseg_index());
+}
+
 bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
@@ -586,6 +602,7 @@ Fixer::MarkRemovedResult Fixer::mark_removed(const std::set<uint64_t>& offsets)
     res.segment_mtime =
         get_data_mtime_after_fix(checker().data, "removal in metadata");
     res.data_timespan = index.query_data_timespan();
+    checker().publish_index();
     return res;
 }
 
@@ -620,6 +637,7 @@ Fixer::ReorderResult Fixer::reorder(arki::metadata::Collection& mds,
     pending_index.commit();
 
     index.vacuum();
+    checker().publish_index();
 
     auto new_data     = Data::create(checker().m_segment);
     res.segment_mtime = get_data_mtime_after_fix(new_data, "reorder");
@@ -679,6 +697,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Commit the changes in the database
     pending_index.commit();
+    checker().publish_index();
 
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to tar");
@@ -720,6 +739,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Commit the changes in the database
     pending_index.commit();
+    checker().publish_index();
 
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to zip");
@@ -764,6 +784,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Commit the changes in the database
     pending_index.commit();
+    checker().publish_index();
 
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to gz");
@@ -777,6 +798,7 @@ void Fixer::reindex(arki::metadata::Collection& mds)
     index.reindex(mds);
     pending_index.commit();
     index.vacuum();
+    checker().publish_index();
 }
 
 void Fixer::move(std::shared_ptr<arki::Segment> dest)
diff --git a/arki/segment/iseg.h b/arki/segment/iseg.h
index 390785a..5365bf2 100644
--- a/arki/segment/iseg.h
+++ b/arki/segment/iseg.h
@@ -91,6 +91,15 @@ class Checker : public segment::Checker
 {
     std::shared_ptr<segment::Data> data;
     std::shared_ptr<CIndex> m_index;
+    bool m_index_temporary = false;
+
+    /**
+     * If a new index is being built, make it the index of the segment.
+     *
+     * Until then it is kept in a temporary file, so that if building it gets
+     * interrupted, it is not mistaken for the index of a segment without data.
+     */
+    void publish_index();
 
     /**
      * Redo detection of the data accessor.
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index d16e8a0..8bea1f6 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -463,34 +463,49 @@ RIndex::RIndex(std::shared_ptr<const Segment> segment,
 
 template <typename LockType>
 WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
-                         std::shared_ptr<LockType> lock)
+                         std::shared_ptr<LockType> lock, bool temporary)
     : Index<LockType>(segment, lock), m_get_current("get_current", this->m_db),
       m_insert(this->m_db), m_replace("replace", this->m_db)
 {
-    bool need_create = !sys::access(index_pathname, F_OK);
+    if (temporary)
+    {
+        index_pathname = temporary_pathname(*segment);
 
-    if (need_create)
+        // Remove leftovers of interrupted operations
+        for (const char* suffix : {"", "-journal", "-wal", "-shm"})
+            std::filesystem::remove(sys::with_suffix(index_pathname, suffix));
+    }
+    else if (!sys::access(index_pathname, F_OK))
     {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
-        if (!m_others)
+        // Create all tables under a temporary name, to be sure that an index
+        // is complete if it exists, even if we are interrupted
         {
-            std::set<types::Code> other_members = this->all_other_tables();
-            if (not other_members.empty())
-                m_others = new Aggregate(m_db, "mdother", other_members);
+            WIndex<LockType> builder(segment, lock, true);
+            builder.flush();
         }
+        std::filesystem::rename(temporary_pathname(*segment), index_pathname);
+    }
+
+    m_db.open(index_pathname);
+    if (session().trace_sql)
+        m_db.trace();
+    this->setup_pragmas();
+    if (temporary)
+    {
+        std::set<types::Code> other_members = this->all_other_tables();
+        if (not other_members.empty())
+            m_others = new Aggregate(m_db, "mdother", other_members);
         init_db();
     }
     else
-    {
-        m_db.open(index_pathname);
-        if (session().trace_sql)
-            m_db.trace();
-        this->setup_pragmas();
         this->init_others();
-    }
+}
+
+template <typename LockType>
+std::filesystem::path
+WIndex<LockType>::temporary_pathname(const Segment& segment)
+{
+    return sys::with_suffix(segment.abspath_iseg_index(), ".tmp");
 }
 
 template <typename LockType> void WIndex<LockType>::init_db()
@@ -791,8 +806,8 @@ AIndex::AIndex(std::shared_ptr<const Segment> segment,
 }
 
 CIndex::CIndex(std::shared_ptr<const Segment> segment,
-               std::shared_ptr<core::CheckLock> lock)
-    : WIndex(segment, lock)
+               std::shared_ptr<core::CheckLock> lock, bool temporary)
+    : WIndex(segment, lock, temporary)
 {
 }
 
diff --git a/arki/segment/iseg/index.h b/arki/segment/iseg/index.h
index 9fe996b..7c12126 100644
--- a/arki/segment/iseg/index.h
+++ b/arki/segment/iseg/index.h
@@ -185,13 +185,22 @@ protected:
 
     void compile_insert();
 
+    /**
+     * Open the index for writing, creating it if it does not exist.
+     *
+     * If temporary is true, create a new empty index in temporary_pathname()
+     * instead.
+     */
     WIndex(std::shared_ptr<const Segment> segment,
-           std::shared_ptr<LockType> lock);
+           std::shared_ptr<LockType> lock, bool temporary = false);
 
 public:
     using Index<LockType>::session;
     using Index<LockType>::segment;
 
+    /// Path where a new index is stored until it is ready to be used
+    static std::filesystem::path temporary_pathname(const Segment& segment);
+
     /**
      * Completely reindex the segment using the given metadata.
      *
@@ -255,7 +264,7 @@ class CIndex : public WIndex<core::CheckLock>
 {
 public:
     CIndex(std::shared_ptr<const Segment> segment,
-           std::shared_ptr<core::CheckLock> lock);
+           std::shared_ptr<core::CheckLock> lock, bool temporary = false);
 };
 
 extern template class Index<const core::ReadLock>;
-- 
2.43.0


From 642508ad68444795e3ede92f15ac13da2a28c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 37/94] fix: importing in a segment with missing or outdated
 metadata forgot the data already in it

---
 arki/segment/metadata.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 84541f5..9346f98 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -316,8 +316,21 @@ Writer::Writer(std::shared_ptr<const Segment> segment,
     : segment::Writer(segment, lock), data(segment::Data::create(segment))
 {
     // Read the metadata
-    auto reader = segment->reader(lock);
-    reader->read_all(mds.inserter_func());
+    if (!data->exists_on_disk() || data->is_empty() ||
+        has_valid_metadata(segment))
+    {
+        auto reader = segment->reader(lock);
+        reader->read_all(mds.inserter_func());
+    }
+    else
+    {
+        // Metadata are missing or older than the data, as it happens when
+        // appending gets interrupted: do not replace them with metadata that
+        // only know about what is being appended now
+        nag::warning("%s: metadata is missing or outdated: rescanning data",
+                     segment->abspath().c_str());
+        data->reader(lock)->scan_data(mds.inserter_func());
+    }
 
     // Read the summary
     if (!mds.empty())
-- 
2.43.0


From 4ff036eb4b6e1fc21852232c9139542b897298f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 38/94] fix: repacking directory segments swaps the old and new
 data atomically, and is not stopped by leftovers

---
 arki/segment/data/dir.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 1057a7f..b4c4f27 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -701,6 +701,28 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
             if (fired)
                 return;
 
+#ifdef RENAME_EXCHANGE
+            // Atomically swap the old and the new data, if the file system
+            // supports it
+            if (::renameat2(AT_FDCWD, tmpabspath.c_str(), AT_FDCWD,
+                            abspath.c_str(), RENAME_EXCHANGE) == 0)
+            {
+                fired = true;
+
+                // Remove the old data
+                try
+                {
+                    sys::rmtree(tmpabspath);
+                }
+                catch (std::exception& e)
+                {
+                    nag::warning("Failed to remove %s after a repack: %s",
+                                 tmpabspath.c_str(), e.what());
+                }
+                return;
+            }
+#endif
+
             // It is impossible to make this atomic, so we just try to make it
             // as quick as possible
 
@@ -773,6 +795,11 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
     filesystem::path tmpabspath =
         sys::with_suffix(this->segment().abspath(), ".repack");
 
+    // Remove leftovers of interrupted repacks
+    sys::rmtree_ifexists(tmpabspath);
+    sys::rmtree_ifexists(
+        sys::with_suffix(this->segment().abspath(), ".pre-repack"));
+
     core::Pending p(new Rename(tmpabspath, this->segment().abspath()));
 
     Creator creator(this->segment(), mds, tmpabspath);
-- 
2.43.0


From 2eb90e782fac8d7f4258c833c2f0a4baba23ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 39/94] fix: leftovers of interrupted repacks of directory
 segments were imported as segments

---
 arki/dataset/segmented.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 63d2ea8..970a27b 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -612,6 +612,12 @@ void Checker::scan_dir(
             return false;
 
         string name = entry->d_name;
+
+        // Skip leftovers of interrupted repacks: they hold copies of data found
+        // elsewhere
+        if (str::endswith(name, ".repack"))
+            return false;
+
         if (dataset().segment_session->is_segment(relpath / name))
         {
             auto basename = Segment::basename(name);
-- 
2.43.0


From c71178455a1c85a798c4950a4e35be61cc0cc598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:32 +0000
Subject: [PATCH 40/94] fix: interrupted conversions to tar, zip or gz left an
 incomplete file that replaced the segment

---
 arki/segment/data/gz.cc  | 73 +++++++++++++++++++++++++---------------
 arki/segment/data/tar.cc |  8 ++++-
 arki/segment/data/zip.cc |  8 ++++-
 3 files changed, 59 insertions(+), 30 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index ac35784..384a846 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -126,6 +126,49 @@ template <typename Data> struct CheckBackend : public AppendCheckBackend
     }
 };
 
+/**
+ * Compress mds into the .gz file of a segment.
+ *
+ * The file is given its name only when it is complete: if we are interrupted
+ * before, the segment is left as it was.
+ */
+void create_segment(const Segment& segment, Collection& mds,
+                    const RepackConfig& cfg,
+                    const std::vector<uint8_t>& padding)
+{
+    auto gzabspath    = sys::with_suffix(segment.abspath(), ".gz");
+    auto gzidxabspath = sys::with_suffix(segment.abspath(), ".gz.idx");
+    auto tmpabspath   = sys::with_suffix(gzabspath, ".repack");
+    auto tmpidxabspath = sys::with_suffix(gzidxabspath, ".repack");
+
+    files::FinalizeTempfilesTransaction* finalize;
+    core::Pending p = finalize = new files::FinalizeTempfilesTransaction;
+    finalize->tmpfiles.push_back(tmpabspath);
+    finalize->tmpfiles.push_back(tmpidxabspath);
+    finalize->on_commit =
+        [&](const std::vector<std::filesystem::path>& tmpfiles) {
+            std::filesystem::rename(tmpfiles[0], gzabspath);
+            if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
+                std::filesystem::remove(gzidxabspath);
+        };
+    std::filesystem::remove(tmpidxabspath);
+
+    if (cfg.gz_group_size == 0)
+    {
+        Creator creator(segment, mds, tmpabspath);
+        creator.padding = padding;
+        creator.create();
+    }
+    else
+    {
+        Creator creator(segment, mds, tmpabspath, tmpidxabspath,
+                        cfg.gz_group_size);
+        creator.padding = padding;
+        creator.create();
+    }
+    p.commit();
+}
+
 } // namespace
 
 std::optional<time_t> Data::timestamp() const
@@ -380,19 +423,7 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    if (cfg.gz_group_size == 0)
-    {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
-        creator.create();
-    }
-    else
-    {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
-        creator.create();
-    }
+    gz::create_segment(segment, mds, cfg, {});
 
     return std::make_shared<const Data>(segment.shared_from_this());
 }
@@ -423,21 +454,7 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    if (cfg.gz_group_size == 0)
-    {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
-        creator.padding.push_back('\n');
-        creator.create();
-    }
-    else
-    {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
-        creator.padding.push_back('\n');
-        creator.create();
-    }
+    gz::create_segment(segment, mds, cfg, {'\n'});
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a81cd5a..4d57a0d 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -163,8 +163,14 @@ bool Data::can_store(DataFormat format) { return true; }
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".tar"));
+    // Give the file its name only when it is complete: if we are interrupted
+    // before, the segment is left as it was
+    auto abspath    = sys::with_suffix(segment.abspath(), ".tar");
+    auto tmpabspath = sys::with_suffix(abspath, ".repack");
+    core::Pending p(new files::RenameTransaction(tmpabspath, abspath));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/zip.cc b/arki/segment/data/zip.cc
index fc6af14..307dbce 100644
--- a/arki/segment/data/zip.cc
+++ b/arki/segment/data/zip.cc
@@ -276,8 +276,14 @@ bool Data::can_store(DataFormat) { return true; }
 std::shared_ptr<const Data> Data::create(const Segment& segment,
                                          Collection& mds, const RepackConfig&)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".zip"));
+    // Give the file its name only when it is complete: if we are interrupted
+    // before, the segment is left as it was
+    auto abspath    = sys::with_suffix(segment.abspath(), ".zip");
+    auto tmpabspath = sys::with_suffix(abspath, ".repack");
+    core::Pending p(new files::RenameTransaction(tmpabspath, abspath));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
-- 
2.43.0


From a761b6d8a71250dc01cbd355982f9f531aecc790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 41/94] fix: repacked data were not flushed to disk before
 replacing the old data

---
 arki/segment/data/fd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index 216a23f..a61ebe0 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -617,6 +617,8 @@ core::Pending Checker::repack(Collection& mds, const RepackConfig&)
         core::File in(this->segment().abspath(), O_RDONLY);
         core::File out(tmpabspath, O_WRONLY | O_CREAT | O_TRUNC, 0666);
         plan.execute(in, out);
+        out.fdatasync();
+        out.close();
     }
 
     // Release locks on the source segment, which is about to go away
-- 
2.43.0


From c1daafff93c8c85103db89821baf2c3ece53bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 42/94] fix: short writes silently truncated metadata and
 summary files

---
 arki/metadata/collection.cc | 6 +++---
 arki/summary.cc             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 3264d47..118dc7b 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -139,12 +139,12 @@ static void compressAndWrite(const std::vector<uint8_t>& buf,
         enc.add_unsigned(0u, 2);              // Version 0: LZO compressed
         enc.add_unsigned(obuf.size() + 4, 4); // Compressed len
         enc.add_unsigned(buf.size(), 4);      // Uncompressed len
-        out.write(tmp.data(), tmp.size());
-        out.write((const char*)obuf.data(), obuf.size());
+        out.write_all_or_retry(tmp.data(), tmp.size());
+        out.write_all_or_retry((const char*)obuf.data(), obuf.size());
     }
     else
         // Write the plain metadata
-        out.write(buf.data(), buf.size());
+        out.write_all_or_retry(buf.data(), buf.size());
 }
 
 static stream::SendResult compressAndWrite(const std::vector<uint8_t>& buf,
diff --git a/arki/summary.cc b/arki/summary.cc
index 8fccee6..4ed911e 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -243,7 +243,7 @@ void Summary::write(NamedFileDescriptor& out) const
     iotrace::trace_file(out, 0, encoded.size(), "write summary");
 
     // Write out
-    out.write(encoded.data(), encoded.size());
+    out.write_all_or_retry(encoded.data(), encoded.size());
 }
 
 stream::SendResult Summary::write(StreamOutput& out) const
-- 
2.43.0


From 91190838a6d8d51baa6f51f3d9a3699c0bf72aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 43/94] fix: errors writing metadata left imported data without
 metadata, and hid the data already there

---
 arki/segment/metadata.cc | 99 +++++++++++++++++++++++++++-------------
 arki/segment/metadata.h  |  3 +-
 2 files changed, 70 insertions(+), 32 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 9346f98..bf666c4 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -6,6 +6,7 @@
 #include "arki/nag.h"
 #include "arki/query.h"
 #include "arki/types/source/blob.h"
+#include "arki/utils/files.h"
 #include "arki/utils/sys.h"
 #include "data.h"
 #include "reporter.h"
@@ -361,20 +362,44 @@ void Writer::add(const Metadata& md, const types::source::Blob& source)
     mds.acquire(std::move(copy));
 }
 
-void Writer::write_metadata()
+void Writer::write_metadata(const std::filesystem::path& path_md,
+                            const std::filesystem::path& path_sum)
 {
-    auto path_md  = segment().abspath_metadata();
-    auto path_sum = segment().abspath_summary();
-
     mds.prepare_for_segment_metadata();
-    mds.writeAtomically(path_md);
-    sum.writeAtomically(path_sum);
+    core::File out_md(path_md, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    mds.write_to(out_md);
+    out_md.close();
+    core::File out_sum(path_sum, O_WRONLY | O_CREAT | O_TRUNC, 0666);
+    sum.write(out_sum);
+    out_sum.close();
 }
 
 Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
                                       const WriterConfig& config)
 {
-    auto data_writer = get_data_writer(config);
+    auto path_md  = segment().abspath_metadata();
+    auto path_sum = segment().abspath_summary();
+    auto tmp_md   = sys::with_suffix(path_md, ".tmp");
+    auto tmp_sum  = sys::with_suffix(path_sum, ".tmp");
+
+    auto failed = [&](const std::exception& e) {
+        batch.set_all_error("Failed to store in '" + config.destination_name +
+                            "': " + e.what());
+        AcquireResult res;
+        res.count_ok      = 0;
+        res.count_failed  = batch.size();
+        res.segment_mtime = data->timestamp().value_or(0);
+        if (sum.empty())
+            res.data_timespan = core::Interval();
+        else
+            res.data_timespan = sum.get_reference_time();
+        return res;
+    };
+
+    bool old_is_valid = has_valid_metadata(m_segment);
+    auto data_writer  = get_data_writer(config);
+    core::Pending p_md(new utils::files::RenameTransaction(tmp_md, path_md));
+    core::Pending p_sum(new utils::files::RenameTransaction(tmp_sum, path_sum));
     try
     {
         for (auto& e : batch)
@@ -385,41 +410,53 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
             e->result      = arki::metadata::Inbound::Result::OK;
             e->destination = config.destination_name;
         }
+
+        // Prepare the new metadata while the data can still be rolled back
+        write_metadata(tmp_md, tmp_sum);
+        data_writer->commit();
     }
     catch (std::exception& e)
     {
         // returning here before commit means no action is taken
-        batch.set_all_error("Failed to store in '" + config.destination_name +
-                            "': " + e.what());
-        AcquireResult res;
-        res.count_ok      = 0;
-        res.count_failed  = batch.size();
-        res.segment_mtime = data->timestamp().value_or(0);
-        if (sum.empty())
-            res.data_timespan = core::Interval();
-        else
-            res.data_timespan = sum.get_reference_time();
-        return res;
+        return failed(e);
     }
 
-    data_writer->commit();
-    write_metadata();
-
     auto ts = data->timestamp();
     if (!ts)
         throw std::runtime_error(segment().abspath().native() +
                                  ": segment not found after importing");
 
-    // Synchronize summary and metadata timestamps.
-    // This is not normally needed, as the files are written and flushed in
-    // the correct order.
-    //
-    // When running with filesystem sync disabled (eatmydata or
-    // systemd-nspawn --suppress-sync) however there are cases where the
-    // summary timestamp ends up one second earlier than the metadata
-    // timestamp, which then gets flagged by a dataset check
-    sys::touch(segment().abspath_metadata(), ts.value());
-    sys::touch(segment().abspath_summary(), ts.value());
+    try
+    {
+        // Synchronize summary and metadata timestamps with those of the data,
+        // which can be changed after they have been written
+        sys::touch(tmp_md, ts.value());
+        sys::touch(tmp_sum, ts.value());
+        p_md.commit();
+    }
+    catch (std::exception& e)
+    {
+        // The data has been written, but it will be seen only after a check.
+        // The old metadata still describe the data that was there before
+        if (old_is_valid)
+        {
+            sys::touch(path_md, ts.value());
+            sys::touch_ifexists(path_sum, ts.value());
+        }
+        return failed(e);
+    }
+
+    try
+    {
+        p_sum.commit();
+    }
+    catch (std::exception& e)
+    {
+        // Without summary, the metadata will be used instead
+        nag::warning("%s: cannot write summary: %s", path_sum.c_str(),
+                     e.what());
+        std::filesystem::remove(path_sum);
+    }
 
     AcquireResult res;
     res.count_ok      = batch.size();
diff --git a/arki/segment/metadata.h b/arki/segment/metadata.h
index 7c1580d..44c17d8 100644
--- a/arki/segment/metadata.h
+++ b/arki/segment/metadata.h
@@ -83,7 +83,8 @@ protected:
     get_data_writer(const segment::WriterConfig& config) const;
 
     void add(const Metadata& md, const types::source::Blob& source);
-    void write_metadata();
+    void write_metadata(const std::filesystem::path& path_md,
+                        const std::filesystem::path& path_sum);
 
 public:
     Writer(std::shared_ptr<const Segment> segment,
-- 
2.43.0


From 4e101d7ad50dd7b5678519c4060513e1cba6058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 44/94] fix: an error on a segment made the manifest forget
 about segments already written by the same import

---
 arki/dataset/simple/writer.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 3ca89b8..5fe53b7 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -57,19 +57,30 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
     auto lock = dataset().append_lock_dataset();
     manifest.reread();
     bool changed = false;
-    for (auto& s : by_segment)
+    try
     {
-        auto segment = dataset().segment_session->segment_from_relpath(s.first);
-        auto writer  = segment->writer(lock);
-        auto res     = writer->acquire(s.second, writer_config);
-        if (res.count_ok > 0)
+        for (auto& s : by_segment)
         {
-            manifest.set(segment->relpath(), res.segment_mtime,
-                         res.data_timespan);
-            invalidate_summary();
-            changed = true;
+            auto segment =
+                dataset().segment_session->segment_from_relpath(s.first);
+            auto writer = segment->writer(lock);
+            auto res    = writer->acquire(s.second, writer_config);
+            if (res.count_ok > 0)
+            {
+                manifest.set(segment->relpath(), res.segment_mtime,
+                             res.data_timespan);
+                changed = true;
+                invalidate_summary();
+            }
         }
     }
+    catch (...)
+    {
+        // Do not forget the segments that have already been changed
+        if (changed)
+            manifest.flush();
+        throw;
+    }
     if (changed)
         manifest.flush();
 }
-- 
2.43.0


From 7e63a377df69c6276ba8feff630a805bf5372b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 45/94] fix: failed writes of summaries left temporary files
 around

---
 arki/utils/sys.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/arki/utils/sys.cc b/arki/utils/sys.cc
index 05c7f37..a237d54 100644
--- a/arki/utils/sys.cc
+++ b/arki/utils/sys.cc
@@ -1149,20 +1149,29 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
 {
     File out = File::mkstemp(file);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
+    try
+    {
+        // Read the umask
+        mode_t mask = umask(0777);
+        umask(mask);
 
-    // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
+        // Set the file permissions, honoring umask
+        out.fchmod(mode & ~mask);
 
-    out.write_all_or_retry(data, size);
-    out.close();
+        out.write_all_or_retry(data, size);
+        out.close();
 
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(),
-                                "cannot rename "s + out.path().native() +
-                                    " to " + file.native());
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(),
+                                    "cannot rename "s + out.path().native() +
+                                        " to " + file.native());
+    }
+    catch (...)
+    {
+        // Do not leave the temporary file around
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 6955daefb8aca15a543b02dab1e327d1b8d08273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 46/94] fix: stopping a query on merged datasets raised an
 error, and a complete query was reported as stopped

---
 arki/dataset/merged.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ce85994..4d7176c 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -320,7 +320,12 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
 
     // Handle the trivial case of only one dataset
     if (datasets.size() == 1)
-        return track.done(datasets[0]->query_data(query, dest));
+    {
+        // Progress is already being tracked here
+        query::Data subquery = query;
+        subquery.progress    = nullptr;
+        return track.done(datasets[0]->query_data(subquery, dest));
+    }
 
     // Start all the readers
     MetadataReaderPool readers(datasets, query);
@@ -351,10 +356,11 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
         {
             canceled = true;
             readers.cancel();
+            break;
         }
     }
 
-    return track.done(canceled);
+    return track.done(!canceled);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From 52c7f7f101906bcbc849117340a9cf3b329167ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 47/94] fix: data race on the counters of lock operations

---
 arki/core/lock.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arki/core/lock.cc b/arki/core/lock.cc
index b43b334..c15af55 100644
--- a/arki/core/lock.cc
+++ b/arki/core/lock.cc
@@ -1,4 +1,5 @@
 #include "lock.h"
+#include <atomic>
 #include <cstdio>
 #include <cstring>
 #include <limits>
@@ -19,9 +20,9 @@ namespace arki::core {
 namespace lock {
 
 static bool test_nowait          = false;
-static unsigned count_ofd_setlk  = 0;
-static unsigned count_ofd_setlkw = 0;
-static unsigned count_ofd_getlk  = 0;
+static std::atomic<unsigned> count_ofd_setlk = 0;
+static std::atomic<unsigned> count_ofd_setlkw = 0;
+static std::atomic<unsigned> count_ofd_getlk = 0;
 
 } // namespace lock
 
-- 
2.43.0


From 07f31ff0d7bbd5722704054a64ef1e81813756b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 48/94] fix: data race initializing LZO

---
 arki/utils/compress.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index b18530e..1e58565 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -21,15 +21,16 @@ namespace compress {
 
 static void require_lzo_init()
 {
-    static bool done = false;
-    if (!done)
-    {
+    // Initialization of static variables is thread safe, and is tried again
+    // if it throws
+    static const bool done = [] {
         if (lzo_init() != LZO_E_OK)
             throw std::runtime_error(
                 "cannot initialize LZO library: lzo_init() failed (this "
                 "usually indicates a compiler bug)");
-        done = true;
-    }
+        return true;
+    }();
+    (void)done;
 }
 
 std::vector<uint8_t> lzo(const void* in, size_t in_size)
-- 
2.43.0


From e9a0dbb4ab9a570546de782826483aea15cc589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 49/94] fix: the index of a segment written again after being
 archived inherited entries of the old one

---
 arki/segment/iseg.cc       |  3 +--
 arki/segment/iseg/index.cc | 13 ++++++++++++-
 arki/segment/iseg/index.h  |  3 +++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 5b69c53..b6c180f 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -419,8 +419,7 @@ void Checker::publish_index()
     m_index->flush();
     m_index.reset();
     m_index_temporary = false;
-    std::filesystem::rename(CIndex::temporary_pathname(segment()),
-                            segment().abspath_iseg_index());
+    CIndex::publish_temporary(segment());
 }
 
 bool Checker::has_data() const { return data->exists_on_disk(); }
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index 8bea1f6..2395013 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -483,7 +483,7 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
             WIndex<LockType> builder(segment, lock, true);
             builder.flush();
         }
-        std::filesystem::rename(temporary_pathname(*segment), index_pathname);
+        publish_temporary(*segment);
     }
 
     m_db.open(index_pathname);
@@ -508,6 +508,17 @@ WIndex<LockType>::temporary_pathname(const Segment& segment)
     return sys::with_suffix(segment.abspath_iseg_index(), ".tmp");
 }
 
+template <typename LockType>
+void WIndex<LockType>::publish_temporary(const Segment& segment)
+{
+    auto pathname = segment.abspath_iseg_index();
+    // SQLite would replay on the new index what was left around by a previous
+    // one, like one that was moved away while open
+    for (const char* suffix : {"-journal", "-wal", "-shm"})
+        std::filesystem::remove(sys::with_suffix(pathname, suffix));
+    std::filesystem::rename(temporary_pathname(segment), pathname);
+}
+
 template <typename LockType> void WIndex<LockType>::init_db()
 {
     if (m_uniques)
diff --git a/arki/segment/iseg/index.h b/arki/segment/iseg/index.h
index 7c12126..f7ded48 100644
--- a/arki/segment/iseg/index.h
+++ b/arki/segment/iseg/index.h
@@ -201,6 +201,9 @@ public:
     /// Path where a new index is stored until it is ready to be used
     static std::filesystem::path temporary_pathname(const Segment& segment);
 
+    /// Make the index built in temporary_pathname() the index of the segment
+    static void publish_temporary(const Segment& segment);
+
     /**
      * Completely reindex the segment using the given metadata.
      *
-- 
2.43.0


From 2c75b16d6786a63d44b43b83560beada032ea040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 50/94] fix: summary stats differing by a multiple of 2^32
 compared equal

---
 arki/summary/stats.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/summary/stats.cc b/arki/summary/stats.cc
index b3bf29b..3323171 100644
--- a/arki/summary/stats.cc
+++ b/arki/summary/stats.cc
@@ -43,10 +43,10 @@ Stats* Stats::clone() const { return new Stats(*this); }
 
 int Stats::compare(const Stats& o) const
 {
-    if (int res = count - o.count)
-        return res;
-    if (int res = size - o.size)
-        return res;
+    if (count != o.count)
+        return count < o.count ? -1 : 1;
+    if (size != o.size)
+        return size < o.size ? -1 : 1;
     if (int res = begin.compare(o.begin))
         return res;
     return end.compare(o.end);
-- 
2.43.0


From 52274463e3b72cff40e1acd9dc33790e29215742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 51/94] fix: the last line of a text without a final newline
 was ignored

---
 arki/core/file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/core/file.cc b/arki/core/file.cc
index 73a654f..1abe805 100644
--- a/arki/core/file.cc
+++ b/arki/core/file.cc
@@ -107,6 +107,9 @@ template <typename Buffer> struct LineReaderImpl : public LineReader, Buffer
             int c = this->get();
             if (c == EOF)
             {
+                // The last line may lack its final newline
+                if (!line.empty())
+                    return true;
                 this->fd_eof = true;
                 return false;
             }
-- 
2.43.0


From 32697ee4896a51aadaf9649ec98ef1d886094cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 52/94] fix: configuration values enclosed in spaces or quotes
 were not read back as written

---
 arki/core/cfg.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/arki/core/cfg.cc b/arki/core/cfg.cc
index 3a2b20f..6b63202 100644
--- a/arki/core/cfg.cc
+++ b/arki/core/cfg.cc
@@ -194,11 +194,26 @@ void Section::set(const std::string& key, int value)
 
 void Section::unset(const std::string& key) { erase(key); }
 
+namespace {
+
+/// Format a value so that it is read back as it is
+std::string format_value(const std::string& value)
+{
+    // When reading, spaces around the value and a pair of double quotes
+    // enclosing it are removed
+    if (str::strip(value) != value ||
+        (value[0] == '"' && value[value.size() - 1] == '"'))
+        return '"' + value + '"';
+    return value;
+}
+
+} // namespace
+
 void Section::write(std::ostream& out) const
 {
     for (const auto& i : *this)
         if (!i.second.empty())
-            out << i.first << " = " << i.second << endl;
+            out << i.first << " = " << format_value(i.second) << endl;
 }
 
 std::string Section::to_string() const
@@ -212,7 +227,8 @@ void Section::dump(FILE* out) const
 {
     for (const auto& i : *this)
         if (!i.second.empty())
-            fprintf(out, "%s = %s\n", i.first.c_str(), i.second.c_str());
+            fprintf(out, "%s = %s\n", i.first.c_str(),
+                    format_value(i.second).c_str());
 }
 
 std::shared_ptr<Section> Section::parse(core::NamedFileDescriptor& in)
-- 
2.43.0


From df1274db504bab42a0e9dda142dd6ffe2902974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 53/94] fix: output of filters was lost when they ended before
 all of it was read

---
 arki/stream/concrete-parts.tcc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index e48d9b3..430a035 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -217,9 +217,15 @@ struct FromFilter
     bool setup_poll()
     {
         if (filter_stdout_available)
+        {
+            // Ignore the filter stdout until what we know it has is read: if
+            // the filter closed it, poll would return immediately every time
+            pfd_filter_stdout->fd = -1;
             pfd_filter_stdout->events = 0;
-        else
+        } else {
+            pfd_filter_stdout->fd = stream.filter_process->cmd.get_stdout();
             pfd_filter_stdout->events = POLLIN;
+        }
 
         trace_streaming("  FromFilter.setup_poll: filter_stdout: %d:%x\n", stream.filter_process->cmd.get_stdout(), (int)pfd_filter_stdout->events);
         return stream.filter_process->cmd.get_stdout() != -1;
@@ -232,6 +238,16 @@ struct FromFilter
 
         return false;
     }
+
+    /**
+     * Check if the filter closed its stdout, and all that it wrote has been
+     * read
+     */
+    bool filter_stdout_closed() const
+    {
+        return pfd_filter_stdout->revents & (POLLERR | POLLHUP)
+            && !(pfd_filter_stdout->revents & POLLIN);
+    }
 };
 
 template<typename Backend>
@@ -350,7 +366,7 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-        } else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        } else if (this->filter_stdout_closed()) {
             trace_streaming("  FromFilterSplice.on_poll: filter stdout closed\n");
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
@@ -465,7 +481,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             moved_data = true;
         }
 
-        if (!moved_data && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
+        if (!moved_data && this->filter_stdout_closed()) {
             // Filter stdout closed its endpoint
             trace_streaming("  FromFilterReadWrite.on_poll: POLLERR|POLLUP on filter_stdout: closing it\n");
             this->stream.filter_process->cmd.close_stdout();
@@ -564,7 +580,7 @@ struct FromFilterAbstract : public FromFilter<Backend>
             }
         }
 
-        if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
+        if (this->filter_stdout_closed())
         {
             // Filter stdout closed its endpoint
             this->stream.filter_process->cmd.close_stdout();
-- 
2.43.0


From 214f6aeaf0c583c81f272bc574f15d7bfa3ec77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 54/94] fix: data was sent again to filters when finding out
 that splice is not available

---
 arki/stream/concrete-parts.tcc | 55 +++++++++++++++++++++++++++-------
 arki/stream/concrete.cc        | 48 +++--------------------------
 2 files changed, 49 insertions(+), 54 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index 430a035..d650d61 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -424,7 +424,7 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
 
     bool setup_poll()
     {
-        bool res = FromFilter<Backend>::setup_poll();
+        bool res = FromFilterConcrete<Backend>::setup_poll();
         trace_streaming("  FromFilterReadWrite.setup_poll: parent: %d, %zd/%zd\n", res, to_output.pos, to_output.size);
         res = res or (to_output.size > 0 && to_output.pos < to_output.size);
         return res;
@@ -494,10 +494,52 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
 
 
 #ifdef ARKI_HAVE_SPLICE
+/**
+ * Use splice, and switch to read and write if it turns out not to be
+ * available.
+ *
+ * The switch happens while data is being sent to the filter, which goes on
+ * from where it was.
+ */
 template<typename Backend>
-struct FromFilterConcretePrimary : public FromFilterSplice<Backend>
+struct FromFilterConcretePrimary
 {
-    using FromFilterSplice<Backend>::FromFilterSplice;
+    FromFilterSplice<Backend> with_splice;
+    FromFilterReadWrite<Backend> with_readwrite;
+    bool splice_available = true;
+
+    FromFilterConcretePrimary(ConcreteStreamOutputBase<Backend>& stream)
+        : with_splice(stream), with_readwrite(stream)
+    {
+    }
+
+    void set_output(pollfd* pollinfo)
+    {
+        with_splice.set_output(pollinfo);
+        with_readwrite.set_output(pollinfo);
+    }
+
+    bool setup_poll()
+    {
+        return splice_available ? with_splice.setup_poll() : with_readwrite.setup_poll();
+    }
+
+    bool on_poll(SendResult& result)
+    {
+        if (!splice_available)
+            return with_readwrite.on_poll(result);
+
+        try
+        {
+            return with_splice.on_poll(result);
+        }
+        catch (SpliceNotAvailable&)
+        {
+            trace_streaming("  FromFilterConcretePrimary.on_poll: splice not available: using read and write\n");
+            splice_available = false;
+            return false;
+        }
+    }
 };
 #else
 template<typename Backend>
@@ -509,13 +551,6 @@ struct FromFilterConcretePrimary : public FromFilterReadWrite<Backend>
 #endif
 
 
-template<typename Backend>
-struct FromFilterConcreteFallback : public FromFilterReadWrite<Backend>
-{
-    using FromFilterReadWrite<Backend>::FromFilterReadWrite;
-};
-
-
 template<typename Backend>
 struct FromFilterAbstract : public FromFilter<Backend>
 {
diff --git a/arki/stream/concrete.cc b/arki/stream/concrete.cc
index 5449ae6..6c468f6 100644
--- a/arki/stream/concrete.cc
+++ b/arki/stream/concrete.cc
@@ -84,17 +84,7 @@ stream::FilterProcess* ConcreteStreamOutputBase<Backend>::start_filter(
 template <typename Backend>
 void ConcreteStreamOutputBase<Backend>::flush_filter_output()
 {
-    try
-    {
-        filter_sender->flush();
-    }
-    catch (SpliceNotAvailable&)
-    {
-        filter_sender.reset(
-            new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
-                *this));
-        filter_sender->flush();
-    }
+    filter_sender->flush();
 }
 
 template <typename Backend>
@@ -107,17 +97,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
 
     if (filter_process)
     {
-        try
-        {
-            return filter_sender->send_buffer(data, size);
-        }
-        catch (SpliceNotAvailable&)
-        {
-            filter_sender.reset(
-                new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
-                    *this));
-            return filter_sender->send_buffer(data, size);
-        }
+        return filter_sender->send_buffer(data, size);
     }
     else
     {
@@ -135,17 +115,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
 
     if (filter_process)
     {
-        try
-        {
-            return filter_sender->send_line(data, size);
-        }
-        catch (SpliceNotAvailable&)
-        {
-            filter_sender.reset(
-                new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
-                    *this));
-            return filter_sender->send_line(data, size);
-        }
+        return filter_sender->send_line(data, size);
     }
     else
     {
@@ -164,17 +134,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
 
     if (filter_process)
     {
-        try
-        {
-            return filter_sender->send_file_segment(fd, offset, size);
-        }
-        catch (SpliceNotAvailable&)
-        {
-            filter_sender.reset(
-                new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
-                    *this));
-            return filter_sender->send_file_segment(fd, offset, size);
-        }
+        return filter_sender->send_file_segment(fd, offset, size);
     }
     else
     {
-- 
2.43.0


From dcce2fd21cf0f05c6d84eea71a858de6a09dfa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 55/94] fix: stopping a filter whose input or output is still
 open waited forever

---
 arki/stream/base.cc   |  7 +++++++
 arki/stream/filter.cc | 10 ++++++++++
 arki/stream/filter.h  |  4 ++++
 3 files changed, 21 insertions(+)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index e91a3ed..c531e01 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -47,6 +47,9 @@ std::unique_ptr<FilterProcess> BaseStreamOutput::stop_filter()
     flush_filter_output();
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+    // If the destination was closed there may be filter output left, and the
+    // filter would wait forever for it to be read
+    proc->close_pipes();
     proc->stop();
 
     filter_sender.reset();
@@ -60,6 +63,10 @@ void BaseStreamOutput::abort_filter()
         return;
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+    filter_sender.reset();
+    // Let the filter notice, or it would wait forever for its input to end, or
+    // its output to be read
+    proc->close_pipes();
     proc->stop();
 }
 
diff --git a/arki/stream/filter.cc b/arki/stream/filter.cc
index 2f29fa5..de9c036 100644
--- a/arki/stream/filter.cc
+++ b/arki/stream/filter.cc
@@ -35,6 +35,16 @@ void FilterProcess::start()
         child_stderr.setfl(child_stderr.getfl() | O_NONBLOCK);
 }
 
+void FilterProcess::close_pipes()
+{
+    if (cmd.get_stdin() != -1)
+        cmd.close_stdin();
+    if (cmd.get_stdout() != -1)
+        cmd.close_stdout();
+    if (cmd.get_stderr() != -1)
+        cmd.close_stderr();
+}
+
 void FilterProcess::stop()
 {
     if (timeout_ms == -1)
diff --git a/arki/stream/filter.h b/arki/stream/filter.h
index 587391b..754bf7e 100644
--- a/arki/stream/filter.h
+++ b/arki/stream/filter.h
@@ -36,6 +36,10 @@ public:
     FilterProcess(const std::vector<std::string>& args, int timeout_ms = -1);
 
     void start();
+
+    /// Close our side of all the pipes to the filter that are still open
+    void close_pipes();
+
     void stop();
     void terminate();
 
-- 
2.43.0


From 6a87c875b0c1e50844dfc7d24156742113d38f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 56/94] fix: waiting for a child process could go on until the
 timeout although it had ended

---
 arki/utils/subprocess.cc | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/arki/utils/subprocess.cc b/arki/utils/subprocess.cc
index d1b355d..c81a00c 100644
--- a/arki/utils/subprocess.cc
+++ b/arki/utils/subprocess.cc
@@ -405,6 +405,9 @@ int Child::wait()
 
 namespace {
 
+/// Maximum time to wait before checking if a child process has ended
+const long max_wait_nsec = 50 * 1000 * 1000;
+
 struct enable_sigchld
 {
     sighandler_t prev_handler;
@@ -456,20 +459,26 @@ bool Child::wait(int msecs)
 
         // res == 0: child is still running. Wait for completion
 
-        ::timespec remaining;
+        // SIGCHLD usually interrupts nanosleep, but not if it arrives before
+        // nanosleep starts, or if it is handled by another thread: do not wait
+        // for too long without checking
+        ::timespec interval = timeout;
+        if (interval.tv_sec > 0 || interval.tv_nsec > max_wait_nsec)
+            interval = {0, max_wait_nsec};
+        ::timespec remaining = {0, 0};
 
         enable_sigchld es;
-        int sres = nanosleep(&timeout, &remaining);
-        if (sres == 0)
-        {
-            // Timeout expired
-            timeout = {0, 0};
-            continue;
-        }
-        else if (errno == EINTR)
+        int sres = nanosleep(&interval, &remaining);
+        if (sres == 0 || errno == EINTR)
         {
-            // Signal received (possibly SIGCHLD?)
-            timeout = remaining;
+            // Interval expired, or signal received (possibly SIGCHLD?)
+            timeout.tv_sec -= interval.tv_sec - remaining.tv_sec;
+            timeout.tv_nsec -= interval.tv_nsec - remaining.tv_nsec;
+            if (timeout.tv_nsec < 0)
+            {
+                timeout.tv_sec -= 1;
+                timeout.tv_nsec += 1000000000;
+            }
             continue;
         }
         else
-- 
2.43.0


From 3c0f233b11adb8dafb9572fe7bdc3cf9ecfa92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 57/94] fix: grouping by timerange crashed on items which have
 no timerange

---
 arki/metadata/clusterer.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/arki/metadata/clusterer.cc b/arki/metadata/clusterer.cc
index 5ca9290..5b7cb8e 100644
--- a/arki/metadata/clusterer.cc
+++ b/arki/metadata/clusterer.cc
@@ -52,11 +52,11 @@ bool Clusterer::exceeds_timerange(const Metadata& md) const
 {
     if (not split_timerange)
         return false;
-    if (not last_timerange)
-        return false;
-    if (*last_timerange == *md.get<types::Timerange>())
-        return false;
-    return true;
+    const Timerange* timerange = md.get<types::Timerange>();
+    // Items without a timerange are all together in their own batch
+    if (not last_timerange or not timerange)
+        return last_timerange or timerange;
+    return *last_timerange != *timerange;
 }
 
 void Clusterer::start_batch(DataFormat new_format)
@@ -73,12 +73,13 @@ void Clusterer::add_to_batch(std::shared_ptr<Metadata> md)
     ++count;
     if (cur_interval[0] == -1 && max_interval != 0)
         md_to_interval(*md, cur_interval);
+    if (split_timerange and not last_timerange)
+        if (const Timerange* timerange = md->get<types::Timerange>())
+            last_timerange = timerange->clone();
     const Reftime* rt = md->get<types::Reftime>();
     if (!rt)
         return;
     rt->expand_date_range(timespan);
-    if (split_timerange and not last_timerange)
-        last_timerange = md->get<types::Timerange>()->clone();
 }
 
 void Clusterer::flush_batch()
-- 
2.43.0


From e02dc89cdbcef3ef560228f6801ca4124a790093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 58/94] fix: xargs did not report commands which were killed by
 a signal

---
 arki/metadata/xargs.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/xargs.cc b/arki/metadata/xargs.cc
index f033200..4364e44 100644
--- a/arki/metadata/xargs.cc
+++ b/arki/metadata/xargs.cc
@@ -5,6 +5,7 @@
 #include "arki/utils/subprocess.h"
 #include "arki/utils/sys.h"
 #include <cstring>
+#include <sys/wait.h>
 #include <unistd.h>
 
 using namespace std;
@@ -79,8 +80,11 @@ void Xargs::flush_batch()
     if (res != 0)
     {
         stringstream ss;
-        ss << "cannot run " << command[0] << ": process returned exit status "
-           << res;
+        ss << "cannot run " << command[0] << ": process ";
+        if (WIFEXITED(res))
+            ss << "returned exit status " << WEXITSTATUS(res);
+        else
+            ss << subprocess::Child::format_raw_returncode(res);
         throw std::runtime_error(ss.str());
     }
 }
@@ -131,7 +135,8 @@ int Xargs::run_child()
     }
 
     child.fork();
-    return child.wait();
+    child.wait();
+    return child.raw_returncode();
 }
 
 static size_t parse_interval(const std::string& str)
-- 
2.43.0


From 98b75ea84dbd1ba35c1043c0cd26e3f67ca84267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 59/94] fix: tar files had an extra empty block after data
 whose size is a multiple of 512, where tar stops reading

---
 arki/segment/data/tar.cc | 2 +-
 arki/utils/tar.cc        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index 4d57a0d..0e16a2d 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -89,7 +89,7 @@ struct CheckBackend : public AppendCheckBackend
 
     size_t actual_end(off_t offset, size_t size) const override
     {
-        return offset + size + 512 - (size % 512);
+        return offset + size + (512 - (size % 512)) % 512;
     }
 
     State check()
diff --git a/arki/utils/tar.cc b/arki/utils/tar.cc
index cb0f604..4714531 100644
--- a/arki/utils/tar.cc
+++ b/arki/utils/tar.cc
@@ -117,7 +117,7 @@ void TarOutput::_write(const std::string& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - (data.size() % 512)) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
@@ -130,7 +130,7 @@ void TarOutput::_write(const std::vector<uint8_t>& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - (data.size() % 512)) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
-- 
2.43.0


From 3eb7f0f9cf2b2023d87e2a0bdcb8eebcf8f1cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 60/94] fix: pax headers with binary values had the wrong
 length

---
 arki/utils/tar.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/utils/tar.cc b/arki/utils/tar.cc
index 4714531..b6c4170 100644
--- a/arki/utils/tar.cc
+++ b/arki/utils/tar.cc
@@ -95,7 +95,8 @@ void PaxHeader::append(const std::string& key, const std::string& value)
 void PaxHeader::append(const std::string& key,
                        const std::vector<uint8_t>& value)
 {
-    std::string len = std::to_string(1 + key.size() + 1 + value.size() + 1);
+    size_t size     = size_with_length(1 + key.size() + 1 + value.size() + 1);
+    std::string len = std::to_string(size);
     std::copy(len.begin(), len.end(), std::back_inserter(data));
     data.push_back(' ');
     std::copy(key.begin(), key.end(), std::back_inserter(data));
-- 
2.43.0


From 0e1c40b5278c793f020a24a3f27d350e35c01c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 61/94] fix: compressing archives of formats which cannot be in
 .gz segments made files not recognised as segments

---
 arki/segment/iseg.cc     | 7 ++++++-
 arki/segment/metadata.cc | 7 ++++++-
 arki/segment/scan.cc     | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index b6c180f..3d5da36 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -9,6 +9,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include "data.h"
+#include "data/gz.h"
 #include "iseg/index.h"
 #include "reporter.h"
 #include "scan.h"
@@ -426,7 +427,11 @@ bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
 bool Checker::allows_zip() const { return !data->single_file(); }
-bool Checker::allows_compress() const { return data->single_file(); }
+bool Checker::allows_compress() const
+{
+    return data->single_file() &&
+           segment::data::gz::Data::can_store(segment().format());
+}
 
 arki::metadata::Collection Checker::scan()
 {
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index bf666c4..584deea 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -9,6 +9,7 @@
 #include "arki/utils/files.h"
 #include "arki/utils/sys.h"
 #include "data.h"
+#include "data/gz.h"
 #include "reporter.h"
 #include "scan.h"
 
@@ -482,7 +483,11 @@ bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
 bool Checker::allows_zip() const { return !data->single_file(); }
-bool Checker::allows_compress() const { return data->single_file(); }
+bool Checker::allows_compress() const
+{
+    return data->single_file() &&
+           segment::data::gz::Data::can_store(segment().format());
+}
 
 arki::metadata::Collection Checker::scan()
 {
diff --git a/arki/segment/scan.cc b/arki/segment/scan.cc
index aa1c279..78f5008 100644
--- a/arki/segment/scan.cc
+++ b/arki/segment/scan.cc
@@ -7,6 +7,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include "data.h"
+#include "data/gz.h"
 #include "reporter.h"
 
 using namespace arki::utils;
@@ -188,7 +189,11 @@ bool Checker::has_data() const { return data->exists_on_disk(); }
 std::optional<time_t> Checker::timestamp() const { return data->timestamp(); }
 bool Checker::allows_tar() const { return !data->single_file(); }
 bool Checker::allows_zip() const { return !data->single_file(); }
-bool Checker::allows_compress() const { return data->single_file(); }
+bool Checker::allows_compress() const
+{
+    return data->single_file() &&
+           segment::data::gz::Data::can_store(segment().format());
+}
 
 arki::metadata::Collection Checker::scan()
 {
-- 
2.43.0


From d0f0af22861a4c4b066ee603934ad2a72a7371cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 62/94] fix: compressing a segment without data made an invalid
 gzip file

---
 arki/utils/compress.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 1e58565..239b826 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -91,6 +91,7 @@ ZlibCompressor::ZlibCompressor() : strm(0)
     strm->zalloc = Z_NULL;
     strm->zfree  = Z_NULL;
     strm->opaque = Z_NULL;
+    feed_data(nullptr, 0);
     int ret = deflateInit2(strm, 9, Z_DEFLATED, 15 + 16, 9, Z_DEFAULT_STRATEGY);
     if (ret != Z_OK)
         throw std::runtime_error("zlib initialization failed");
@@ -366,7 +367,8 @@ size_t GzipWriter::flush_compressor()
 
 void GzipWriter::flush()
 {
-    if (idx.has_trailing_data())
+    // Without any data, still write a valid (empty) gzip file
+    if (idx.has_trailing_data() || idx.ofs == 0)
         end_block(true);
 }
 
-- 
2.43.0


From 98c83a0a3a1630258fe06d97fa96d5ac3981a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 63/94] fix: dispatch used datasets named error and duplicates
 instead of those configured for those uses

---
 arki/dispatcher.cc                | 16 ++++++++++------
 arki/python/arki-scan/dispatch.cc |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/arki/dispatcher.cc b/arki/dispatcher.cc
index 8303dc9..0491a52 100644
--- a/arki/dispatcher.cc
+++ b/arki/dispatcher.cc
@@ -23,7 +23,7 @@ Dispatcher::Dispatcher(std::shared_ptr<dataset::Pool> pool)
     // Validate the configuration, and split normal datasets from outbound
     // datasets
     pool->foreach_dataset([&](std::shared_ptr<dataset::Dataset> ds) {
-        if (ds->name() == "error" or ds->name() == "duplicates")
+        if (ds->use() != DatasetUse::DEFAULT)
             return true;
         else if (ds->config->value("type") == "outbound")
         {
@@ -168,15 +168,19 @@ void Dispatcher::dispatch(metadata::InboundBatch& batch,
             }
     }
 
-    raw_dispatch_dataset("duplicates", duplicate_batch,
-                         drop_cached_data_on_commit);
+    if (!duplicate_batch.empty())
+        raw_dispatch_dataset(
+            pool->dataset_for_use(DatasetUse::DUPLICATES)->name(),
+            duplicate_batch, drop_cached_data_on_commit);
     for (auto& e : duplicate_batch)
         if (e->result != metadata::Inbound::Result::OK)
             // If insertion in the duplicates dataset failed, insert in the
             // error dataset
             error_batch.emplace_back(e);
 
-    raw_dispatch_dataset("error", error_batch, drop_cached_data_on_commit);
+    if (!error_batch.empty())
+        raw_dispatch_dataset(pool->dataset_for_use(DatasetUse::ERRORS)->name(),
+                             error_batch, drop_cached_data_on_commit);
 }
 
 RealDispatcher::RealDispatcher(std::shared_ptr<dataset::Pool> pool)
@@ -202,8 +206,8 @@ void RealDispatcher::flush() { pool.flush(); }
 TestDispatcher::TestDispatcher(std::shared_ptr<dataset::Pool> pool)
     : Dispatcher(pool)
 {
-    if (!pool->has_dataset("error"))
-        throw std::runtime_error("no [error] dataset found");
+    // Throws an exception if it is not found
+    pool->dataset_for_use(DatasetUse::ERRORS);
 }
 TestDispatcher::~TestDispatcher() {}
 
diff --git a/arki/python/arki-scan/dispatch.cc b/arki/python/arki-scan/dispatch.cc
index 8d6f654..d5adda8 100644
--- a/arki/python/arki-scan/dispatch.cc
+++ b/arki/python/arki-scan/dispatch.cc
@@ -121,12 +121,12 @@ void MetadataDispatch::process_partial_batch(const std::filesystem::path& name,
                 "WARNING: The data has not been imported in ANY dataset");
             ++stats.not_imported;
         }
-        else if (e->destination == "error")
+        else if (pool->dataset(e->destination)->use() == DatasetUse::ERRORS)
         {
             do_copyko(*e->md);
             ++stats.in_error_dataset;
         }
-        else if (e->destination == "duplicates")
+        else if (pool->dataset(e->destination)->use() == DatasetUse::DUPLICATES)
         {
             do_copyko(*e->md);
             ++stats.duplicates;
-- 
2.43.0


From d0d155469692f53bd319957ed3366eebfd737f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 64/94] fix: querying twice a file of metadata as a dataset
 gave nothing the second time

---
 arki/dataset/file.cc | 9 +++++++++
 arki/dataset/file.h  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index f91cebc..53d7852 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -304,6 +304,13 @@ void FdFile::ensure_data_is_accessible(Metadata& md)
     md.sourceBlob().lock(reader);
 }
 
+void FdFile::rewind()
+{
+    // The file may have been read already by a previous query
+    if (::lseek(fd, 0, SEEK_SET) == -1 && errno != ESPIPE)
+        fd.throw_error("cannot seek to the beginning of the file");
+}
+
 bool FdFile::scan_reader(metadata::BaseReader& reader, const query::Data& q,
                          metadata_dest_func dest)
 {
@@ -334,6 +341,7 @@ ArkimetFile::~ArkimetFile() {}
 
 bool ArkimetFile::scan(const query::Data& q, metadata_dest_func dest)
 {
+    rewind();
     metadata::BinaryReader md_reader(fd);
     return scan_reader(md_reader, q, dest);
 }
@@ -352,6 +360,7 @@ YamlFile::~YamlFile() { delete reader; }
 
 bool YamlFile::scan(const query::Data& q, metadata_dest_func dest)
 {
+    rewind();
     metadata::YamlReader yaml_reader(fd);
     return scan_reader(yaml_reader, q, dest);
 }
diff --git a/arki/dataset/file.h b/arki/dataset/file.h
index 6be7d33..be5d1ad 100644
--- a/arki/dataset/file.h
+++ b/arki/dataset/file.h
@@ -89,6 +89,7 @@ protected:
     core::File fd;
 
     void ensure_data_is_accessible(Metadata& md);
+    void rewind();
     bool scan_reader(metadata::BaseReader& reader, const query::Data& q,
                      metadata_dest_func consumer);
 
-- 
2.43.0


From a756c62c029f85f1e4c1eac6da38ddafd90484bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 65/94] fix: querying a file again after it changed used
 readers of the old contents

---
 arki/dataset/file.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index 53d7852..d7ddf4b 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -266,7 +266,12 @@ SegmentDataset::SegmentDataset(std::shared_ptr<Session> session,
 bool SegmentDataset::scan(const query::Data& q, metadata_dest_func dest)
 {
     auto sorter = wrap_with_query(q, dest);
-    auto reader = segment->reader(std::make_shared<core::lock::NullReadLock>());
+    // The file is not locked and can change from a query to the next: do not
+    // reuse readers that results of previous queries may still keep open
+    auto session = std::make_shared<SegmentSession>(segment_session->root);
+    auto current = session->segment_from_relpath_and_format(segment->relpath(),
+                                                            segment->format());
+    auto reader = current->reader(std::make_shared<core::lock::NullReadLock>());
     if (!reader->read_all(dest))
         return false;
     if (sorter)
-- 
2.43.0


From 6f4f2f4f34e7b0d33cae5498a87246d8be7d0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 66/94] fix: check bounds and avoid undefined shifts when
 decoding binary data

---
 arki/core/binary.cc |  7 +------
 arki/core/binary.h  | 31 ++++++++-----------------------
 arki/defs.h         |  2 +-
 arki/types/utils.cc |  2 +-
 4 files changed, 11 insertions(+), 31 deletions(-)

diff --git a/arki/core/binary.cc b/arki/core/binary.cc
index 70e1fbc..4286b6b 100644
--- a/arki/core/binary.cc
+++ b/arki/core/binary.cc
@@ -100,13 +100,8 @@ BinaryDecoder BinaryDecoder::pop_metadata_bundle(std::string& signature,
     // Get length from next 4 bytes
     size_t len = pop_uint(4, "size of metadata bundle");
 
-    BinaryDecoder res(buf, len);
-
     // Move to the end of the inner data
-    buf += len;
-    size -= len;
-
-    return res;
+    return pop_data(len, "body of metadata bundle");
 }
 
 } // namespace core
diff --git a/arki/core/binary.h b/arki/core/binary.h
index 2673642..f606897 100644
--- a/arki/core/binary.h
+++ b/arki/core/binary.h
@@ -56,32 +56,16 @@ struct BinaryEncoder
     /// Encode a signed integer in the given amount of bytes, big endian
     void add_signed(int val, unsigned int bytes)
     {
-        uint32_t uns;
-        if (val < 0)
-        {
-            // If it's negative, we encode the 2-complement of the positive
-            // value
-            uns = -val;
-            uns = ~uns + 1;
-        }
-        else
-            uns = val;
+        // If it's negative, this is the 2-complement of the positive value
+        uint32_t uns = static_cast<uint32_t>(val);
         add_unsigned(uns, bytes);
     }
 
     /// Encode a signed integer in the given amount of bytes, big endian
     static void set_signed(uint8_t* buf, int val, unsigned int bytes)
     {
-        uint32_t uns;
-        if (val < 0)
-        {
-            // If it's negative, we encode the 2-complement of the positive
-            // value
-            uns = -val;
-            uns = ~uns + 1;
-        }
-        else
-            uns = val;
+        // If it's negative, this is the 2-complement of the positive value
+        uint32_t uns = static_cast<uint32_t>(val);
         set_unsigned(buf, uns, bytes);
     }
 
@@ -351,7 +335,7 @@ struct BinaryDecoder
      * @returns the number of bytes decoded
      */
     template <typename T>
-    static size_t decode_varint(const uint8_t* buf, unsigned int size, T& val)
+    static size_t decode_varint(const uint8_t* buf, size_t size, T& val)
     {
         // Only work with unsigned
         static_assert(std::is_unsigned<T>(), "target integer must be unsigned");
@@ -360,7 +344,8 @@ struct BinaryDecoder
         // protbuf's varint implementation
         val = 0;
 
-        for (size_t count = 0; count < size && count < sizeof(val) + 2; ++count)
+        for (size_t count = 0; count < size && 7 * count < 8 * sizeof(val);
+             ++count)
         {
             val |= ((T)buf[count] & 0x7F) << (7 * count);
             if ((buf[count] & 0x80) == 0)
@@ -376,7 +361,7 @@ struct BinaryDecoder
     {
         uint32_t res = 0;
         for (unsigned int i = 0; i < bytes; ++i)
-            res |= (unsigned char)val[i] << ((bytes - i - 1) * 8);
+            res |= (uint32_t)val[i] << ((bytes - i - 1) * 8);
         return res;
     }
 
diff --git a/arki/defs.h b/arki/defs.h
index d0ec1d9..57115e5 100644
--- a/arki/defs.h
+++ b/arki/defs.h
@@ -17,7 +17,7 @@ class Metadata;
 typedef std::function<bool(std::shared_ptr<Metadata>)> metadata_dest_func;
 
 /// Identifier codes used for binary serialisation of Types
-enum TypeCode {
+enum TypeCode : unsigned {
     TYPE_INVALID         = 0,
     TYPE_ORIGIN          = 1,
     TYPE_PRODUCT         = 2,
diff --git a/arki/types/utils.cc b/arki/types/utils.cc
index 813a55d..93c08e2 100644
--- a/arki/types/utils.cc
+++ b/arki/types/utils.cc
@@ -47,7 +47,7 @@ void MetadataType::register_type(MetadataType* type)
 
 const MetadataType* MetadataType::get(types::Code code)
 {
-    if (!decoders || decoders[code] == 0)
+    if (!decoders || (unsigned)code >= decoders_size || decoders[code] == 0)
     {
         stringstream ss;
         ss << "cannot parse binary data: no decoder found for item type "
-- 
2.43.0


From ad09a34441e4cd4605c7c509c28b7b580a8eabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 67/94] fix: do not rely on encoded sizes when reading bundles,
 inline data, segment data and archives

---
 arki/segment/data/dir.cc  |  5 +++--
 arki/segment/data/fd.cc   |  2 ++
 arki/segment/data/tar.cc  |  2 ++
 arki/types/bundle.cc      | 16 ++++++----------
 arki/types/source/blob.cc | 12 ++++++++++++
 arki/types/source/blob.h  |  3 +++
 arki/utils/compress.cc    | 26 ++++++++++++++++++++++----
 arki/utils/zip.cc         |  6 +++++-
 8 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index b4c4f27..5e3ec70 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -431,11 +431,12 @@ sys::File Reader::open_src(const types::source::Blob& src)
 
 std::vector<uint8_t> Reader::read(const types::source::Blob& src)
 {
+    sys::File file_fd = open_src(src);
+    src.check_size(file_fd);
+
     vector<uint8_t> buf;
     buf.resize(src.size);
 
-    sys::File file_fd = open_src(src);
-
     ssize_t res = file_fd.pread(buf.data(), src.size, 0);
     if ((size_t)res != src.size)
     {
diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index a61ebe0..e000f66 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -203,6 +203,8 @@ template <typename Data> bool Reader<Data>::scan_data(metadata_dest_func dest)
 template <typename Data>
 std::vector<uint8_t> Reader<Data>::read(const types::source::Blob& src)
 {
+    src.check_size(fd);
+
     vector<uint8_t> buf;
     buf.resize(src.size);
 
diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index 0e16a2d..f03cc77 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -193,6 +193,8 @@ bool Reader::scan_data(metadata_dest_func dest)
 
 std::vector<uint8_t> Reader::read(const types::source::Blob& src)
 {
+    src.check_size(fd);
+
     std::vector<uint8_t> buf;
     buf.resize(src.size);
 
diff --git a/arki/types/bundle.cc b/arki/types/bundle.cc
index 515ee6f..35f0e19 100644
--- a/arki/types/bundle.cc
+++ b/arki/types/bundle.cc
@@ -48,12 +48,10 @@ size_t Bundle::read_header(NamedFileDescriptor& fd)
 
 size_t Bundle::read_data(NamedFileDescriptor& fd)
 {
-    // Use reserve, then read a bit at a time, resizing appropriately, to avoid
-    // allocating and using (which triggers the kernel to actually allocate
-    // memory pages) potentially a lot of ram, and then read fails right away
-    // because the length field of the file was corrupted
+    // Read a bit at a time, resizing appropriately, to avoid allocating
+    // potentially a lot of ram, and then read fails right away because the
+    // length field of the file was corrupted
     data.resize(0);
-    data.reserve(length);
     size_t to_read = length;
     while (to_read > 0)
     {
@@ -117,12 +115,10 @@ size_t Bundle::read_header(AbstractInputFile& fd)
 
 size_t Bundle::read_data(AbstractInputFile& fd)
 {
-    // Use reserve, then read a bit at a time, resizing appropriately, to avoid
-    // allocating and using (which triggers the kernel to actually allocate
-    // memory pages) potentially a lot of ram, and then read fails right away
-    // because the length field of the file was corrupted
+    // Read a bit at a time, resizing appropriately, to avoid allocating
+    // potentially a lot of ram, and then read fails right away because the
+    // length field of the file was corrupted
     data.resize(0);
-    data.reserve(length);
     size_t to_read = length;
     while (to_read > 0)
     {
diff --git a/arki/types/source/blob.cc b/arki/types/source/blob.cc
index 95a800e..8b32ebe 100644
--- a/arki/types/source/blob.cc
+++ b/arki/types/source/blob.cc
@@ -185,11 +185,23 @@ void Blob::lock(std::shared_ptr<segment::Reader> reader)
 
 void Blob::unlock() { reader.reset(); }
 
+void Blob::check_size(core::NamedFileDescriptor& fd) const
+{
+    struct stat st;
+    fd.fstat(st);
+    if (size > (uint64_t)st.st_size)
+        throw std::runtime_error("cannot read " + std::to_string(size) +
+                                 " bytes of data from " + fd.path().native() +
+                                 ": the file is only " +
+                                 std::to_string(st.st_size) + " bytes long");
+}
+
 vector<uint8_t> Blob::read_data(NamedFileDescriptor& fd, bool rlock) const
 {
     if (rlock)
         throw std::runtime_error("cannot retrieve data: read locking in this "
                                  "method is not yet implemented");
+    check_size(fd);
     vector<uint8_t> buf;
     buf.resize(size);
     if (fd.pread(buf.data(), size, offset) != size)
diff --git a/arki/types/source/blob.h b/arki/types/source/blob.h
index c7ddd89..c3a5c45 100644
--- a/arki/types/source/blob.h
+++ b/arki/types/source/blob.h
@@ -119,6 +119,9 @@ zip file segment implementation.
      */
     void unlock();
 
+    /// Throw an exception if fd is too small to contain the data of this source
+    void check_size(core::NamedFileDescriptor& fd) const;
+
     /**
      * Get the data referred by this blob, read from the given file descriptor.
      * It is up to the caller to ensure that fd is open on the right file.
diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 239b826..fae490e 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -70,6 +70,14 @@ std::vector<uint8_t> unlzo(const void* in, size_t in_size, size_t out_size)
 {
     require_lzo_init();
 
+    // LZO does not compress more than about 255 times: do not allocate memory
+    // for a size that the data cannot expand to
+    if (out_size / 256 > in_size + 16)
+        throw std::runtime_error("cannot decompress data with LZO: " +
+                                 std::to_string(in_size) +
+                                 " bytes cannot expand to " +
+                                 std::to_string(out_size));
+
     std::vector<uint8_t> out(out_size);
     lzo_uint new_len = out_size;
     int r = lzo1x_decompress_safe(static_cast<const lzo_bytep>(in), in_size,
@@ -234,7 +242,8 @@ SeekIndexReader::SeekIndexReader(core::NamedFileDescriptor& fd) : fd(fd) {}
 std::vector<uint8_t> SeekIndexReader::read(size_t offset, size_t size)
 {
     if (offset < last_group_offset ||
-        offset + size > last_group_offset + last_group.size())
+        offset - last_group_offset > last_group.size() ||
+        size > last_group.size() - (offset - last_group_offset))
     {
         size_t block = idx.lookup(offset);
         if (block >= idx.ofs_comp.size())
@@ -261,13 +270,22 @@ std::vector<uint8_t> SeekIndexReader::read(size_t offset, size_t size)
         {
             // Read and uncompress the compressed chunk
             size_t unc_size = idx.ofs_unc[block + 1] - idx.ofs_unc[block];
-            std::vector<uint8_t> group(unc_size);
-            gzfd.read_all_or_throw(group.data(), group.size());
+            std::vector<uint8_t> group;
+            // Read a bit at a time, not to rely on unc_size before knowing that
+            // the data is there
+            while (group.size() < unc_size)
+            {
+                size_t pos   = group.size();
+                size_t chunk = std::min(unc_size - pos, (size_t)1024 * 1024);
+                group.resize(pos + chunk);
+                gzfd.read_all_or_throw(group.data() + pos, chunk);
+            }
             last_group = std::move(group);
         }
     }
     size_t group_offset = offset - last_group_offset;
-    if (group_offset + size > last_group.size())
+    if (group_offset > last_group.size() ||
+        size > last_group.size() - group_offset)
         throw std::runtime_error(
             "requested read of offset past the end of gzip file");
     return std::vector<uint8_t>(last_group.begin() + group_offset,
diff --git a/arki/utils/zip.cc b/arki/utils/zip.cc
index d4eda30..97b07ab 100644
--- a/arki/utils/zip.cc
+++ b/arki/utils/zip.cc
@@ -40,10 +40,14 @@ public:
 
     std::vector<uint8_t> read_all(size_t size)
     {
-        std::vector<uint8_t> res(size, 0);
+        // Read a bit at a time, not to rely on size before knowing that the
+        // data is there
+        std::vector<uint8_t> res;
         size_t ofs = 0;
         while (ofs < size)
         {
+            if (ofs == res.size())
+                res.resize(ofs + std::min(size - ofs, (size_t)1024 * 1024));
             zip_int64_t len =
                 zip_fread(file, res.data() + ofs, res.size() - ofs);
             if (len == -1)
-- 
2.43.0


From c0c9229cebf9cf9fd1f2f76e2f0a8dc78c01dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 68/94] fix: do not access missing or unexpected items of
 damaged metadata and indices

---
 arki/metadata.cc                | 49 +++++++++++++++++++++++++--------
 arki/segment/iseg/index/attr.cc |  3 ++
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 169b623..ef6e5c8 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -160,7 +160,7 @@ const types::Note* Index::get_last_note() const
     auto n = items.rbegin();
     if (n != items.rend() && (*n)->type_code() == TYPE_SOURCE)
         ++n;
-    if ((*n)->type_code() == TYPE_NOTE)
+    if (n != items.rend() && (*n)->type_code() == TYPE_NOTE)
         return reinterpret_cast<const types::Note*>(*n);
     return nullptr;
 }
@@ -421,6 +421,9 @@ void Metadata::set_notes_encoded(const uint8_t* data, unsigned size)
         TypeCode el_type;
         core::BinaryDecoder inner = dec.pop_type_envelope(el_type);
 
+        if (el_type != TYPE_NOTE)
+            throw_consistency_error("decoding notes",
+                                    "found an item which is not a note");
         auto n = types::Type::decode_inner(el_type, inner, false);
         std::unique_ptr<Note> nn(reinterpret_cast<types::Note*>(n.release()));
         m_index.append_note(std::move(nn));
@@ -552,6 +555,9 @@ Metadata::read_binary_inner(core::BinaryDecoder& dec, unsigned version,
     return res;
 }
 
+/// Size of the chunks used to read inline data
+static const size_t inline_chunk_size = 1024 * 1024;
+
 size_t Metadata::read_inline_data(NamedFileDescriptor& fd)
 {
     // If the source is inline, then the data follows the metadata
@@ -560,13 +566,20 @@ size_t Metadata::read_inline_data(NamedFileDescriptor& fd)
         return 0;
     const source::Inline* si = reinterpret_cast<const source::Inline*>(&s);
     vector<uint8_t> buf;
-    buf.resize(si->size);
 
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
-    // Read the inline data
-    if (!fd.read_all_or_retry(buf.data(), si->size))
-        fd.throw_runtime_error("inline data not found after arkimet metadata");
+    // Read the inline data, a bit at a time, so as not to allocate memory for
+    // data that are not there if the size is corrupted
+    while (buf.size() < si->size)
+    {
+        size_t pos   = buf.size();
+        size_t chunk = std::min((size_t)si->size - pos, inline_chunk_size);
+        buf.resize(pos + chunk);
+        if (!fd.read_all_or_retry(buf.data() + pos, chunk))
+            fd.throw_runtime_error(
+                "inline data not found after arkimet metadata");
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
@@ -580,19 +593,22 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
         return 0;
     const source::Inline* si = reinterpret_cast<const source::Inline*>(&s);
     vector<uint8_t> buf;
-    buf.resize(si->size);
 
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
-    // Read the inline data
-    for (size_t pos = 0; pos < buf.size();)
+    // Read the inline data, a bit at a time, so as not to allocate memory for
+    // data that are not there if the size is corrupted
+    while (buf.size() < si->size)
     {
-        size_t res = fd.read(buf.data() + pos, buf.size() - pos);
+        size_t pos   = buf.size();
+        size_t chunk = std::min((size_t)si->size - pos, inline_chunk_size);
+        buf.resize(pos + chunk);
+        size_t res = fd.read(buf.data() + pos, chunk);
         if (res == 0)
             throw std::runtime_error(
                 fd.path().native() +
                 ": inline data not found after arkimet metadata");
-        pos += res;
+        buf.resize(pos + res);
     }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
@@ -625,11 +641,14 @@ void Metadata::write(NamedFileDescriptor& out, bool skip_data) const
 
     // If the source is inline, then the data follows the metadata
     const Source* s = m_index.get_source();
-    if (s->style() != Source::Style::INLINE)
+    if (!s || s->style() != Source::Style::INLINE)
         return;
 
     // Having checked the style, we can reinterpret_cast
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
+    if (!m_data)
+        throw_runtime_error("cannot write metadata to file ", out.path(),
+                            ": inline data is not available");
     if (si->size != m_data->size())
         throw_runtime_error("cannot write metadata to file ", out.path(),
                             ": metadata size ", si->size,
@@ -655,6 +674,9 @@ void Metadata::write(StreamOutput& out, bool skip_data) const
 
     // Having checked the style, we can reinterpret_cast
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
+    if (!m_data)
+        throw_runtime_error("cannot write metadata to file ", out.path(),
+                            ": inline data is not available");
     if (si->size != m_data->size())
         throw_runtime_error("cannot write metadata to file ", out.path(),
                             ": metadata size ", si->size,
@@ -733,9 +755,12 @@ void Metadata::serialise(structured::Emitter& e, const structured::Keys& keys,
     e.add_break();
 
     // If the source is inline, we need to include the daata
-    if (s->style() != types::Source::Style::INLINE)
+    if (!s || s->style() != types::Source::Style::INLINE)
         return;
     const source::Inline* si = reinterpret_cast<const source::Inline*>(s);
+    if (!m_data)
+        throw runtime_error(
+            "cannot write metadata to JSON: inline data is not available");
     if (si->size != m_data->size())
     {
         stringstream ss;
diff --git a/arki/segment/iseg/index/attr.cc b/arki/segment/iseg/index/attr.cc
index 8906fd9..075f1f6 100644
--- a/arki/segment/iseg/index/attr.cc
+++ b/arki/segment/iseg/index/attr.cc
@@ -151,6 +151,9 @@ void AttrSubIndex::read(int id, Metadata& md) const
     }
 
     unique_ptr<Type> item = q_select_one(id);
+    if (!item)
+        throw std::runtime_error("index is damaged: " + name + " with id " +
+                                 std::to_string(id) + " not found");
     md.set(item->cloneType());
     add_to_cache(id, *item);
 }
-- 
2.43.0


From 55474c7069f6745b8bba9f58aa07cd5038667942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 69/94] fix: reject values that do not fit when decoding values
 and old summaries

---
 arki/summary/codec.cc | 9 +++++++--
 arki/types/values.cc  | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/arki/summary/codec.cc b/arki/summary/codec.cc
index f4f1baa..f06db99 100644
--- a/arki/summary/codec.cc
+++ b/arki/summary/codec.cc
@@ -61,7 +61,8 @@ struct Format1Decoder : public DecoderBase
             return 0;
     }
 
-    void decode(core::BinaryDecoder& dec, size_t scanpos = 0)
+    void decode(core::BinaryDecoder& dec, size_t scanpos = 0,
+                unsigned depth = 0)
     {
         codeclog("Start decoding scanpos " << scanpos);
 
@@ -69,6 +70,10 @@ struct Format1Decoder : public DecoderBase
         size_t stripelen = dec.pop_uint(2, "Metadata stripe size");
         codeclog("Stripe size " << stripelen);
 
+        if (scanpos + stripelen > Table::msoSize || depth > Table::msoSize + 1)
+            throw std::runtime_error(
+                "cannot parse summary: metadata stripes are too long");
+
         // Decode the metadata stripe
         for (size_t i = 0; i < stripelen; ++i)
             row.items[scanpos + i] = decodeUItem(scanpos + i, dec);
@@ -80,7 +85,7 @@ struct Format1Decoder : public DecoderBase
         {
             // Decode the children
             for (size_t i = 0; i < childnum; ++i)
-                decode(dec, scanpos + stripelen);
+                decode(dec, scanpos + stripelen, depth + 1);
         }
         else
         {
diff --git a/arki/types/values.cc b/arki/types/values.cc
index 26c6a49..4edd0c7 100644
--- a/arki/types/values.cc
+++ b/arki/types/values.cc
@@ -195,7 +195,7 @@ void encode_int(core::BinaryEncoder& enc, int value)
         {
             // Sign bit
             lead |= 0x8;
-            encoded = -value;
+            encoded = -(unsigned)value;
         }
         else
             encoded = value;
@@ -236,7 +236,11 @@ int decode_number(core::BinaryDecoder& dec, uint8_t lead)
         case ENC_NUM_INTEGER: {
             // Sign in the next bit.  Number of bytes in the next 3 bits.
             unsigned nbytes = (lead & 0x7) + 1;
-            unsigned val    = dec.pop_uint(nbytes, "integer number value");
+            if (nbytes > 4)
+                throw std::runtime_error("cannot decode value: integer numbers "
+                                         "longer than 4 bytes are not "
+                                         "supported");
+            unsigned val = dec.pop_uint(nbytes, "integer number value");
             return (lead & 0x8) ? -val : val;
         }
         case ENC_NUM_FLOAT:
-- 
2.43.0


From 49bb42da02f87f1529092bc573f5a5495b1fca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 70/94] fix: limit nesting and do not overflow when processing
 JSON

---
 arki/core/time.cc         | 23 ++++++++++++++++++++++-
 arki/core/time.h          |  6 ++++++
 arki/structured/json.cc   | 29 +++++++++++++++++++----------
 arki/structured/memory.cc |  5 +++--
 4 files changed, 50 insertions(+), 13 deletions(-)

diff --git a/arki/core/time.cc b/arki/core/time.cc
index 26230a5..f0f9b89 100644
--- a/arki/core/time.cc
+++ b/arki/core/time.cc
@@ -28,6 +28,25 @@ void TimeBase::set_tm(struct tm& t)
     se = t.tm_sec;
 }
 
+void TimeBase::check_components() const
+{
+    // These are the limits of the binary encoding of a time
+    auto check = [](const char* name, int val, int max) {
+        if (val >= 0 && val <= max)
+            return;
+        throw std::invalid_argument("invalid time: " + std::string(name) + " " +
+                                    std::to_string(val) +
+                                    " is not between 0 and " +
+                                    std::to_string(max));
+    };
+    check("year", ye, 0x3fff);
+    check("month", mo, 12);
+    check("day", da, 31);
+    check("hour", ho, 31);
+    check("minute", mi, 63);
+    check("second", se, 63);
+}
+
 void TimeBase::set_iso8601(const std::string& str)
 {
     int count =
@@ -37,14 +56,16 @@ void TimeBase::set_iso8601(const std::string& str)
                        &mi, &se);
     if (count < 6)
         throw std::runtime_error("Cannot parse ISO-8601 string '" + str + "'");
+    check_components();
 }
 
 void TimeBase::set_sql(const std::string& str)
 {
     int count =
         sscanf(str.c_str(), "%d-%d-%d %d:%d:%d", &ye, &mo, &da, &ho, &mi, &se);
-    if (count == 0)
+    if (count < 6)
         throw std::runtime_error("Cannot parse SQL string '" + str + "'");
+    check_components();
 }
 
 void TimeBase::set_now()
diff --git a/arki/core/time.h b/arki/core/time.h
index d30766d..1bdc74e 100644
--- a/arki/core/time.h
+++ b/arki/core/time.h
@@ -52,6 +52,12 @@ public:
     /// Set from a struct tm
     void set_tm(struct tm& t);
 
+    /**
+     * Throw an exception if the components hold values that cannot be part of
+     * a time, and that would not survive encoding
+     */
+    void check_components() const;
+
     /// Set from a ISO8601 string
     void set_iso8601(const std::string& str);
 
diff --git a/arki/structured/json.cc b/arki/structured/json.cc
index 16b4936..88a2338 100644
--- a/arki/structured/json.cc
+++ b/arki/structured/json.cc
@@ -3,6 +3,7 @@
 #include "arki/exceptions.h"
 #include <cctype>
 #include <cmath>
+#include <limits>
 #include <sstream>
 
 using namespace std;
@@ -77,7 +78,7 @@ void JSON::add_double(double val)
 
     double vint, vfrac;
     vfrac = modf(val, &vint);
-    if (vfrac == 0.0)
+    if (vfrac == 0.0 && std::abs(vint) <= std::numeric_limits<int>::max())
         out << (int)vint << ".0";
     else
         out << val;
@@ -276,16 +277,19 @@ static void parse_string(core::BufferedReader& in, Emitter& e)
     e.add(res);
 }
 
-static void parse_value(core::BufferedReader& in, Emitter& e);
+// Nesting levels accepted when parsing
+static const unsigned MAX_DEPTH = 500;
 
-static void parse_array(core::BufferedReader& in, Emitter& e)
+static void parse_value(core::BufferedReader& in, Emitter& e, unsigned depth);
+
+static void parse_array(core::BufferedReader& in, Emitter& e, unsigned depth)
 {
     e.start_list();
     in.get(); // Eat the leading '['
     parse_spaces(in);
     while (in.peek() != ']')
     {
-        parse_value(in, e);
+        parse_value(in, e, depth + 1);
         if (in.peek() == ',')
             in.get();
         parse_spaces(in);
@@ -295,7 +299,7 @@ static void parse_array(core::BufferedReader& in, Emitter& e)
     e.end_list();
 }
 
-static void parse_object(core::BufferedReader& in, Emitter& e)
+static void parse_object(core::BufferedReader& in, Emitter& e, unsigned depth)
 {
     e.start_mapping();
     in.get(); // Eat the leading '{'
@@ -310,7 +314,7 @@ static void parse_object(core::BufferedReader& in, Emitter& e)
             in.get();
         else
             throw JSONParseException("':' expected after object key");
-        parse_value(in, e);
+        parse_value(in, e, depth + 1);
         if (in.peek() == ',')
             in.get();
         parse_spaces(in);
@@ -320,14 +324,16 @@ static void parse_object(core::BufferedReader& in, Emitter& e)
     e.end_mapping();
 }
 
-static void parse_value(core::BufferedReader& in, Emitter& e)
+static void parse_value(core::BufferedReader& in, Emitter& e, unsigned depth)
 {
+    if (depth > MAX_DEPTH)
+        throw JSONParseException("too many nested arrays and objects");
     parse_spaces(in);
     switch (in.peek())
     {
         case EOF: throw JSONParseException("JSON string is truncated");
-        case '{': parse_object(in, e); break;
-        case '[': parse_array(in, e); break;
+        case '{': parse_object(in, e, depth); break;
+        case '[': parse_array(in, e, depth); break;
         case '"': parse_string(in, e); break;
         case '-':
         case '0':
@@ -364,7 +370,10 @@ static void parse_value(core::BufferedReader& in, Emitter& e)
     parse_spaces(in);
 }
 
-void JSON::parse(core::BufferedReader& in, Emitter& e) { parse_value(in, e); }
+void JSON::parse(core::BufferedReader& in, Emitter& e)
+{
+    parse_value(in, e, 0);
+}
 
 void JSON::parse(const std::string& str, Emitter& e)
 {
diff --git a/arki/structured/memory.cc b/arki/structured/memory.cc
index 86a3a5d..0be1d84 100644
--- a/arki/structured/memory.cc
+++ b/arki/structured/memory.cc
@@ -64,6 +64,7 @@ core::Time List::scalar_as_time(const char* desc) const
     res.ho = as_int(3, "time hour");
     res.mi = as_int(4, "time minute");
     res.se = as_int(5, "time second");
+    res.check_components();
     return res;
 }
 
@@ -133,11 +134,11 @@ core::Time Mapping::dict_as_time(const std::string& key, const char* desc) const
 {
     auto i = val.find(key);
     if (i == val.end())
-        return Node::as_time(key, desc);
+        return Node::dict_as_time(key, desc);
 
     const List* list = dynamic_cast<const List*>(i->second);
     if (!list)
-        return Node::as_time(key, desc);
+        return Node::dict_as_time(key, desc);
 
     return list->as_time(desc);
 }
-- 
2.43.0


From ba0794afbd55bdd4efe5ced45a1ed6b456109da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 71/94] fix: do not overflow with extreme values in items and
 expressions

---
 arki/matcher/reftime/lexer.cc         |  9 +++++++++
 arki/matcher/reftime/lexer.h          | 19 +++++++++++++++++--
 arki/matcher/reftime/reftime-parse.yy |  2 ++
 arki/matcher/timerange.cc             | 10 ++++++++++
 arki/types/run.cc                     |  6 +++---
 arki/types/timerange.cc               |  5 +++--
 arki/types/timerange.h                |  2 +-
 7 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/arki/matcher/reftime/lexer.cc b/arki/matcher/reftime/lexer.cc
index 0ae7cdc..2f2b7fd 100644
--- a/arki/matcher/reftime/lexer.cc
+++ b/arki/matcher/reftime/lexer.cc
@@ -150,6 +150,7 @@ void IParser::itype()
             if (string_in({"w", "week", "weeks"}))
             {
                 res.val *= 7;
+                LexInterval::check(res.val);
                 res.idx = 2;
                 return;
             }
@@ -197,7 +198,15 @@ SParser::SParser(const char* sbuf, unsigned slen, struct LexInterval& res)
     itype();
     eatSpaces();
     if (!len)
+    {
+        // A step longer than a day matches only once in a day
+        if (seconds(res) > 3600 * 24)
+        {
+            res.val = 3600 * 24;
+            res.idx = 5;
+        }
         return;
+    }
 
     // Combination of hours, minutes and seconds: add them all up in seconds
     long long int total = seconds(res);
diff --git a/arki/matcher/reftime/lexer.h b/arki/matcher/reftime/lexer.h
index d08edde..189a7e4 100644
--- a/arki/matcher/reftime/lexer.h
+++ b/arki/matcher/reftime/lexer.h
@@ -19,7 +19,20 @@ struct LexInterval
     int val;
     int idx;
 
-    void add_to(int* vals) const { vals[idx] += val; }
+    void add_to(int* vals) const
+    {
+        vals[idx] += val;
+        check(vals[idx]);
+    }
+
+    /// Throw an exception if the value is too big for computing with times
+    static void check(unsigned long int val)
+    {
+        if (val > 200000000)
+            throw std::invalid_argument(
+                "cannot parse reftime match expression: time interval " +
+                std::to_string(val) + " is too long");
+    }
 };
 
 struct Parser
@@ -219,7 +232,9 @@ struct ISParser : public Parser
             val += *buf;
         if (val.empty())
             error("number expected");
-        return strtoul(val.c_str(), 0, 10);
+        unsigned long int num = strtoul(val.c_str(), 0, 10);
+        LexInterval::check(num);
+        return num;
     }
 };
 
diff --git a/arki/matcher/reftime/reftime-parse.yy b/arki/matcher/reftime/reftime-parse.yy
index 6e2ab34..d927a6e 100644
--- a/arki/matcher/reftime/reftime-parse.yy
+++ b/arki/matcher/reftime/reftime-parse.yy
@@ -106,6 +106,8 @@ static void interval_add(arki::core::FuzzyTime& dst, const int* val, bool subtra
 
     // Normalise
     lb.normalise();
+    if (lb.ye < -10000 || lb.ye > 100000)
+        throw std::invalid_argument("cannot parse reftime match expression: year " + std::to_string(lb.ye) + " is out of range");
     dst = lb;
     pdate(" normalised", dst);
 
diff --git a/arki/matcher/timerange.cc b/arki/matcher/timerange.cc
index 1af26b0..26e210d 100644
--- a/arki/matcher/timerange.cc
+++ b/arki/matcher/timerange.cc
@@ -1,6 +1,8 @@
 #include "timerange.h"
 #include "arki/exceptions.h"
 #include "arki/utils/string.h"
+#include <cstdint>
+#include <limits>
 
 using namespace std;
 using namespace arki::types;
@@ -21,6 +23,14 @@ static Optional<INT> parseValueWithUnit(const std::string& str,
     long int value = strtol(s, &e, 10);
     if (value == 0)
         return 0;
+    if (value < std::numeric_limits<int>::min() ||
+        value > std::numeric_limits<uint32_t>::max())
+    {
+        std::stringstream ss;
+        ss << "cannot parse time range value '" << str
+           << "': the value is out of range";
+        throw std::runtime_error(ss.str());
+    }
     std::string unit = str.substr(e - s);
     if (unit == "s")
     {
diff --git a/arki/types/run.cc b/arki/types/run.cc
index 4717a84..456eea2 100644
--- a/arki/types/run.cc
+++ b/arki/types/run.cc
@@ -210,9 +210,9 @@ std::string Minute::exactQuery() const
 
 int Minute::compare_local(const Minute& o) const
 {
-    int minute  = get_Minute();
-    int vminute = o.get_Minute();
-    return minute - vminute;
+    unsigned minute  = get_Minute();
+    unsigned vminute = o.get_Minute();
+    return minute < vminute ? -1 : minute > vminute ? 1 : 0;
 }
 
 } // namespace run
diff --git a/arki/types/timerange.cc b/arki/types/timerange.cc
index bb8e550..198d9ef 100644
--- a/arki/types/timerange.cc
+++ b/arki/types/timerange.cc
@@ -353,8 +353,9 @@ void Timerange::get_GRIB1_normalised(const uint8_t* data, unsigned size,
             break;
     }
 
-    op1 *= timemul;
-    op2 *= timemul;
+    // Multiply as unsigned: a 16bit p1 with a unit of 12 hours overflows an int
+    op1 = static_cast<int>(static_cast<unsigned>(op1) * timemul);
+    op2 = static_cast<int>(static_cast<unsigned>(op2) * timemul);
 }
 
 void Timerange::get_GRIB2(const uint8_t* data, unsigned size, unsigned& type,
diff --git a/arki/types/timerange.h b/arki/types/timerange.h
index bd5f256..931e740 100644
--- a/arki/types/timerange.h
+++ b/arki/types/timerange.h
@@ -20,7 +20,7 @@ enum class Style : unsigned char {
 
 enum GRIB1Unit : int { SECOND = 0, MONTH = 1 };
 
-enum TimedefUnit {
+enum TimedefUnit : unsigned {
     UNIT_MINUTE  = 0,
     UNIT_HOUR    = 1,
     UNIT_DAY     = 2,
-- 
2.43.0


From 67480e91dca0ce741e11710d5f13cfc5afd71165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 72/94] fix: do not read past the end of the base64 decoding
 table

---
 arki/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/utils/string.cc b/arki/utils/string.cc
index 067ed10..c87348c 100644
--- a/arki/utils/string.cc
+++ b/arki/utils/string.cc
@@ -459,7 +459,7 @@ template <typename T> static char invbase64(const T& idx)
         36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51};
     if (idx < 43)
         return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data) / sizeof(data[0])))
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data) / sizeof(data[0])))
         return 0;
     return data[idx - 43];
 }
-- 
2.43.0


From adedab9d164e31c39f2e7ae7d9c520755b10f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 73/94] fix: do not rely on the inode number to tell if a
 MANIFEST file has changed

File systems reuse the inode number of a replaced file, so a reader could keep
using the old list of segments after the file had been rewritten twice, missing
the data imported in the meantime.
---
 arki/dataset/simple/manifest.cc | 7 ++-----
 arki/dataset/simple/manifest.h  | 1 -
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index a939abd..3b257ad 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -140,7 +140,6 @@ bool Reader::reread()
         if (std::filesystem::exists(sqlite_pathname))
         {
             segmentinfo_cache = read_sqlite(m_root / "index.sqlite");
-            last_inode        = 0;
             legacy_sql        = true;
             // index.sqlite existed but MANIFEST did not exist
             // If this is run by Writer, it needs to flag the status as dirty
@@ -149,10 +148,8 @@ bool Reader::reread()
         }
     }
 
-    if (inode == last_inode)
-        return inode != 0;
-
-    last_inode = inode;
+    // The inode number cannot be used to tell if the file has changed since it
+    // was last read: file systems use again the number of a replaced file
     if (inode == 0)
     {
         segmentinfo_cache.clear();
diff --git a/arki/dataset/simple/manifest.h b/arki/dataset/simple/manifest.h
index 04b126e..2c5e0b5 100644
--- a/arki/dataset/simple/manifest.h
+++ b/arki/dataset/simple/manifest.h
@@ -51,7 +51,6 @@ protected:
     bool legacy_sql = false;
 
     std::vector<SegmentInfo> segmentinfo_cache;
-    ino_t last_inode = 0;
 
 public:
     explicit Reader(const std::filesystem::path& root);
-- 
2.43.0


From 9c831aa79d316f41feb57cded9a3313d88dfee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 74/94] fix: begin iseg index transactions as write
 transactions

A deferred transaction that becomes a write transaction fails with 'database is
locked' without waiting when a reader is briefly holding the write lock, for
example while recovering the WAL, making imports fail.
---
 arki/segment/iseg/index.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index 2395013..3e69183 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -69,7 +69,9 @@ template <typename LockType> Index<LockType>::~Index()
 
 template <typename LockType> core::Pending Index<LockType>::begin_transaction()
 {
-    return core::Pending(new SqliteTransaction(m_db));
+    // Start as a write transaction, because SQLite does not wait for locks held
+    // by others when a read transaction becomes a write transaction
+    return core::Pending(new SqliteTransaction(m_db, "IMMEDIATE"));
 }
 
 template <typename LockType>
-- 
2.43.0


From 0a395c4581ff50b6ca02fd8a5ed31a33503b4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:31 +0000
Subject: [PATCH 75/94] fix: do not cache summaries computed while data was
 being changed

A summary computed by a reader before an import was committed could be written
to the cache after the import had invalidated it, and would be returned by all
following summary queries.
---
 arki/dataset/index/summarycache.cc | 79 ++++++++++++++++++++++--------
 arki/dataset/index/summarycache.h  | 41 +++++++++++++---
 arki/dataset/iseg/reader.cc        |  7 ++-
 arki/dataset/simple/checker.cc     |  3 +-
 arki/dataset/simple/reader.cc      |  4 +-
 arki/dataset/simple/writer.cc      | 11 ++++-
 6 files changed, 114 insertions(+), 31 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index e20446a..6c25e00 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -1,6 +1,8 @@
 #include "summarycache.h"
 #include "arki/dataset.h"
 #include "arki/dataset/reporter.h"
+#include "arki/exceptions.h"
+#include "arki/iotrace.h"
 #include "arki/metadata.h"
 #include "arki/metadata/inbound.h"
 #include "arki/summary.h"
@@ -8,6 +10,8 @@
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include <fcntl.h>
+#include <sys/stat.h>
+#include <unistd.h>
 
 using namespace std;
 using namespace arki::types;
@@ -18,6 +22,54 @@ namespace arki {
 namespace dataset {
 namespace index {
 
+CachedSummary::CachedSummary(const std::filesystem::path& pathname)
+    : pathname(pathname)
+{
+    if (sys::access(pathname.parent_path(), W_OK))
+        file = std::make_unique<core::File>(
+            core::File::mkstemp(sys::with_suffix(pathname, ".tmp")));
+}
+
+CachedSummary::~CachedSummary()
+{
+    if (file)
+        ::unlink(file->path().c_str());
+}
+
+void CachedSummary::commit(Summary& s)
+{
+    if (!file)
+        return;
+
+    // Set the file permissions, honoring umask
+    mode_t mask = umask(0777);
+    umask(mask);
+    file->fchmod(0666 & ~mask);
+
+    auto enc = s.encode(true);
+    iotrace::trace_file(pathname, 0, enc.size(), "write summary");
+    file->write_all_or_retry(enc.data(), enc.size());
+    file->close();
+
+    // The temporary file does not exist anymore if the cache has been
+    // invalidated in the meantime
+    if (::rename(file->path().c_str(), pathname.c_str()) < 0 && errno != ENOENT)
+        throw_system_error(errno, "cannot rename ", file->path(), " to ",
+                           pathname);
+    file.reset();
+}
+
+void CachedSummary::invalidate(const std::filesystem::path& pathname)
+{
+    // Start with the temporary files, not to miss those that are being renamed
+    auto prefix = pathname.filename().native() + ".tmp";
+    sys::Path dir(pathname.parent_path());
+    for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
+        if (str::startswith(i->d_name, prefix))
+            std::filesystem::remove(pathname.parent_path() / i->d_name);
+    std::filesystem::remove(pathname);
+}
+
 SummaryCache::SummaryCache(const std::filesystem::path& root)
     : m_scache_root(root)
 {
@@ -64,28 +116,14 @@ bool SummaryCache::read(Summary& s, int year, int month)
     return true;
 }
 
-bool SummaryCache::write(Summary& s)
+CachedSummary SummaryCache::start() const
 {
-    auto sum_file = m_scache_root / "all.summary";
-
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
-
-    s.writeAtomically(sum_file);
-    return true;
+    return CachedSummary(m_scache_root / "all.summary");
 }
 
-bool SummaryCache::write(Summary& s, int year, int month)
+CachedSummary SummaryCache::start(int year, int month) const
 {
-    auto sum_file = summary_pathname(year, month);
-
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
-
-    s.writeAtomically(sum_file);
-    return true;
+    return CachedSummary(summary_pathname(year, month));
 }
 
 void SummaryCache::invalidate()
@@ -99,8 +137,9 @@ void SummaryCache::invalidate()
 
 void SummaryCache::invalidate(int year, int month)
 {
-    std::filesystem::remove(summary_pathname(year, month));
-    std::filesystem::remove(m_scache_root / "all.summary");
+    // The global summary is computed from the monthly ones: invalidate it last
+    CachedSummary::invalidate(summary_pathname(year, month));
+    CachedSummary::invalidate(m_scache_root / "all.summary");
 }
 
 void SummaryCache::invalidate(const Metadata& md)
diff --git a/arki/dataset/index/summarycache.h b/arki/dataset/index/summarycache.h
index ca82ff3..0571d1b 100644
--- a/arki/dataset/index/summarycache.h
+++ b/arki/dataset/index/summarycache.h
@@ -3,10 +3,12 @@
 
 /// dataset/index/summarycache - Cache precomputed summaries
 
+#include <arki/core/file.h>
 #include <arki/core/time.h>
 #include <arki/dataset/fwd.h>
 #include <arki/metadata/fwd.h>
 #include <filesystem>
+#include <memory>
 
 namespace arki {
 class Summary;
@@ -16,6 +18,35 @@ class Base;
 
 namespace index {
 
+/**
+ * Summary that is being computed to be cached in a file.
+ *
+ * A temporary file is created before starting to read the data to summarize.
+ * Invalidating the cache also deletes the temporary files, so a summary
+ * computed while data was changing is not cached.
+ */
+class CachedSummary
+{
+    std::filesystem::path pathname;
+    std::unique_ptr<core::File> file;
+
+public:
+    /// Start computing the summary to cache in pathname
+    explicit CachedSummary(const std::filesystem::path& pathname);
+    CachedSummary(const CachedSummary&)            = delete;
+    CachedSummary& operator=(const CachedSummary&) = delete;
+    ~CachedSummary();
+
+    /**
+     * Write the summary to the cache, unless the cache has been invalidated or
+     * cannot be written
+     */
+    void commit(Summary& s);
+
+    /// Delete the cached summary, including the ones that are being computed
+    static void invalidate(const std::filesystem::path& pathname);
+};
+
 class SummaryCache
 {
 protected:
@@ -40,13 +71,11 @@ public:
     /// cache
     bool read(Summary& s, int year, int month);
 
-    /// Write the global cache file; returns false if the cache dir is not
-    /// writable.
-    bool write(Summary& s);
+    /// Start computing the summary for all the period
+    CachedSummary start() const;
 
-    /// Write the cache file for the given month; returns false if the cache dir
-    /// is not writable.
-    bool write(Summary& s, int year, int month);
+    /// Start computing the summary for the given month
+    CachedSummary start(int year, int month) const;
 
     /// Remove all contents of the cache
     void invalidate();
diff --git a/arki/dataset/iseg/reader.cc b/arki/dataset/iseg/reader.cc
index ff1d16d..b70c6e5 100644
--- a/arki/dataset/iseg/reader.cc
+++ b/arki/dataset/iseg/reader.cc
@@ -79,12 +79,13 @@ void Reader::summary_for_month(int year, int month, Summary& out)
     if (scache.read(out, year, month))
         return;
 
+    auto cached     = scache.start(year, month);
     Matcher matcher = Matcher::for_month(year, month);
 
     Summary summary;
     summary_from_indices(matcher, summary);
 
-    scache.write(summary, year, month);
+    cached.commit(summary);
     out.add(summary);
 }
 
@@ -93,6 +94,8 @@ void Reader::summary_for_all(Summary& out)
     if (scache.read(out))
         return;
 
+    auto cached = scache.start();
+
     // Find the datetime extremes in the database
     core::Interval interval;
     dataset().step().time_extremes(
@@ -118,7 +121,7 @@ void Reader::summary_for_all(Summary& out)
         }
     }
 
-    scache.write(out);
+    cached.commit(out);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 800c8d7..c5f02db 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -1,5 +1,6 @@
 #include "checker.h"
 #include "arki/dataset/archive.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/reporter.h"
 #include "arki/dataset/session.h"
@@ -61,7 +62,7 @@ public:
     /// Delete the dataset summary (if present)
     void invalidate_dataset_summary()
     {
-        std::filesystem::remove(dataset().path / "summary");
+        index::CachedSummary::invalidate(dataset().path / "summary");
     }
 
     segmented::SegmentState fsck(dataset::Reporter& reporter,
diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index a923bf3..7bb2342 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -1,4 +1,5 @@
 #include "reader.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/simple/manifest.h"
 #include "arki/metadata.h"
@@ -121,11 +122,12 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
     else if (sys::access(dataset().path, W_OK))
     {
         // Rebuild the cache
+        index::CachedSummary cached(cache_pathname);
         Summary s;
         query_segments_for_summary(Matcher(), s, lock);
 
         // Save the summary
-        s.writeAtomically(cache_pathname);
+        cached.commit(s);
 
         // Query the newly generated summary that we still have
         // in memory
diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 5fe53b7..222cc98 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -1,4 +1,5 @@
 #include "arki/dataset/simple/writer.h"
+#include "arki/dataset/index/summarycache.h"
 #include "arki/dataset/lock.h"
 #include "arki/dataset/session.h"
 #include "arki/dataset/simple/manifest.h"
@@ -39,7 +40,7 @@ std::string Writer::type() const { return "simple"; }
 
 void Writer::invalidate_summary()
 {
-    std::filesystem::remove(dataset().path / "summary");
+    index::CachedSummary::invalidate(dataset().path / "summary");
 }
 
 void Writer::acquire_batch(metadata::InboundBatch& batch,
@@ -78,11 +79,19 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
     {
         // Do not forget the segments that have already been changed
         if (changed)
+        {
             manifest.flush();
+            invalidate_summary();
+        }
         throw;
     }
     if (changed)
+    {
         manifest.flush();
+        // Readers may have cached a summary while the manifest was not yet
+        // updated
+        invalidate_summary();
+    }
 }
 
 void Writer::test_acquire(std::shared_ptr<Session> session,
-- 
2.43.0


From 7fd8b274f19270b658232cd3162352fd0bef9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 76/94] fix: do not fail a summary query if the cache is
 invalidated meanwhile

The cached summary of a simple dataset could be deleted by an import between
checking that it exists and opening it.
---
 arki/dataset/simple/reader.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 7bb2342..0e0f00c 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -10,6 +10,7 @@
 #include "arki/types/source/blob.h"
 #include "arki/utils/sys.h"
 #include <algorithm>
+#include <fcntl.h>
 
 using namespace std;
 using namespace arki::utils;
@@ -113,10 +114,12 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
     // global summary
     auto cache_pathname = dataset().path / "summary";
 
-    if (sys::access(cache_pathname, R_OK))
+    // The cache can be invalidated by other processes at any time
+    sys::File cache(cache_pathname);
+    if (sys::access(cache_pathname, R_OK) && cache.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(cache_pathname);
+        s.read(cache);
         s.filter(matcher, summary);
     }
     else if (sys::access(dataset().path, W_OK))
-- 
2.43.0


From 24197e5681e3bac43dd9a4e73aa7adddf9135d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 77/94] fix: do not leave an iseg index older than its data
 when it is kept open

While the index is kept open, for example by a reader, imported data are only in
the WAL, and the segment was considered to have data newer than the index: a
check would rescan it, bringing back the data that had been removed.
---
 arki/segment/iseg.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 3d5da36..ea1b30e 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -385,6 +385,12 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
 
     res.segment_mtime = data->timestamp().value_or(0);
     res.data_timespan = index->query_data_timespan();
+
+    // While others, like readers, keep the index open, changes are only in the
+    // WAL, and the index would look older than the data
+    auto path_index = segment().abspath_iseg_index();
+    if (res.count_ok && sys::timestamp(path_index) < res.segment_mtime)
+        sys::touch(path_index, res.segment_mtime);
     return res;
 }
 
-- 
2.43.0


From b0c627be25d5819e9c53413671485d5aac4b5d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 78/94] fix: serve the configuration of datasets as it is
 written in configuration files

configparser.ConfigParser rejects values which contain '%', changes the
case of keys, and does not quote values
---
 python/arkimet/server/views.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 6b6cce2..097e063 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -1,4 +1,3 @@
-import configparser
 import contextlib
 import html
 import io
@@ -12,6 +11,8 @@ from urllib.parse import quote
 
 from werkzeug.exceptions import NotFound
 
+import arkimet as arki
+
 
 class ArkiView:
     """
@@ -296,10 +297,8 @@ class ArkiDatasetConfig(ArkiView):
             if self.kwargs["name"] not in self.handler.server.remote_cfg:
                 raise NotFound("Dataset {} not found".format(self.kwargs["name"]))
             self.headers_filename = self.kwargs["name"] + ".config"
-            cfg = configparser.ConfigParser()
-            cfg.add_section(self.kwargs["name"])
-            for k, v in self.handler.server.remote_cfg[self.kwargs["name"]].items():
-                cfg.set(self.kwargs["name"], k, v)
+            cfg = arki.cfg.Sections()
+            cfg[self.kwargs["name"]] = self.handler.server.remote_cfg[self.kwargs["name"]]
 
             out = io.StringIO()
             cfg.write(out)
-- 
2.43.0


From 536b15d303534f207c36475e7ed673d74f9efd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 79/94] fix: do not let clients take an interrupted answer for
 a complete one

When an error happens after the headers are sent, the connection was closed
as if the answer were complete: the client silently got truncated data
---
 python/arkimet/cmdline/server.py | 10 ++++++++++
 python/arkimet/server/views.py   |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/arkimet/cmdline/server.py b/python/arkimet/cmdline/server.py
index 945cf54..20367b6 100644
--- a/python/arkimet/cmdline/server.py
+++ b/python/arkimet/cmdline/server.py
@@ -3,6 +3,7 @@ import argparse
 import logging
 import re
 import socket
+import struct
 import subprocess
 import sys
 import threading
@@ -173,6 +174,15 @@ class Handler(BaseHTTPRequestHandler):
             self.end_headers()
             self.wfile.write(e.get_body(request.environ).encode("utf-8"))
 
+    def abort_connection(self):
+        """
+        Close the connection in a way that is seen as an error by the client
+        """
+        # With SO_LINGER set to 0, close sends a reset instead of a regular end
+        # of connection
+        self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
+        self.connection.close()
+
     def do_GET(self):
         self.dispatch(method="get")
 
diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 097e063..41d3d33 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -106,8 +106,9 @@ class ArkiView:
         Called in an exception handler, send a response to communicate the
         exception.
 
-        If response headers have already been sent, then there is nothing we
-        can do, and just log the exception.
+        If response headers have already been sent, then there is no way to send
+        the exception: log it and abort the connection, so that the client does
+        not take what it received so far as a complete answer.
         """
         if not self.headers_sent:
             logging.exception("Exception caught before headers have been sent")
@@ -124,6 +125,7 @@ class ArkiView:
             self.handler.wfile.write(b"\n")
         else:
             logging.exception("Exception caught after headers have been sent")
+            self.handler.abort_connection()
 
     def http_error(self, code: int, message: Optional[str] = None):
         """
-- 
2.43.0


From cca1be9212de36ca40a010400814c8a20fbe9bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 80/94] fix: report errors whose message cannot be sent as it
 is in an HTTP header

Messages with characters outside of latin1 made the server close the
connection without an answer, and messages with newlines broke headers
---
 python/arkimet/server/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/arkimet/server/views.py b/python/arkimet/server/views.py
index 41d3d33..65a3379 100644
--- a/python/arkimet/server/views.py
+++ b/python/arkimet/server/views.py
@@ -117,7 +117,9 @@ class ArkiView:
             code = getattr(ex, "code", 500)
             self.handler.send_response(code)
             self.handler.send_header("Content-Type", "text/plain")
-            self.handler.send_header("Arkimet-Exception", str(ex))
+            # Headers can only contain one line of latin1 text
+            header = " ".join(str(ex).split()).encode("latin1", "replace").decode("latin1")
+            self.handler.send_header("Arkimet-Exception", header)
             self.handler.end_headers()
             self.handler.flush_headers()
             self.headers_sent = True
-- 
2.43.0


From 4ea8a24076607c24f3496c2a31d4c3fda5f22a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 81/94] fix: file descriptors of zip files were closed twice

zip_fdopen closes the file descriptor it is given: closing it again later
closed files, sockets or locks opened in the meantime with the same number
---
 arki/utils/zip.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arki/utils/zip.cc b/arki/utils/zip.cc
index 97b07ab..8f10625 100644
--- a/arki/utils/zip.cc
+++ b/arki/utils/zip.cc
@@ -181,12 +181,16 @@ ZipReader::ZipReader(DataFormat format, core::NamedFileDescriptor&& fd)
     throw std::runtime_error(
         "cannot read .zip files: libzip was not available at compile time");
 #else
+    // On success, zip_fdopen closes the file descriptor: take it from fd, so
+    // that it does not get closed again, when its number may be in use for
+    // something else
+    core::NamedFileDescriptor zipfd(std::move(fd));
     int err = 0;
-    zip     = zip_fdopen(fd, 0, &err);
+    zip     = zip_fdopen(zipfd, 0, &err);
     if (!zip)
     {
-        fd.close();
-        throw zip_error(err, "cannot open zip file "s + fd.path().native());
+        zipfd.close();
+        throw zip_error(err, "cannot open zip file "s + zipname.native());
     }
 #endif
 }
-- 
2.43.0


From 9a8623e99d38be9404b07f81201cedf3395e336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:39 +0000
Subject: [PATCH 82/94] fix: index tar and zip segments from their metadata
 when they need reindexing

They cannot be scanned: after archiving them was interrupted, check failed
---
 arki/segment/metadata.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 584deea..2e41031 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -611,6 +611,17 @@ Checker::FsckResult Checker::fsck(segment::Reporter& reporter, bool quick)
 
 bool Checker::scan_data(segment::Reporter& reporter, metadata_dest_func dest)
 {
+    std::string type = data->type();
+    if ((type == "tar" || type == "zip") && has_valid_metadata(m_segment))
+    {
+        // These segments cannot be scanned: keep what their metadata say, if
+        // they are not older than the data
+        for (const auto& md : scan())
+            if (!dest(md))
+                return false;
+        return true;
+    }
+
     auto data_checker = data->checker();
     return data_checker->rescan_data(
         [&](const std::string& message) { reporter.info(segment(), message); },
-- 
2.43.0


From 6097d0fa66d478478f398a4f4fb22dd0a5d7540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:26 +0000
Subject: [PATCH 83/94] fix: do not leave an iseg index older than its data
 after maintenance

While the index is kept open, for example by a reader, what a repack, a
conversion or a rescan changed is only in the WAL, and the next check found the
data newer than the index and asked to rescan the segment.
---
 arki/segment/iseg.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index ea1b30e..ff4d9ec 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -32,6 +32,19 @@ bool has_valid_iseg_index(std::shared_ptr<const Segment> segment)
     return true;
 }
 
+/**
+ * Make sure that the index does not look older than the data.
+ *
+ * While others, like readers, keep the index open, changes are only in the
+ * WAL, and the index file is not updated.
+ */
+static void touch_old_index(const Segment& segment, time_t mtime_data)
+{
+    auto path_index = segment.abspath_iseg_index();
+    if (sys::timestamp(path_index, mtime_data) < mtime_data)
+        sys::touch_ifexists(path_index, mtime_data);
+}
+
 /*
  * Session
  */
@@ -386,11 +399,8 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
     res.segment_mtime = data->timestamp().value_or(0);
     res.data_timespan = index->query_data_timespan();
 
-    // While others, like readers, keep the index open, changes are only in the
-    // WAL, and the index would look older than the data
-    auto path_index = segment().abspath_iseg_index();
-    if (res.count_ok && sys::timestamp(path_index) < res.segment_mtime)
-        sys::touch(path_index, res.segment_mtime);
+    if (res.count_ok)
+        touch_old_index(segment(), res.segment_mtime);
     return res;
 }
 
@@ -588,6 +598,7 @@ static time_t get_data_mtime_after_fix(std::shared_ptr<const Data> data,
             << operation_desc;
         throw std::runtime_error(buf.str());
     }
+    touch_old_index(data->segment(), ts.value());
     return ts.value();
 }
 
@@ -809,6 +820,8 @@ void Fixer::reindex(arki::metadata::Collection& mds)
     pending_index.commit();
     index.vacuum();
     checker().publish_index();
+    if (auto ts = checker().data->timestamp())
+        touch_old_index(segment(), ts.value());
 }
 
 void Fixer::move(std::shared_ptr<arki::Segment> dest)
-- 
2.43.0


From 063bd7162693277a96e0a9df2bb93c2fb4acb24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 84/94] fix: arki-scan looked for destination datasets among
 the input files

---
 arki/dispatcher.cc                | 5 +++++
 arki/dispatcher.h                 | 3 +++
 arki/python/arki-scan/dispatch.cc | 5 +++--
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/arki/dispatcher.cc b/arki/dispatcher.cc
index 0491a52..2135fc8 100644
--- a/arki/dispatcher.cc
+++ b/arki/dispatcher.cc
@@ -51,6 +51,11 @@ Dispatcher::Dispatcher(std::shared_ptr<dataset::Pool> pool)
 
 Dispatcher::~Dispatcher() {}
 
+DatasetUse Dispatcher::dataset_use(const std::string& name) const
+{
+    return pool->dataset(name)->use();
+}
+
 void Dispatcher::add_validator(const metadata::Validator& v)
 {
     validators.push_back(&v);
diff --git a/arki/dispatcher.h b/arki/dispatcher.h
index 8347ef0..d4d956a 100644
--- a/arki/dispatcher.h
+++ b/arki/dispatcher.h
@@ -65,6 +65,9 @@ public:
                           bool drop_cached_data_on_commit);
 
     virtual void flush() = 0;
+
+    /// Return what the dataset with the given name is used for
+    DatasetUse dataset_use(const std::string& name) const;
 };
 
 /**
diff --git a/arki/python/arki-scan/dispatch.cc b/arki/python/arki-scan/dispatch.cc
index d5adda8..1a07a4e 100644
--- a/arki/python/arki-scan/dispatch.cc
+++ b/arki/python/arki-scan/dispatch.cc
@@ -121,12 +121,13 @@ void MetadataDispatch::process_partial_batch(const std::filesystem::path& name,
                 "WARNING: The data has not been imported in ANY dataset");
             ++stats.not_imported;
         }
-        else if (pool->dataset(e->destination)->use() == DatasetUse::ERRORS)
+        else if (dispatcher->dataset_use(e->destination) == DatasetUse::ERRORS)
         {
             do_copyko(*e->md);
             ++stats.in_error_dataset;
         }
-        else if (pool->dataset(e->destination)->use() == DatasetUse::DUPLICATES)
+        else if (dispatcher->dataset_use(e->destination) ==
+                 DatasetUse::DUPLICATES)
         {
             do_copyko(*e->md);
             ++stats.duplicates;
-- 
2.43.0


From d579a492ad7346477c2b00ae0d628c192b9a7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 85/94] fix: arki-scan dispatched data of files with errors
 together with those of the next file

---
 arki/python/arki-scan/dispatch.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arki/python/arki-scan/dispatch.cc b/arki/python/arki-scan/dispatch.cc
index 1a07a4e..8e84c48 100644
--- a/arki/python/arki-scan/dispatch.cc
+++ b/arki/python/arki-scan/dispatch.cc
@@ -77,6 +77,10 @@ DispatchResults MetadataDispatch::process(dataset::Reader& ds,
     catch (std::exception& e)
     {
         nag::warning("%s: cannot read contents: %s", name.c_str(), e.what());
+        // Do not leave the data read so far to be dispatched with the contents
+        // of the next file
+        partial_batch->clear();
+        partial_batch_data_size = 0;
         next.process(*results->create_reader(), name);
         throw;
     }
-- 
2.43.0


From 6598270a67a9ffef138fac08df0b94e7916afb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 86/94] fix: arki-scan --movework did nothing

---
 arki/python/arki-scan.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arki/python/arki-scan.cc b/arki/python/arki-scan.cc
index e224284..23ab542 100644
--- a/arki/python/arki-scan.cc
+++ b/arki/python/arki-scan.cc
@@ -62,7 +62,6 @@ struct FileSource
     std::shared_ptr<arki::dataset::Dataset> dataset;
     std::shared_ptr<arki::dataset::Reader> reader;
 
-    arki::core::cfg::Section cfg;
     std::string movework;
     std::string moveok;
     std::string moveko;
@@ -74,8 +73,12 @@ struct FileSource
 
     void open()
     {
-        if (!movework.empty() && cfg.value("type") == "file")
+        if (!movework.empty() && dataset->config->value("type") == "file")
+        {
+            arki::core::cfg::Section cfg(*dataset->config);
             cfg.set("path", moveFile(cfg.value("path"), movework));
+            dataset = dataset->session->dataset(cfg);
+        }
         reader = dataset->create_reader();
     }
 
-- 
2.43.0


From 0cb3a5b9d5170a9cd71ced888b751b31a42cada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 87/94] fix: arki-scan --ignore-duplicates failed if there were
 only duplicates

---
 arki/python/arki-scan.cc | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/arki/python/arki-scan.cc b/arki/python/arki-scan.cc
index 23ab542..593dfdd 100644
--- a/arki/python/arki-scan.cc
+++ b/arki/python/arki-scan.cc
@@ -291,21 +291,8 @@ compute_result(bool all_processed, bool ignore_duplicates,
     {
         if (res.not_imported)
             return EX_CANTCREAT;
-        if (res.in_error_dataset)
-        {
-            have_issues = true;
-            continue;
-        }
-        if (res.duplicates && !ignore_duplicates)
-        {
+        if (!res.success(ignore_duplicates))
             have_issues = true;
-            continue;
-        }
-        if (!res.successful)
-        {
-            have_issues = true;
-            continue;
-        }
     }
 
     if (have_issues)
-- 
2.43.0


From 0a97a489f96867b19e6f602ebae36323e4c1134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 88/94] fix: arki-check --restrict always failed

---
 python/arkimet/cmdline/check.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/python/arkimet/cmdline/check.py b/python/arkimet/cmdline/check.py
index 168617a..3d40363 100644
--- a/python/arkimet/cmdline/check.py
+++ b/python/arkimet/cmdline/check.py
@@ -113,14 +113,10 @@ class Check(AppConfigMixin, App):
             self.add_config_section(section)
 
         if not self.session.has_datasets():
+            if self.config_filter_discarded:
+                self.parser.error("no accessible datasets found for the given --restrict value")
             self.parser.error("you need to specify at least one dataset to work on")
 
-        # Remove unallowed entries
-        if self.args.restrict:
-            self.filter_restrict(self.args.restrict)
-
-        if not self.session.has_datasets():
-            self.parser.error("no accessible datasets found for the given --restrict value")
 
     def run(self):
         super().run()
-- 
2.43.0


From 0f893a483c419c70413398d0d5baec6480ec99e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 89/94] fix: arki-check --compress=0 worked also on online data

---
 python/arkimet/cmdline/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arkimet/cmdline/check.py b/python/arkimet/cmdline/check.py
index 3d40363..b8a6048 100644
--- a/python/arkimet/cmdline/check.py
+++ b/python/arkimet/cmdline/check.py
@@ -78,7 +78,7 @@ class Check(AppConfigMixin, App):
             if self.args.remove_all or self.args.remove_old or self.args.repack:
                 offline = False
                 online = True
-            elif self.args.tar or self.args.zip or self.args.compress:
+            elif self.args.tar or self.args.zip or self.args.compress is not None:
                 offline = True
                 online = False
             else:
-- 
2.43.0


From 02026b6a1fd09d1f32e0bd50b838575d410d8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 90/94] fix: arki-mergeconf did not name the dataset with a
 filter which is not valid

---
 python/arkimet/cmdline/mergeconf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arkimet/cmdline/mergeconf.py b/python/arkimet/cmdline/mergeconf.py
index 1a529dd..3d7abcb 100644
--- a/python/arkimet/cmdline/mergeconf.py
+++ b/python/arkimet/cmdline/mergeconf.py
@@ -81,8 +81,8 @@ class Mergeconf(AppConfigMixin, App):
 
             try:
                 self.session.matcher(filter)
-            except ValueError as e:
-                print("{}: {}".format(name, e), file=sys.stderr)
+            except (ValueError, RuntimeError) as e:
+                print("{}: {}".format(dataset.name, e), file=sys.stderr)
                 has_errors = True
         if has_errors:
             raise Fail("Some input files did not validate.")
-- 
2.43.0


From 1d71b281d2bc89926acdec352bbe43e60e544554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 91/94] fix: do not create the MANIFEST of simple datasets in
 checks that must not change them

---
 arki/dataset/simple/checker.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index c5f02db..4f6e154 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -243,20 +243,22 @@ Checker::Checker(std::shared_ptr<simple::Dataset> dataset)
     manifest.reread();
 }
 
-Checker::~Checker() { manifest.flush(); }
+Checker::~Checker() {}
 
 std::string Checker::type() const { return "simple"; }
 
 void Checker::repack(CheckerConfig& opts, unsigned test_flags)
 {
     segmented::Checker::repack(opts, test_flags);
-    manifest.flush();
+    if (!opts.readonly)
+        manifest.flush();
 }
 
 void Checker::check(CheckerConfig& opts)
 {
     segmented::Checker::check(opts);
-    manifest.flush();
+    if (!opts.readonly)
+        manifest.flush();
 }
 
 std::unique_ptr<segmented::CheckerSegment>
@@ -358,7 +360,10 @@ Checker::test_change_metadata(const std::filesystem::path& relpath,
     mds.expand_date_range(interval);
 
     if (const auto* mseg = manifest.segment(relpath))
+    {
         manifest.set(relpath, mseg->mtime, interval);
+        manifest.flush();
+    }
 
     return mds;
 }
-- 
2.43.0


From ea4c82c2b705ffe836182ff2183d51d447d2d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 92/94] fix: arki-scan skipped input files with the name of a
 previous one

---
 python/arkimet/cmdline/scan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/arkimet/cmdline/scan.py b/python/arkimet/cmdline/scan.py
index 6a84e88..69122d2 100644
--- a/python/arkimet/cmdline/scan.py
+++ b/python/arkimet/cmdline/scan.py
@@ -94,11 +94,17 @@ class Scan(AppConfigMixin, AppWithProcessor):
                 self.sources = self.args.source
 
             # From command line arguments, looking for data files or datasets
+            names = set()
             for source in self.sources:
                 if source == "-":
                     self.parser.error("use --stdin to read data from standard input")
                 section = arkimet.dataset.read_config(source)
-                self.add_config_section(section)
+                name = section["name"]
+                if section.get("type") == "file" and name in names:
+                    # Do not skip files with the same name in different directories
+                    name = section["path"]
+                names.add(name)
+                self.add_config_section(section, name)
 
             if not self.session.has_datasets():
                 self.parser.error("you need to specify at least one input file or dataset")
-- 
2.43.0


From 7b6077e8c398a466eafa60978d489638952991d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 93/94] fix: arki-query --archive used its output after freeing
 it when writing failed

---
 arki/metadata/archive.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arki/metadata/archive.cc b/arki/metadata/archive.cc
index e79d6ae..f04c637 100644
--- a/arki/metadata/archive.cc
+++ b/arki/metadata/archive.cc
@@ -206,6 +206,12 @@ public:
         if (archive_write_open_fd(a, *out) != ARCHIVE_OK)
             throw archive_runtime_error(a, "archive_write_open_fd failed");
     }
+    ~LibarchiveFileOutput()
+    {
+        // This can still write to out
+        archive_write_free(a);
+        a = nullptr;
+    }
 };
 
 namespace {
@@ -271,6 +277,12 @@ public:
             throw archive_runtime_error(
                 a, "archive_write_set_bytes_in_last_block failed");
     }
+    ~LibarchiveStreamOutput()
+    {
+        // This can still write to out
+        archive_write_free(a);
+        a = nullptr;
+    }
 };
 #endif
 
-- 
2.43.0


From c3d792e7802651b23b31aaa0c745071bd21fbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:43 +0000
Subject: [PATCH 94/94] fix: arki-dump --from-yaml-summary added each summary
 to the previous ones

---
 arki/python/arki-dump.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arki/python/arki-dump.cc b/arki/python/arki-dump.cc
index 0851cfa..65ee5d0 100644
--- a/arki/python/arki-dump.cc
+++ b/arki/python/arki-dump.cc
@@ -204,8 +204,13 @@ struct reverse_summary : public MethKwargs<reverse_summary, arkipy_ArkiDump>
                 input_name = input.abstract->path();
                 reader = arki::core::LineReader::from_abstract(*input.abstract);
             }
-            while (summary.readYaml(*reader, input_name))
-                summary.write(*output);
+            while (!reader->eof())
+            {
+                summary.clear();
+                summary.readYaml(*reader, input_name);
+                if (!summary.empty() || !reader->eof())
+                    summary.write(*output);
+            }
 
             rg.lock();
             return throw_ifnull(PyLong_FromLong(0));
-- 
2.43.0

