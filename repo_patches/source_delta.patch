From d1aca0e3ee9dc7dc7d353873b9f3b63009ff7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 01/64] fix: keep looking in older files when a file has only
 newer records

A query whose end was at or before the smallest end of the newest file
returned nothing instead of the records in the older files.
---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..44fd7b8 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -360,7 +360,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			if meta.SmallestEnd >= end {
-				return false, nil
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From 3b0e689df8ea4739a0cfad5d82ab98f0dd73803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 02/64] fix: do not treat a zero start or end in the metadata
 as unset

The first value of a file with an end of 0 was hidden by the smallest end
of the second one.
---
 database/files/metric.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 44fd7b8..9eee527 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -313,10 +313,10 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	}
 	meta.Head = new_head
 	meta.End = end
-	if meta.Start == 0 {
+	if head == f.Capacity() {
 		meta.Start = start
 	}
-	if meta.SmallestEnd == 0 || end < meta.SmallestEnd {
+	if head == f.Capacity() || end < meta.SmallestEnd {
 		meta.SmallestEnd = end
 	}
 
-- 
2.43.0


From 723fd918a74107227fd85ba8836bb573b7873f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 03/64] fix: check that a value fits into an empty file before
 making room for it

A value that filled the rest of the first file after a single record was
refused for good, and a value too large for any file dropped the oldest
file before it was refused.
---
 database/files/metric.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 9eee527..f46e14a 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -246,11 +246,10 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// if it does not fit into an empty file either, then we will not be
+		// able to write it, and must not make room for it.
+		nr = numRecords(len(data), m.opts.fch.opts.Size)
+		if nr == 0 || nr > m.opts.fch.opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From b437e7c20e3c62a3f1944b33674e4c2efcb0e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 04/64] fix: forget the handle of an empty last file that is
 removed

The handle stayed in the cache, so the next file with that number was
written into the removed file.
---
 database/files/metric.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index f46e14a..37595ec 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -198,6 +198,7 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 			// since this file is empty and there is an earlier file, we should
 			// remove it.
 			m.opts.fch.releaseFile(path, f)
+			m.opts.fch.evictFile(path)
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From 6fbef041e6f31b1bb120c8af48468f959641e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 05/64] fix: remove every file beyond the limit

After a failed removal, or with a smaller limit than before, the metric
kept more files than configured forever.
---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 37595ec..6c1646d 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -258,7 +258,7 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		// the first number. since it may be in the cache, we need to evict
 		// it from the cache if it is there. bump first once the file is
 		// removed.
-		if m.last-m.first >= m.opts.max && m.opts.max > 0 {
+		for m.last-m.first >= m.opts.max && m.opts.max > 0 {
 			first_path := m.filenameAt(m.first)
 			m.opts.fch.evictFile(first_path)
 			os.Remove(first_path)
-- 
2.43.0


From e0b5b54dc69e7a93a9c044cd6b6fad5b57bc28f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 06/64] fix: do not create a data file when reading

Querying the prefix of a metric created an empty metric of that name.
---
 database/files/metric.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 6c1646d..59e3db1 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -135,6 +135,12 @@ func newMetric(ctx context.Context, opts metricOptions) (*metric, error) {
 		}
 	}
 
+	// a reader must not create anything, so it has no files at all.
+	if !first_set && opts.ro {
+		first, last = 1, 0
+		first_set = true
+	}
+
 	// if we didn't set the first, create an empty file at 1. this simplifies
 	// the logic because we can from now on assume that at least one possibly
 	// empty file exists.
-- 
2.43.0


From 69a230b75be363242a3d034d1d292ffd3b989cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 07/64] fix: do not create a metric for a value that can not be
 written

A refused first value left a metric without values behind.
---
 database/files/db_write.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/database/files/db_write.go b/database/files/db_write.go
index 4954036..9d0d5cd 100644
--- a/database/files/db_write.go
+++ b/database/files/db_write.go
@@ -100,7 +100,10 @@ func (db *DB) write(ctx context.Context, num int, value queuedValue) (
 	defer db.locks.Unlock(value.metric)
 
 	// acquire the datastructure encapsulating metric write logic
-	met, err := db.newMetric(ctx, value.metric, false)
+	// a value that does not fit into a new file must not create one.
+	nr := numRecords(len(value.data), db.opts.Size)
+	too_large := nr == 0 || nr > db.opts.Cap
+	met, err := db.newMetric(ctx, value.metric, too_large)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 3a8bb72e7ad70d4dad8f669b252df44386d99e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 08/64] fix: create data files atomically

A crash or an error while a data file was created left an empty or unusable
file that made every later write and read of the metric fail. The mapping
leaked on errors, too.
---
 database/files/file.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..097ff22 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -32,11 +32,19 @@ type file struct {
 func createFile(ctx context.Context, path string, size, cap int) (
 	f file, err error) {
 
-	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// the file gets its name once it is usable, so that neither a crash nor an
+	// error leaves a data file that can not be opened.
+	tmp := path + ".tmp"
+	fh, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return file{}, Error.Wrap(err)
 	}
 	defer fh.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(tmp)
+		}
+	}()
 	fd := int(fh.Fd())
 
 	// these overflow checks might be too restrictive, but i think it will
@@ -68,9 +76,15 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
+	if err := os.Rename(tmp, path); err != nil {
+		system.Munmap(data, len)
+		return file{}, Error.Wrap(err)
+	}
+
 	return file{
 		data: data,
 		len:  len,
@@ -110,10 +124,12 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
 	if meta.Size_ < recordHeaderSize {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
-- 
2.43.0


From 1b17b14c53562c1f5f3b01cee66d95ebf4108969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 09/64] fix: do not trust the head and size of a truncated file

Looking for the head of a truncated file did not end, and a file shorter
than its metadata claims crashed the process.
---
 database/files/file.go     | 2 +-
 database/files/file_ops.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index 097ff22..8ce2013 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -128,7 +128,7 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 		return f, err
 	}
 
-	if meta.Size_ < recordHeaderSize {
+	if meta.Size_ < recordHeaderSize || meta.Size_ > len {
 		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..d4c10d1 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -14,7 +14,10 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 
 	head := m.Head
 	if head < 0 {
-		return head, nil
+		return -1, nil
+	}
+	if head >= f.Capacity() {
+		head = f.Capacity() - 1
 	}
 
 	// figure out if head has a record. typically, it won't.
-- 
2.43.0


From f184b575cdf85e77a51814f14ba94e2b507bde1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 10/64] fix: survive a metadata record that is only partially
 written

The metadata is updated in place. A crash in the middle of that made every
later read and write of the metric fail.
---
 database/files/file.go         | 12 +++++++++++-
 database/files/file_helpers.go | 15 +++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 8ce2013..dcd0d9c 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -123,6 +123,11 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// read the metadata record to determine the size of the records in this
 	// file.
 	meta, err := readMetadata(slice(data, len))
+	if err != nil {
+		// an update of it may have been torn by a crash. the size of records is
+		// all that is required of it.
+		meta.Size_, err = recoverSize(slice(data, len), err)
+	}
 	if err != nil {
 		system.Munmap(data, len)
 		return f, err
@@ -170,7 +175,12 @@ func (f file) Close() error {
 
 // Metadata returns the metadata record.
 func (f file) Metadata(ctx context.Context) (m meta.Metadata, err error) {
-	return readMetadata(f.slice()[:f.size])
+	m, err = readMetadata(f.slice()[:f.size])
+	if err != nil {
+		// everything in it only speeds up searches, so assume nothing.
+		m = meta.Metadata{Size_: f.size, Head: f.cap - 1, SmallestEnd: -1 << 63}
+	}
+	return m, nil
 }
 
 // SetMetadata sets the metadata record.
diff --git a/database/files/file_helpers.go b/database/files/file_helpers.go
index a5b0b0f..5f2c508 100644
--- a/database/files/file_helpers.go
+++ b/database/files/file_helpers.go
@@ -3,6 +3,7 @@
 package files
 
 import (
+	"encoding/binary"
 	"unsafe"
 
 	"github.com/vivint/rothko/database/files/internal/meta"
@@ -60,6 +61,20 @@ func readMetadata(buf []byte) (m meta.Metadata, err error) {
 	return m, nil
 }
 
+// recoverSize returns the size of records out of a buffer with a metadata that
+// is only partially written, or the error. the size is the first field of the
+// metadata, and never changes.
+func recoverSize(buf []byte, err error) (int, error) {
+	if len(buf) <= recordHeaderSize || buf[recordHeaderSize] != 0x8 {
+		return 0, err
+	}
+	size, n := binary.Uvarint(buf[recordHeaderSize+1:])
+	if n <= 0 || size == 0 || uint64(len(buf))%size != 0 {
+		return 0, err
+	}
+	return int(size), nil
+}
+
 // writeRecord writes a record value into the buffer, ensuring that it fits in
 // the buffer.
 func writeRecord(buf []byte, rec record) (err error) {
-- 
2.43.0


From de8af8edc3d8ae18b0a91c988f9141cb9843a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 11/64] fix: do not let a damaged newest value refuse all
 writes

After a crash in the middle of a write, or with a damaged newest value, every
later write to the metric failed, or was refused because of a value that can
not be read.
---
 database/files/file_ops.go | 17 +++++++++++++++++
 database/files/metric.go   |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index d4c10d1..8f2eefc 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -4,6 +4,23 @@ package files
 
 import "context"
 
+// hasValue returns if a complete value starts at the index.
+func hasValue(ctx context.Context, f file, n int) bool {
+	begin, err := f.Record(ctx, n)
+	if err != nil || begin.kind != recordKind_begin {
+		return err == nil && begin.kind == recordKind_complete
+	}
+	for n++; ; n++ {
+		rec, err := f.Record(ctx, n)
+		if err != nil || rec.start != begin.start || rec.end != begin.end {
+			return false
+		}
+		if rec.kind != recordKind_continue {
+			return rec.kind == recordKind_end
+		}
+	}
+}
+
 // getHeadPointer returns the index of the head pointer of the file, which is
 // where the next write would go, using the metadata in the file as a hint.
 func getHeadPointer(ctx context.Context, f file) (n int, err error) {
diff --git a/database/files/metric.go b/database/files/metric.go
index 59e3db1..530e841 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -198,6 +198,11 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 			return file{}, 0, err
 		}
 
+		// skip over a value that was only partially written.
+		for head+1 < f.Capacity() && !hasValue(ctx, f, head+1) {
+			head++
+		}
+
 		// if the file contains no records, check a previous file as long as
 		// there exists one.
 		if head == f.Capacity()-1 && m.last > m.first {
-- 
2.43.0


From 97624e052e6a8e96bcfe341663975c530beb7d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 12/64] fix: remove leftovers of an interrupted write before
 the next one

Records of an interrupted write were taken for newer ones once the records
written after it met them: they hid a written value, and all later writes
were refused.
---
 database/files/file.go   | 7 +++++++
 database/files/metric.go | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/database/files/file.go b/database/files/file.go
index dcd0d9c..e5ff9f4 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -218,6 +218,13 @@ func (f file) HasRecord(ctx context.Context, n int) (ok bool) {
 	return f.slice()[off] != 0
 }
 
+// ClearRecord removes the record stored at the index, if there is one.
+func (f file) ClearRecord(ctx context.Context, n int) {
+	if f.HasRecord(ctx, n) {
+		f.slice()[f.offset(n)] = 0
+	}
+}
+
 // FullSync causes the file's contents to be synced to disk.
 func (f file) FullSync(ctx context.Context) (err error) {
 	return system.Msync(f.data, f.len, system.MS_SYNC)
diff --git a/database/files/metric.go b/database/files/metric.go
index 530e841..561e42f 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -305,6 +305,12 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	head -= nr
 	new_head := head - 1
 
+	// remove what an interrupted write may have left there, so that it can not
+	// be taken for a part of this value or for a newer one.
+	for n := head + nr - 1; n >= new_head; n-- {
+		f.ClearRecord(ctx, n)
+	}
+
 	// write the records into the file
 	err = iterateRecords(start, end, data, f.Size(),
 		func(rec record) error {
-- 
2.43.0


From 283c4a401e65d000d6b1e071e059fecec139e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 13/64] fix: report failures of munmap and msync

---
 database/files/internal/system/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/internal/system/mmap.go b/database/files/internal/system/mmap.go
index 4cf98ac..04c8984 100644
--- a/database/files/internal/system/mmap.go
+++ b/database/files/internal/system/mmap.go
@@ -24,7 +24,7 @@ func Mmap(fd int, length int, prot int, flags int) (data uintptr, err error) {
 func Munmap(data uintptr, length int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MUNMAP, data, uintptr(length), 0)
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
@@ -33,7 +33,7 @@ func Msync(data uintptr, length int, flags int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MSYNC, data, uintptr(length),
 		uintptr(flags))
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
-- 
2.43.0


From 43e72fcfb016ea95446befacacd4a6a6cae49019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 14/64] fix: refuse record sizes that the metadata does not fit
 into

Values were stored but reported as failed, because the metadata could not
be updated.
---
 database/files/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/file.go b/database/files/file.go
index e5ff9f4..e56ecf5 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -59,6 +59,11 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		return file{}, Error.New("capacity too large")
 	}
 
+	// the largest possible metadata has to fit.
+	if size < recordHeaderSize+50 {
+		return file{}, Error.New("record size too small")
+	}
+
 	len := size * (cap + 1)
 	if err := system.Allocate(fd, int64(len)); err != nil {
 		return file{}, err
-- 
2.43.0


From 446ef2afaaad724cef194a7121f17af4e4e044cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 15/64] fix: read the worker names under their lock when
 listing metrics

Two concurrent listings lost names: one of them merged a set that the other
one had replaced already, and then dropped the one that replaced it. It was
a data race, too.
---
 database/files/db_read.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..42d6c91 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -62,9 +62,9 @@ func (db *DB) Metrics(ctx context.Context,
 	// merge the worker sets in if we have a flag for it
 	copied := false
 	locked := false
-	for i, names_w := range db.names_w {
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
+		len_names_w := db.names_w[i].Len()
 		db.names_w_mu[i].Unlock()
 
 		// skip if we don't need to merge it in
@@ -94,7 +94,7 @@ func (db *DB) Metrics(ctx context.Context,
 		}
 
 		// merge the worker map in
-		names.Merge(names_w)
+		names.Merge(db.names_w[i])
 
 		// clear out the worker map
 		db.names_w[i] = sset.New(0)
-- 
2.43.0


From 7ead3df4b3dbdb185d0c291f766fc9227e6e62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 16/64] fix: copy an empty set of names before changing it

The set was shared with concurrent listings.
---
 database/files/db_read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 42d6c91..fad5243 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -87,7 +87,7 @@ func (db *DB) Metrics(ctx context.Context,
 		// some concurrent Metrics call has updated the atomic.Value
 		if !copied {
 			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
+			if ok {
 				names = new_names.Copy()
 			}
 			copied = true
-- 
2.43.0


From 34afd3d5fc42fb55a3e11300bba6a785085b2a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 17/64] fix: never miss an acknowledged metric while another
 listing merges it

The names were removed from the set of the worker before they were stored,
and the stored names were loaded before the sets of the workers were
checked, so a concurrent listing found them in neither.
---
 database/files/db_read.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index fad5243..1489c61 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -62,6 +62,7 @@ func (db *DB) Metrics(ctx context.Context,
 	// merge the worker sets in if we have a flag for it
 	copied := false
 	locked := false
+	merged := []int(nil)
 	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
 		len_names_w := db.names_w[i].Len()
@@ -96,9 +97,9 @@ func (db *DB) Metrics(ctx context.Context,
 		// merge the worker map in
 		names.Merge(db.names_w[i])
 
-		// clear out the worker map
-		db.names_w[i] = sset.New(0)
-		db.names_w_mu[i].Unlock()
+		// keep it locked: concurrent calls have to find the names either in
+		// the worker map or in the stored names.
+		merged = append(merged, i)
 	}
 
 	// if we copied, we need to store the value now
@@ -106,6 +107,17 @@ func (db *DB) Metrics(ctx context.Context,
 		db.names.Store(names)
 	}
 
+	// clear out the worker maps
+	for _, i := range merged {
+		db.names_w[i] = sset.New(0)
+		db.names_w_mu[i].Unlock()
+	}
+
+	// a concurrent call may have merged names after we loaded them.
+	if new_names, ok := db.names.Load().(*sset.Set); ok {
+		names = new_names
+	}
+
 	// if we locked, we can unlock now as we're done populating and storing
 	if locked {
 		db.names_mu.Unlock()
-- 
2.43.0


From 029566b38e7f4adb91bc3b19c8796d2743368b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 18/64] fix: keep metrics that are added while the names are
 loaded

A name that was merged by a listing during the walk over the directories was
dropped when the walk, which had passed that directory already, finished.
---
 database/files/db_read.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 1489c61..9cb2963 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -134,6 +134,11 @@ func (db *DB) Metrics(ctx context.Context,
 // PopulateMetrics walks the directory tree of the metrics recreating the
 // in-memory cache of metric names. It should be called periodically.
 func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
+	before, ok := db.names.Load().(*sset.Set)
+	if !ok {
+		before = sset.New(0)
+	}
+
 	dp := newDBPopulator(db.dir)
 	switch err := dp.populate(ctx); {
 	case err == context.Canceled:
@@ -144,8 +149,18 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 
 	// all stores to the names map have to be done under the names_mu mutex.
 	db.names_mu.Lock()
+	defer db.names_mu.Unlock()
+
+	// keep the names that were added during the walk, it may have missed them.
+	if names, ok := db.names.Load().(*sset.Set); ok {
+		names.Iter(func(name string) bool {
+			if !before.Has(name) {
+				dp.out.Add(name)
+			}
+			return true
+		})
+	}
 	db.names.Store(dp.out)
-	db.names_mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From 8f8a382dc6edf7679b0f7bdc175ee2a4e9a8315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 19/64] fix: unlock the aggregate when its distribution cannot
 be made

---
 data/agg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..87dcb7e 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -40,6 +40,7 @@ func (a *agg) Observe(val float64, id []byte) {
 		if err == nil {
 			a.dist = dist
 		} else {
+			a.mu.Unlock()
 			return
 		}
 	}
-- 
2.43.0


From d23377f40de3776fb72b87bad12bddb8dbf6a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 20/64] fix: update the extremes of an aggregate together with
 its observations

---
 data/agg.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 87dcb7e..b3df51c 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -46,26 +46,21 @@ func (a *agg) Observe(val float64, id []byte) {
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
+	// bump observations. min and max have to be updated in the same critical
+	// section so that the first observation does not overwrite the extremes of
+	// others, and so that records are never captured half updated.
 	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
+	// in the common case we don't need to bump min and max.
 	if obs == 0 || val < min || val > max {
 
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
+		// we only make the copy if we'll be storing it.
 		var id_copy []byte
 		if id != nil {
 			id_copy = append(id_copy, id...)
 		}
 
-		a.mu.Lock()
 		if obs == 0 || val < a.rec.Min {
 			a.rec.Min = val
 			a.rec.MinId = id_copy
@@ -74,8 +69,9 @@ func (a *agg) Observe(val float64, id []byte) {
 			a.rec.Max = val
 			a.rec.MaxId = id_copy
 		}
-		a.mu.Unlock()
 	}
+
+	a.mu.Unlock()
 }
 
 // Finish returns the aggregated record, using the buf to marshal the data
-- 
2.43.0


From 3ff5b7e37397345814b0829e3ad429ae361a9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 21/64] fix: do not marshal a distribution while values are
 observed

---
 data/agg.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index b3df51c..70e7694 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -77,10 +77,11 @@ func (a *agg) Observe(val float64, id []byte) {
 // Finish returns the aggregated record, using the buf to marshal the data
 // and returning the buf. Mutating the returned buf invalidates the record.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
+	// the distribution may only be used under the mutex.
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
-- 
2.43.0


From e54f28b60b96e39cb41982f14cd7207dbb85903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:40 +0000
Subject: [PATCH 22/64] fix: skip aggregates without observations

---
 data/agg.go    | 6 ++++++
 data/writer.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/data/agg.go b/data/agg.go
index 70e7694..f26e4d5 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -83,6 +83,12 @@ func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 
 	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
+
+	// there is no distribution before the first observation.
+	if a.dist == nil {
+		return buf, out
+	}
+
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
 	out.Distribution = buf
diff --git a/data/writer.go b/data/writer.go
index 180cd4d..f16d02f 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,9 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +141,9 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From 63a353c1242bbc603121584829488a88fbef080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 23/64] fix: forget the memoized quantiles of a distribution
 when it changes

---
 dist/tdigest/wrapper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 80f4c68..b66575d 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -61,8 +61,9 @@ func (Wrapper) Kind() string {
 }
 
 // Observe adds the value to the t-digest.
-func (w Wrapper) Observe(val float64) {
+func (w *Wrapper) Observe(val float64) {
 	w.td.Add(val)
+	w.cache = nil // the quantiles changed
 }
 
 // Marshal appends a byte form of the t-digest to the provided buffer.
-- 
2.43.0


From 17d8d6e4506cf6e5f1fa058c1cada25eb6ee87bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:58 +0000
Subject: [PATCH 24/64] fix: keep the identifiers of the extremes of the first
 merged record

---
 merge/merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge/merge.go b/merge/merge.go
index 5a0e8c9..0d66a7d 100644
--- a/merge/merge.go
+++ b/merge/merge.go
@@ -70,7 +70,8 @@ func Merge(ctx context.Context, opts MergeOptions) (
 	}
 
 	// merge the max and min values
-	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
+	out.Min, out.MinId = opts.Records[0].Min, opts.Records[0].MinId
+	out.Max, out.MaxId = opts.Records[0].Max, opts.Records[0].MaxId
 	for _, r := range opts.Records[1:] {
 		if r.Min < out.Min {
 			out.Min = r.Min
-- 
2.43.0


From f41d7cd48f4b207fc863e92723095ea16e520794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:19 +0000
Subject: [PATCH 25/64] fix: return an error for a distribution that is not
 complete

---
 dist/tdigest/wrapper.go | 9 ++++++++-
 merge/resample.go       | 9 +++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index b66575d..9aa2f67 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -27,7 +27,14 @@ func (p Params) New() (dist.Dist, error) {
 }
 
 // Unmarshal loads a dist.Dist out of some bytes.
-func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
+func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {
+	// FromBytes panics if there is not enough data.
+	defer func() {
+		if val := recover(); val != nil {
+			err = errs.New("invalid t-digest: %v", val)
+		}
+	}()
+
 	dist, err := tdigest.FromBytes(data)
 	if err != nil {
 		return nil, errs.Wrap(err)
diff --git a/merge/resample.go b/merge/resample.go
index 38910b2..a694fee 100644
--- a/merge/resample.go
+++ b/merge/resample.go
@@ -6,6 +6,7 @@ import (
 	"context"
 
 	"github.com/vivint/rothko/data"
+	rothko_tdigest "github.com/vivint/rothko/dist/tdigest"
 	"github.com/zeebo/tdigest"
 )
 
@@ -33,11 +34,15 @@ func newResampler(dig *tdigest.TDigest) *resampler {
 func (res *resampler) Sample(ctx context.Context, r data.Record) error {
 	switch r.Kind {
 	case "tdigest":
-		other, err := tdigest.FromBytes(r.Distribution)
+		other, err := rothko_tdigest.Params{}.Unmarshal(r.Distribution)
 		if err != nil {
 			return err
 		}
-		return res.dig.Merge(other)
+		wrapper, ok := other.(*rothko_tdigest.Wrapper)
+		if !ok {
+			return Error.New("programmer error: params did not make t-digest")
+		}
+		return res.dig.Merge(wrapper.Underlying())
 	}
 
 	return Error.New("unknown distribution kind: %v", r.Kind)
-- 
2.43.0


From 558b21d4c503ef504c1fac511c98c0a0793955a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 26/64] fix: refuse to merge into a width, duration or number
 of samples without sense

---
 merge/merger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..66d7cc1 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -62,7 +62,10 @@ func NewMerger(opts MergerOptions) *Merger {
 // any Push operations happen.
 func (m *Merger) SetWidth(width int) {
 	m.width = width
-	m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	m.pixel_size = 0
+	if width > 0 {
+		m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	}
 	m.completed_px = int64(width)
 }
 
@@ -82,6 +85,13 @@ func (m *Merger) Push(ctx context.Context, rec data.Record) error {
 	if m.width == 0 {
 		return Error.New("invalid: must call SetWidth before Push")
 	}
+	if m.width < 0 || m.pixel_size <= 0 {
+		return Error.New("invalid: %d pixels for a duration of %v",
+			m.width, m.opts.Duration)
+	}
+	if m.opts.Samples <= 0 {
+		return Error.New("invalid: %d samples", m.opts.Samples)
+	}
 
 	mrec := mergeRecord{
 		rec:   rec,
-- 
2.43.0


From 6eff3e283ae61d75ad0d96854059b83f5683ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 27/64] fix: do not make columns of records outside of the
 period

---
 merge/merger.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index 66d7cc1..d285996 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -69,14 +69,14 @@ func (m *Merger) SetWidth(width int) {
 	m.completed_px = int64(width)
 }
 
-// timeToPixel maps the time to a pixel.
+// timeToPixel maps the time to a pixel. It is negative for times before the
+// first pixel, and the width for times after the last one.
 func (m *Merger) timeToPixel(time int64) int64 {
-	delta := m.opts.Now - time + m.pixel_size - 1
-	px := int64(m.width) - (delta / m.pixel_size)
-	if px < 0 {
-		px = 0
+	if time >= m.opts.Now {
+		return int64(m.width)
 	}
-	return px
+	delta := m.opts.Now - time + m.pixel_size - 1
+	return int64(m.width) - (delta / m.pixel_size)
 }
 
 // Push adds the record to the Merger. The end time on the records passed to
@@ -98,6 +98,12 @@ func (m *Merger) Push(ctx context.Context, rec data.Record) error {
 		start: m.timeToPixel(rec.StartTime),
 		end:   m.timeToPixel(rec.EndTime),
 	}
+	if mrec.end < 0 || mrec.start >= int64(m.width) {
+		return nil // it has no pixel
+	}
+	if mrec.end >= int64(m.width) {
+		mrec.end = int64(m.width) - 1
+	}
 	debugPrint("adding", mrec.start, mrec.end)
 	if err := m.completed(ctx, mrec.end+1); err != nil {
 		return err
-- 
2.43.0


From c56c7c776187bbe94e86b5d61e2784ddfb2df673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 28/64] fix: keep the rate of a column finite

---
 merge/merger.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/merge/merger.go b/merge/merger.go
index d285996..83aece5 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -217,8 +217,16 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
-			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
+		// back compat: if merged is 0, that means it actually is 1.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+		// there is no rate for a record without a duration.
+		if dur := mrec.rec.EndTime - mrec.rec.StartTime; dur > 0 {
+			obs_sec += float64(mrec.rec.Observations) / float64(merged) /
+				time.Duration(dur).Seconds()
+		}
 	}
 	obs_sec /= float64(len(mrecs))
 
-- 
2.43.0


From f5a2fedc9499c9955de43af3198b427a26420b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:25 +0000
Subject: [PATCH 29/64] fix: do not allocate the results of a search in advance

---
 api/query/search.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api/query/search.go b/api/query/search.go
index 8e2416d..0d0cd39 100644
--- a/api/query/search.go
+++ b/api/query/search.go
@@ -8,8 +8,9 @@ import (
 
 // Search represents a metric search.
 type Search struct {
-	specs   []spec
-	matched []string
+	specs    []spec
+	matched  []string
+	capacity int
 }
 
 // New constructs a metric searcher from the query string.
@@ -20,8 +21,9 @@ func New(query string, capacity int) *Search {
 		specs[i] = newSpec(part)
 	}
 	return &Search{
-		specs:   specs,
-		matched: make([]string, 0, capacity),
+		specs:    specs,
+		matched:  []string{},
+		capacity: capacity,
 	}
 }
 
@@ -37,7 +39,7 @@ func (s *Search) Match(metric string) bool {
 
 // Add is meant to be passed to a disk.Metrics call.
 func (s *Search) Add(name string) (bool, error) {
-	if len(s.matched) == cap(s.matched) {
+	if len(s.matched) >= s.capacity {
 		return false, nil
 	}
 	if !s.Match(name) {
-- 
2.43.0


From 8f46f48823f7a69e4e23bef374fe3c8ca4682ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 30/64] fix: let a star in a query match nothing

---
 api/query/glob.go | 5 +++++
 api/query/spec.go | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/api/query/glob.go b/api/query/glob.go
index 7ff235a..da17e1a 100644
--- a/api/query/glob.go
+++ b/api/query/glob.go
@@ -12,6 +12,11 @@ func glob(pattern, name string) bool {
 
 	for px < len(pattern) {
 		if nx >= len(name) {
+			// only a star matches nothing
+			if pattern[px] == '*' {
+				px++
+				continue
+			}
 			return false
 		}
 		n := name[nx]
diff --git a/api/query/spec.go b/api/query/spec.go
index ca083c3..5bb5721 100644
--- a/api/query/spec.go
+++ b/api/query/spec.go
@@ -57,11 +57,16 @@ top:
 		part, metric = splitMetric(metric)
 
 		tail := metric
-		for _, g := range s.globs {
+		for i, g := range s.globs {
+			if i > 0 {
+				if len(tail) == 0 {
+					continue top
+				}
+				part, tail = splitMetric(tail)
+			}
 			if !glob(g, part) {
 				continue top
 			}
-			part, tail = splitMetric(tail)
 		}
 
 		return true
-- 
2.43.0


From 33ee43b34890257efffec252c1a088b561870ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 31/64] fix: skip graphite lines that are too long instead of
 the rest of the connection

---
 listener/graphite/listener.go | 48 +++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/listener/graphite/listener.go b/listener/graphite/listener.go
index 9815bfa..faf9a6f 100644
--- a/listener/graphite/listener.go
+++ b/listener/graphite/listener.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"bytes"
 	"context"
+	"io"
 	"net"
 	"strconv"
 	"sync"
@@ -15,6 +16,9 @@ import (
 	"github.com/zeebo/errs"
 )
 
+// maxLineSize is the size of the longest line that is accepted.
+const maxLineSize = 64 * 1024
+
 // Listener implements the listener.Listener for the graphite wire protocol.
 type Listener struct {
 	address string
@@ -104,18 +108,46 @@ func handleConn(ctx context.Context, w *data.Writer, conn net.Conn) (
 	// TODO(jeff): don't return an error when the conn is closed due to the
 	// context.
 
-	scanner := bufio.NewScanner(conn)
-	for scanner.Scan() {
-		err := handleLine(ctx, w, scanner.Bytes())
-		if err != nil {
-			external.Errorw("invalid graphite line",
-				"line", scanner.Text(),
+	reader := bufio.NewReaderSize(conn, maxLineSize)
+	for {
+		line, err := reader.ReadSlice('\n')
+
+		// skip what is left of a line that does not fit.
+		if err == bufio.ErrBufferFull {
+			external.Errorw("graphite line too long",
 				"peer", conn.RemoteAddr().String(),
-				"err", err.Error(),
 			)
+			for err == bufio.ErrBufferFull {
+				_, err = reader.ReadSlice('\n')
+			}
+			line = nil
+			if err == nil {
+				continue
+			}
+		}
+
+		// the last line does not need to be terminated.
+		if err == nil || len(line) > 0 {
+			line = bytes.TrimSuffix(line, []byte("\n"))
+			line = bytes.TrimSuffix(line, []byte("\r"))
+
+			err := handleLine(ctx, w, line)
+			if err != nil {
+				external.Errorw("invalid graphite line",
+					"line", string(line),
+					"peer", conn.RemoteAddr().String(),
+					"err", err.Error(),
+				)
+			}
+		}
+
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return err
 		}
 	}
-	return scanner.Err()
 }
 
 // handleLine adds the graphite data in the line to the writer.
-- 
2.43.0


From 04f0c7323218fec2be299d7c1efe03c6c7278381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 32/64] fix: go on accepting graphite connections after a
 temporary error

---
 listener/graphite/listener.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/listener/graphite/listener.go b/listener/graphite/listener.go
index faf9a6f..a7965f6 100644
--- a/listener/graphite/listener.go
+++ b/listener/graphite/listener.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"strconv"
 	"sync"
+	"time"
 
 	"github.com/vivint/rothko/data"
 	"github.com/vivint/rothko/external"
@@ -71,6 +72,13 @@ func handleListener(ctx context.Context, w *data.Writer, lis net.Listener) (
 
 	for {
 		conn, err := lis.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			external.Errorw("graphite accept error",
+				"err", err.Error(),
+			)
+			time.Sleep(10 * time.Millisecond)
+			continue
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From de7bcb7615fe1ef8c070704d4c63edabee102539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 33/64] fix: do not catch signals after the context ended

---
 internal/junk/signal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/junk/signal.go b/internal/junk/signal.go
index fe769e5..9cf3b55 100644
--- a/internal/junk/signal.go
+++ b/internal/junk/signal.go
@@ -19,6 +19,8 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 	signal.Notify(ch, sigs...)
 
 	go func() {
+		defer signal.Stop(ch)
+
 		select {
 		case <-ctx.Done():
 		case sig := <-ch:
@@ -26,7 +28,6 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 				"signal", sig.String(),
 			)
 			cancel()
-			signal.Stop(ch)
 		}
 	}()
 
-- 
2.43.0


From 0c51601de4bd1c9419ca43d67a2aa8e396bd369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 34/64] fix: let the database complete a demo value before
 Queue returns

---
 demo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo.go b/demo.go
index c1ddc16..40ca73a 100644
--- a/demo.go
+++ b/demo.go
@@ -145,7 +145,7 @@ func addDemoData(ctx context.Context, params dist.Params, db database.DB) (
 		observations = 300            // number of observations per record
 	)
 
-	errors := make(chan error)
+	errors := make(chan error, 1) // may be sent to before Queue returns
 	now := time.Now()
 	start := now.Add(-duration)
 	tdelta := now.Sub(start) / records
-- 
2.43.0


From 2d428abcec77adae2d7990211864691d5d6fd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 35/64] fix: refuse listeners that are not a table

---
 config/load.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/config/load.go b/config/load.go
index 8c5aacc..40c0071 100644
--- a/config/load.go
+++ b/config/load.go
@@ -33,10 +33,17 @@ func Load(data []byte) (*Config, error) {
 		} `toml:"api"`
 	}
 
-	if err := toml.Unmarshal(data, &tomlConfig); err != nil {
+	md, err := toml.Decode(string(data), &tomlConfig)
+	if err != nil {
 		return nil, ParseError.Wrap(err)
 	}
 
+	// values of other types are silently ignored for maps. a table that is
+	// only defined by the tables inside of it has no type.
+	if typ := md.Type("listeners"); typ != "" && typ != "Hash" {
+		return nil, ParseError.New("listeners must be a table, not: %v", typ)
+	}
+
 	if len(tomlConfig.Database) != 1 {
 		return nil, ParseError.New("exactly one database must be specified")
 	}
-- 
2.43.0


From c002f6a43d8c9557c56a7f53bf3bf975020f69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 36/64] fix: return an error for configurations that the toml
 parser panics on

---
 config/load.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/config/load.go b/config/load.go
index 40c0071..5db1bca 100644
--- a/config/load.go
+++ b/config/load.go
@@ -6,6 +6,17 @@ import (
 	"github.com/BurntSushi/toml"
 )
 
+// decode is toml.Decode, except that it returns an error for the documents that
+// the parser panics on.
+func decode(data string, v interface{}) (md toml.MetaData, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = ParseError.New("%v", r)
+		}
+	}()
+	return toml.Decode(data, v)
+}
+
 // Load takes a toml file and parses it into a Config.
 func Load(data []byte) (*Config, error) {
 	// tomlConfig somewhat mirrors Config except it contains tags to marshal
@@ -33,7 +44,7 @@ func Load(data []byte) (*Config, error) {
 		} `toml:"api"`
 	}
 
-	md, err := toml.Decode(string(data), &tomlConfig)
+	md, err := decode(string(data), &tomlConfig)
 	if err != nil {
 		return nil, ParseError.Wrap(err)
 	}
-- 
2.43.0


From 5a4ddc7d2f6e3bfeacf54268add926fdd46b8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 37/64] fix: refuse to run without a positive duration

---
 run.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/run.go b/run.go
index a8fae0c..3037f98 100644
--- a/run.go
+++ b/run.go
@@ -82,6 +82,12 @@ func run(ctx context.Context, conf *config.Config) (started bool, err error) {
 		}
 	}
 
+	// the dumper needs a period
+	if conf.Main.Duration <= 0 {
+		return false, errs.New("main.duration must be positive: %v",
+			conf.Main.Duration)
+	}
+
 	// create a launcher to keep track of all the tasks
 	var launcher junk.Launcher
 
-- 
2.43.0


From c0305c81e2f885ae41aaf495c434bbfe0fe1a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 38/64] fix: refuse to make distributions with a compression
 without sense

---
 dist/tdigest/wrapper.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 9aa2f67..8ba6e4c 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -8,6 +8,10 @@ import (
 	"github.com/zeebo/tdigest"
 )
 
+// maxCompression bounds the memory of a t-digest, which is proportional to the
+// compression.
+const maxCompression = 1 << 16
+
 // Params implements dist.Params for a t-digest distribution.
 type Params struct {
 	Compression float64
@@ -23,6 +27,9 @@ func (p Params) New() (dist.Dist, error) {
 	if p.Compression == 0 {
 		return nil, errs.New("New called on zero value Params")
 	}
+	if !(p.Compression > 0 && p.Compression <= maxCompression) {
+		return nil, errs.New("invalid compression: %v", p.Compression)
+	}
 	return Wrap(tdigest.New(p.Compression)), nil
 }
 
-- 
2.43.0


From b701c6cb32e1a454d4434468a59b5444e932b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 39/64] fix: refuse a negative buffer or number of workers

---
 database/files/register.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/database/files/register.go b/database/files/register.go
index 9861c25..27057b8 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -8,6 +8,7 @@ import (
 	"github.com/vivint/rothko/database"
 	"github.com/vivint/rothko/internal/typeassert"
 	"github.com/vivint/rothko/registry"
+	"github.com/zeebo/errs"
 )
 
 func init() {
@@ -29,6 +30,12 @@ func init() {
 			if err := a.Err(); err != nil {
 				return nil, err
 			}
+			if opts.Tuning.Buffer < 0 {
+				return nil, errs.New("negative buffer: %d", opts.Tuning.Buffer)
+			}
+			if opts.Tuning.Workers < 0 {
+				return nil, errs.New("negative workers: %d", opts.Tuning.Workers)
+			}
 
 			return New(dir, opts), nil
 		}))
-- 
2.43.0


From 3d7e3ad0b169d6fb6844cad5ff9ea88fe9eb24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 40/64] fix: do not hold the lock of the registry while making

---
 registry/registry.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/registry/registry.go b/registry/registry.go
index d29ef21..fd25f7c 100644
--- a/registry/registry.go
+++ b/registry/registry.go
@@ -37,10 +37,11 @@ func (r *Registry) RegisterListener(name string, maker ListenerMaker) {
 func (r *Registry) NewListener(ctx context.Context, name string,
 	config interface{}) (listener.Listener, error) {
 
+	// the maker may use the registry as well.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.listeners[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -64,10 +65,11 @@ func (r *Registry) RegisterDatabase(name string, maker DatabaseMaker) {
 func (r *Registry) NewDatabase(ctx context.Context, name string,
 	config interface{}) (database.DB, error) {
 
+	// the maker may use the registry as well.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.databases[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -92,10 +94,11 @@ func (r *Registry) RegisterDistribution(name string, maker DistributionMaker) {
 func (r *Registry) NewDistribution(ctx context.Context, name string,
 	config interface{}) (dist.Params, error) {
 
+	// the maker may use the registry as well.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.distributions[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
-- 
2.43.0


From a687612335b5b3d7dda5cd5a1db8d842a953bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 41/64] fix: list directories in the archive in order and
 completely

---
 internal/tgzfs/file.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/tgzfs/file.go b/internal/tgzfs/file.go
index e3d3be4..79fac93 100644
--- a/internal/tgzfs/file.go
+++ b/internal/tgzfs/file.go
@@ -62,16 +62,19 @@ func (h *fileHandle) Read(p []byte) (int, error) {
 	return h.data.Read(p)
 }
 
-// Readdir reads up to count entries from the listing and returns them.
+// Readdir reads up to count entries from the listing and returns them, and all
+// of the remaining entries if count is not positive, as an os.File does.
 func (h *fileHandle) Readdir(count int) (entries []os.FileInfo, err error) {
-	if len(h.listing) == 0 {
+	if count <= 0 {
+		count = len(h.listing)
+	} else if len(h.listing) == 0 {
 		return nil, io.EOF
 	}
 	if len(h.listing) < count {
 		count = len(h.listing)
 	}
 	listing := h.listing[:count]
-	h.listing = h.listing[:len(h.listing)-len(listing)]
+	h.listing = h.listing[count:]
 	return listing, nil
 }
 
-- 
2.43.0


From f2c037268127251f16d2bf0f9be6dc4cf149f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 42/64] fix: describe directories that the archive only implies

---
 internal/tgzfs/fs.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index b7b3267..ecfc9a4 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -20,15 +20,16 @@ import (
 // rootMtime is the mtime for the root file.
 var rootMtime = time.Now()
 
-// rootFileInfo is a fake file info for the root of the tree.
-type rootFileInfo struct{}
+// dirFileInfo is a fake file info for the root of the tree and for any
+// directories that have no entry of their own. The value is the name.
+type dirFileInfo string
 
-func (r rootFileInfo) Name() string       { return "" }
-func (r rootFileInfo) Size() int64        { return 0 }
-func (r rootFileInfo) Mode() os.FileMode  { return os.ModeDir }
-func (r rootFileInfo) ModTime() time.Time { return rootMtime }
-func (r rootFileInfo) IsDir() bool        { return true }
-func (r rootFileInfo) Sys() interface{}   { return nil }
+func (d dirFileInfo) Name() string       { return string(d) }
+func (d dirFileInfo) Size() int64        { return 0 }
+func (d dirFileInfo) Mode() os.FileMode  { return os.ModeDir }
+func (d dirFileInfo) ModTime() time.Time { return rootMtime }
+func (d dirFileInfo) IsDir() bool        { return true }
+func (d dirFileInfo) Sys() interface{}   { return nil }
 
 // FS is an http.FileServer for a tarball.
 type FS struct {
@@ -46,7 +47,7 @@ func New(data []byte) (*FS, error) {
 	fs := &FS{
 		root: newFile(),
 	}
-	fs.root.setFileInfo(rootFileInfo{})
+	fs.root.setFileInfo(dirFileInfo(""))
 
 	tardata := tar.NewReader(gzdata)
 	for {
@@ -96,6 +97,7 @@ func (fs *FS) getFile(path string, alloc bool) *file {
 				return fs.def
 			}
 			child = newFile()
+			child.setFileInfo(dirFileInfo(part))
 			children[part] = child
 		}
 	}
-- 
2.43.0


From 7785906ad6ad005e07dda7ab8bb3318571eb1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 43/64] fix: treat dot paths as the root of the archive

---
 internal/tgzfs/fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index ecfc9a4..f65227a 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -76,9 +76,9 @@ func New(data []byte) (*FS, error) {
 }
 
 // splitPath splits a cleaned version of the path. It assumes unix style path
-// separators.
+// separators, and that paths are relative to the root.
 func splitPath(p string) []string {
-	return strings.Split(path.Clean(p), "/")
+	return strings.Split(path.Clean("/"+p), "/")
 }
 
 // getFile returns the *file at the given path, allocating file structures
-- 
2.43.0


From 05cdda7c5274519bde775660485b4aaf6e90b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 44/64] fix: fill in the template when another path gives an
 html file

---
 internal/tmplfs/fs.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index da37a27..7c24e6d 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -45,10 +45,6 @@ func (w *wrapper) Open(name string) (f http.File, err error) {
 		return nil, err
 	}
 
-	if !strings.HasSuffix(name, ".html") {
-		return f, nil
-	}
-
 	// close only if we have any errors
 	defer func() {
 		if err != nil {
@@ -56,6 +52,16 @@ func (w *wrapper) Open(name string) (f http.File, err error) {
 		}
 	}()
 
+	// the name of the file decides, because the file system may give another
+	// file than the one asked for.
+	info, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	if info.IsDir() || !strings.HasSuffix(info.Name(), ".html") {
+		return f, nil
+	}
+
 	// TODO(jeff): caching of the parsed template?
 
 	data, err := ioutil.ReadAll(f)
-- 
2.43.0


From 8e8a2839185e09189d0d744a4071060b4fae7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 45/64] fix: close the file of a template that does not execute

---
 internal/tmplfs/fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index 7c24e6d..99610b3 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -39,8 +39,8 @@ type wrapper struct {
 }
 
 // Open implements http.FileSystem and processes any html files as a template.
-func (w *wrapper) Open(name string) (f http.File, err error) {
-	f, err = w.fs.Open(name)
+func (w *wrapper) Open(name string) (_ http.File, err error) {
+	f, err := w.fs.Open(name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ebab4b690ca083a79928512cf4347609727eefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 46/64] fix: do not set pixels outside of the canvas

---
 draw/common.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw/common.go b/draw/common.go
index 1602cc4..1a4c1ee 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -53,8 +53,11 @@ func (m *RGB) Size() (w, h int) {
 }
 
 // Set stores the pixel values in the color to the coordinate at x and y. The
-// top left corner is (0, 0).
+// top left corner is (0, 0). Coordinates outside of the RGB are ignored.
 func (m *RGB) Set(x, y int, c Color) {
+	if x < 0 || y < 0 || x >= m.Width || y >= m.Height {
+		return
+	}
 	i := (y+m.Y)*m.Stride + (x+m.X)*4
 	pix := m.Pix[i : i+4]
 	pix[0] = c.R
-- 
2.43.0


From 8591f2da216c96c21e12bbe0399053de43cb5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 47/64] fix: place views relative to the view they are taken
 from

---
 draw/common.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/draw/common.go b/draw/common.go
index 1a4c1ee..78ad420 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -73,10 +73,11 @@ func (m *RGB) Raw(x, y int) []uint8 {
 	return m.Pix[i : i+4]
 }
 
-// View returns a view into the RGB.
+// View returns a view into the RGB. The coordinates are relative to the top
+// left corner of the RGB, which may be a view itself.
 func (m RGB) View(x, y, w, h int) *RGB {
-	m.X = x
-	m.Y = y
+	m.X += x
+	m.Y += y
 	m.Width = w
 	m.Height = h
 	return &m
-- 
2.43.0


From bba424fbe1a9c7a0a97e5a0b79ab1a5aeec9a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 48/64] fix: limit the image of a view to the view

---
 draw/common.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/draw/common.go b/draw/common.go
index 78ad420..3360faf 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -83,12 +83,15 @@ func (m RGB) View(x, y, w, h int) *RGB {
 	return &m
 }
 
+// AsImage returns an image of the RGB that shares its pixels. The top left
+// corner is (0, 0).
 func (m *RGB) AsImage() *image.RGBA {
+	if m.Width <= 0 || m.Height <= 0 {
+		return &image.RGBA{}
+	}
 	return &image.RGBA{
-		Pix:    m.Pix,
+		Pix:    m.Pix[m.Y*m.Stride+m.X*4:],
 		Stride: m.Stride,
-		// TODO(jeff): i highly suspect m.Width and m.Height is wrong here.
-		// add a test around boundary conditions.
-		Rect: image.Rect(-m.X, -m.Y, m.Width, m.Height),
+		Rect:   image.Rect(0, 0, m.Width, m.Height),
 	}
 }
-- 
2.43.0


From 89e2e16b41d7f9d2ad9cb2968c6e0cff3187a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 49/64] fix: find the data for a height of the heatmap exactly

---
 draw/heatmap/heatmap.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 57f597b..5430f88 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,14 +51,16 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := float64(len(col.Data)-1) / float64(d.height-1)
+	last_data, last_y := len(col.Data)-1, d.height-1
+	if last_y < 1 {
+		last_y = 1 // a single row shows the first value
+	}
 	m := d.m
 
 	for y := 0; y < d.height; y++ {
-		// TODO(jeff): truncating might not work. we can also perhaps
-		// invert this computation to give us the number of pixels
-		// before we get to the next index directly.
-		index := int(float64(y) * index_scale)
+		// TODO(jeff): we can perhaps invert this computation to give us the
+		// number of pixels before we get to the next index directly.
+		index := y * last_data / last_y
 
 		// figure out the color if it's different from the last data index
 		if index != last_index {
-- 
2.43.0


From ad7d61271d4037ff34c5e75b611b7c73ac49276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 50/64] fix: draw heatmaps the same way up on every canvas

---
 draw/heatmap/heatmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 5430f88..47778ac 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -101,7 +101,7 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 		} else {
 			x1 := col.X + col.W
 			for x := col.X; x < x1 && x < d.width; x++ {
-				d.opts.Canvas.Set(x, y, last_color)
+				d.opts.Canvas.Set(x, d.height-1-y, last_color)
 			}
 		}
 
-- 
2.43.0


From de87119fcc9b1201da5769ff2637a4f76783258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 51/64] fix: draw only the part of a column that is on the
 canvas

---
 draw/heatmap/heatmap.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 47778ac..c23cbd0 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -57,6 +57,18 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	}
 	m := d.m
 
+	// only draw the part of the column that is on the canvas
+	x0, x1 := col.X, col.X+col.W
+	if x0 < 0 {
+		x0 = 0
+	}
+	if x1 > d.width {
+		x1 = d.width
+	}
+	if x0 >= x1 {
+		return
+	}
+
 	for y := 0; y < d.height; y++ {
 		// TODO(jeff): we can perhaps invert this computation to give us the
 		// number of pixels before we get to the next index directly.
@@ -71,11 +83,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 
 		if m != nil {
 			row := (d.height - 1 - y + m.Y) * m.Stride
-			low := row + 4*(col.X+m.X)
-			high := low + 4*col.W
-			if high > len(m.Pix) {
-				high = len(m.Pix)
-			}
+			low := row + 4*(x0+m.X)
+			high := row + 4*(x1+m.X)
 
 			// reslicing in gopherjs always allocates a slice structure. so
 			// since it doesn't elide bounds checks, we write it this way even
@@ -99,8 +108,7 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 			}
 
 		} else {
-			x1 := col.X + col.W
-			for x := col.X; x < x1 && x < d.width; x++ {
+			for x := x0; x < x1; x++ {
 				d.opts.Canvas.Set(x, d.height-1-y, last_color)
 			}
 		}
-- 
2.43.0


From f606510f90fb97eefb7fa5a45b83aed593383a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:02 +0000
Subject: [PATCH 52/64] fix: find the color for a height of the key exactly

---
 draw/key/key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/draw/key/key.go b/draw/key/key.go
index fdd4191..94d507f 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,9 +29,12 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	last_color, last_y := len(opts.Colors)-1, opts.Height-1
+	if last_y < 1 {
+		last_y = 1 // a single row shows the first color
+	}
 	for y := 0; y < opts.Height; y++ {
-		index := int(float64(opts.Height-1-y) * scale)
+		index := (opts.Height - 1 - y) * last_color / last_y
 		color := opts.Colors[index]
 		for x := 0; x < opts.Width; x++ {
 			canvas.Set(x, y, color)
-- 
2.43.0


From 713ba4cb923cfa76648dcae42a37adc3eda4613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 53/64] fix: do not draw labels over each other at the left of
 an axis

---
 draw/axis/axis.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/draw/axis/axis.go b/draw/axis/axis.go
index 30cba6c..8fb1664 100644
--- a/draw/axis/axis.go
+++ b/draw/axis/axis.go
@@ -222,9 +222,7 @@ func measureHorizontal(ctx context.Context, opts Options) Measured {
 	bounds := make([]fixed.Rectangle26_6, 0, len(opts.Labels))
 	occupied := 0
 	fits := func(x int) bool {
-		return occupied == 0 ||
-			x < horizLabelSpacing ||
-			x > occupied+horizLabelSpacing
+		return occupied == 0 || x > occupied+horizLabelSpacing
 	}
 
 	for _, label := range opts.Labels {
@@ -294,9 +292,7 @@ func (m Measured) drawHorizontal(ctx context.Context, canvas *draw.RGB) (
 	// render the ticks and labels
 	occupied := 0
 	fits := func(x int) bool {
-		return occupied == 0 ||
-			x < horizLabelSpacing ||
-			x > occupied+horizLabelSpacing
+		return occupied == 0 || x > occupied+horizLabelSpacing
 	}
 
 	for i, label := range m.opts.Labels {
-- 
2.43.0


From bffd72b84226366c20eabd16eabe91e97921f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 54/64] fix: refuse to measure graphs without space for the
 heatmap

---
 draw/graph/graph.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..05a300a 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -74,6 +74,12 @@ type MeasureOptions struct {
 func Measure(ctx context.Context, opts MeasureOptions) (Measured, bool) {
 	const initialVertialGuess = 50
 
+	// there is no graph without space or time
+	if opts.Width <= 0 || opts.Height <= 0 || opts.Padding < 0 ||
+		opts.Duration <= 0 {
+		return Measured{}, false
+	}
+
 	measured, ok := tryMeasure(ctx, opts, initialVertialGuess)
 	if !ok {
 		return measured, false
@@ -93,7 +99,7 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// calculate the heatmap height and leave a gap for the bottom/obs axis
 	height := opts.Height - vert_guess
-	if height < 0 {
+	if height <= 0 {
 		return Measured{}, false
 	}
 
@@ -157,6 +163,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth <= 0 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
-- 
2.43.0


From 807e34b6f4538e02134b6d2dedbb0d6a8384db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 55/64] fix: measure graphs narrower than 100 pixels

---
 draw/graph/graph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 05a300a..ec4cd94 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -178,7 +178,10 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunk := opts.Duration
+	if chunks := opts.Width / 100; chunks > 1 {
+		chunk /= time.Duration(chunks)
+	}
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
-- 
2.43.0


From acf95146f4f168839a8bcb7de2fd189e29c88079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 56/64] fix: end the labels of periods that begin near the
 earliest time

---
 draw/graph/graph.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index ec4cd94..c19ceac 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -193,13 +193,14 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// create the labels from the truncated now
 	x := time.Duration(opts.Now).Truncate(natural).Nanoseconds()
-	stop_before := opts.Now - opts.Duration.Nanoseconds()
-	for x > stop_before {
+	left_over := opts.Duration.Nanoseconds() - (opts.Now - x)
+	for left_over > 0 {
 		labels = append(labels, axis.Label{
 			Position: 1 - float64(opts.Now-x)/float64(opts.Duration),
 			Text:     time.Unix(0, x).Format("1/2 @ 15:04"),
 		})
 		x -= natural.Nanoseconds()
+		left_over -= natural.Nanoseconds()
 	}
 
 	// reverse the labels so that they are in increasing order
-- 
2.43.0


From c43477c6c40341a299385f682375818478fce9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 57/64] fix: refuse to render with parameters without sense

---
 api/server.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/api/server.go b/api/server.go
index 29c63b1..cae247e 100644
--- a/api/server.go
+++ b/api/server.go
@@ -146,6 +146,22 @@ func (s *Server) serveHTTP(ctx context.Context, w http.ResponseWriter,
 	}
 }
 
+// limits of what can be rendered by a request.
+const (
+	maxPixels  = 1 << 24
+	maxSamples = 10000
+)
+
+// validSize returns true if a picture of the size can be rendered.
+func validSize(width, height, padding int) bool {
+	if width <= 0 || height <= 0 || padding < 0 ||
+		width > maxPixels || height > maxPixels || padding > maxPixels {
+		return false
+	}
+	w, h := int64(width)+2*int64(padding), int64(height)+2*int64(padding)
+	return w*h <= maxPixels
+}
+
 // serveRender serves either a png of the graph, or a json encoded set of
 // columns, and the earliest data so that the frontend can draw the graph.
 func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
@@ -165,6 +181,25 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	samples := getInt(req.FormValue("samples"), 30)
 	compression := getFloat64(req.FormValue("compression"), 5)
 	stop_before := now - dur.Nanoseconds()
+	params := tdigest.Params{Compression: compression}
+
+	// check that they make sense and do not ask for too much
+	if now < 0 {
+		return errBadRequest.New("invalid now: %d", now)
+	}
+	if dur <= 0 {
+		return errBadRequest.New("invalid duration: %v", dur)
+	}
+	if !validSize(width, height, padding) {
+		return errBadRequest.New("invalid size: %dx%d with padding %d",
+			width, height, padding)
+	}
+	if samples <= 0 || samples > maxSamples {
+		return errBadRequest.New("invalid samples: %d", samples)
+	}
+	if _, err := params.New(); err != nil {
+		return errBadRequest.Wrap(err)
+	}
 
 	// set up some state for the query
 	var measured graph.Measured
@@ -181,7 +216,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		Samples:  samples,
 		Now:      now,
 		Duration: dur,
-		Params:   tdigest.Params{Compression: compression},
+		Params:   params,
 	})
 	var ok bool
 
-- 
2.43.0


From 5b8a5c0edc42a34059b55763970c3d29bed45114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:25 +0000
Subject: [PATCH 58/64] fix: render an empty graph when there is no data

---
 api/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/server.go b/api/server.go
index cae247e..a23d310 100644
--- a/api/server.go
+++ b/api/server.go
@@ -218,7 +218,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		Duration: dur,
 		Params:   params,
 	})
-	var ok bool
+	ok := true
 
 	// run the query
 	err = s.db.Query(ctx, metric, now, nil,
-- 
2.43.0


From f5689c78f2a0df96ad75877010577dd2d6312fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:03 +0000
Subject: [PATCH 59/64] fix: init never overwrites a configuration and leaves
 no partial one

---
 init.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/init.go b/init.go
index 2992a9b..6a23f0a 100644
--- a/init.go
+++ b/init.go
@@ -4,7 +4,6 @@ package rothko
 
 import (
 	"fmt"
-	"io/ioutil"
 	"os"
 
 	"github.com/urfave/cli"
@@ -41,13 +40,30 @@ edited, but contains useful defaults.
 			return errs.Wrap(err)
 		}
 
-		err = ioutil.WriteFile(
-			configPath, []byte(config.InitialConfig), 0644)
-		if err != nil {
-			return errs.Wrap(err)
+		if err := writeConfig(); err != nil {
+			return err
 		}
 
 		fmt.Printf("wrote initial config to %q\n", configPath)
 		return nil
 	},
 }
+
+// writeConfig creates the initial config. It never overwrites a file, and
+// leaves none behind when it fails.
+func writeConfig() error {
+	f, err := os.OpenFile(configPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
+	if err != nil {
+		return errs.Wrap(err)
+	}
+
+	_, err = f.Write([]byte(config.InitialConfig))
+	if close_err := f.Close(); err == nil {
+		err = close_err
+	}
+	if err != nil {
+		os.Remove(configPath)
+		return errs.Wrap(err)
+	}
+	return nil
+}
-- 
2.43.0


From 4ec2627d4c233fadc6c208399c9a0e5cc14eea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 60/64] fix: observations beyond what a stored digest can hold
 are clamped

---
 dist/tdigest/wrapper.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 8ba6e4c..b0ec9c4 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -3,6 +3,8 @@
 package tdigest
 
 import (
+	"math"
+
 	"github.com/vivint/rothko/dist"
 	"github.com/zeebo/errs"
 	"github.com/zeebo/tdigest"
@@ -12,6 +14,10 @@ import (
 // compression.
 const maxCompression = 1 << 16
 
+// maxValue bounds the observed values. The differences between them are stored
+// with 32 bits.
+const maxValue = math.MaxFloat32 / 2
+
 // Params implements dist.Params for a t-digest distribution.
 type Params struct {
 	Compression float64
@@ -76,7 +82,7 @@ func (Wrapper) Kind() string {
 
 // Observe adds the value to the t-digest.
 func (w *Wrapper) Observe(val float64) {
-	w.td.Add(val)
+	w.td.Add(math.Max(-maxValue, math.Min(maxValue, val)))
 	w.cache = nil // the quantiles changed
 }
 
-- 
2.43.0


From 50166fe242d44bdb7d0dab4e8f8eb7066b48732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 61/64] fix: a damaged stored digest is an error and does not
 end the process

---
 dist/tdigest/wrapper.go | 44 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index b0ec9c4..b7a5cd8 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -3,6 +3,7 @@
 package tdigest
 
 import (
+	"encoding/binary"
 	"math"
 
 	"github.com/vivint/rothko/dist"
@@ -48,6 +49,10 @@ func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {
 		}
 	}()
 
+	if err := validate(data); err != nil {
+		return nil, err
+	}
+
 	dist, err := tdigest.FromBytes(data)
 	if err != nil {
 		return nil, errs.Wrap(err)
@@ -55,6 +60,45 @@ func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {
 	return Wrap(dist), nil
 }
 
+// validate checks the values that FromBytes relies on: it runs out of memory
+// or stack if they make no sense.
+func validate(data []byte) error {
+	const header = 4 + 8 + 4 // version, compression, number of centroids
+	if len(data) < header {
+		return errs.New("invalid t-digest: %d bytes", len(data))
+	}
+	compression := math.Float64frombits(binary.BigEndian.Uint64(data[4:]))
+	if !(compression > 0 && compression <= maxCompression) {
+		return errs.New("invalid t-digest: compression %v", compression)
+	}
+
+	// every centroid has a mean of 4 bytes and a count of at least one byte
+	centroids := uint64(binary.BigEndian.Uint32(data[12:]))
+	data = data[header:]
+	if centroids*5 > uint64(len(data)) {
+		return errs.New("invalid t-digest: %d centroids", centroids)
+	}
+	means, counts := data[:4*centroids], data[4*centroids:]
+
+	mean := 0.0
+	for ; len(means) > 0; means = means[4:] {
+		delta := math.Float32frombits(binary.BigEndian.Uint32(means))
+		mean += float64(delta)
+		if !(math.Abs(mean) <= 2*maxValue) {
+			return errs.New("invalid t-digest: mean %v", mean)
+		}
+	}
+
+	for ; centroids > 0; centroids-- {
+		count, n := binary.Uvarint(counts)
+		if n <= 0 || count == 0 || count > math.MaxUint32 {
+			return errs.New("invalid t-digest: count %v", count)
+		}
+		counts = counts[n:]
+	}
+	return nil
+}
+
 //
 // Wrapper
 //
-- 
2.43.0


From 1083e53ddd254ee2f9310e8d6166aa770c3fe08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:47 +0000
Subject: [PATCH 62/64] fix: a damaged record with a huge length is an error
 and not a panic

---
 data/record.pb.go                       | 20 +++++++++++++++++++-
 database/files/internal/meta/meta.pb.go |  8 +++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/data/record.pb.go b/data/record.pb.go
index 4e021e9..ae0b01f 100644
--- a/data/record.pb.go
+++ b/data/record.pb.go
@@ -289,6 +289,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -321,6 +324,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -371,6 +377,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -402,6 +411,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -438,6 +450,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRecord
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -505,7 +520,7 @@ func skipRecord(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 {
+			if length < 0 || iNdEx < 0 {
 				return 0, ErrInvalidLengthRecord
 			}
 			return iNdEx, nil
@@ -536,6 +551,9 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthRecord
+				}
 			}
 			return iNdEx, nil
 		case 4:
diff --git a/database/files/internal/meta/meta.pb.go b/database/files/internal/meta/meta.pb.go
index 06a94ae..1735f28 100644
--- a/database/files/internal/meta/meta.pb.go
+++ b/database/files/internal/meta/meta.pb.go
@@ -252,6 +252,9 @@ func (m *Metadata) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthMeta
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthMeta
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -319,7 +322,7 @@ func skipMeta(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 {
+			if length < 0 || iNdEx < 0 {
 				return 0, ErrInvalidLengthMeta
 			}
 			return iNdEx, nil
@@ -350,6 +353,9 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthMeta
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From c643c1afc1f894d694a059244a7071907c6cbb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 63/64] fix: nested groups in a damaged record can not overflow
 the stack

---
 data/record.pb.go                       | 49 ++++++-------------------
 database/files/internal/meta/meta.pb.go | 49 ++++++-------------------
 2 files changed, 22 insertions(+), 76 deletions(-)

diff --git a/data/record.pb.go b/data/record.pb.go
index ae0b01f..8d5cc38 100644
--- a/data/record.pb.go
+++ b/data/record.pb.go
@@ -468,6 +468,7 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 func skipRecord(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -499,10 +500,8 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -520,52 +519,26 @@ func skipRecord(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 || iNdEx < 0 {
+			if length < 0 {
 				return 0, ErrInvalidLengthRecord
 			}
-			return iNdEx, nil
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowRecord
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipRecord(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-				if iNdEx < 0 {
-					return 0, ErrInvalidLengthRecord
-				}
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthRecord
+		}
+		if depth <= 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
diff --git a/database/files/internal/meta/meta.pb.go b/database/files/internal/meta/meta.pb.go
index 1735f28..f5c60e6 100644
--- a/database/files/internal/meta/meta.pb.go
+++ b/database/files/internal/meta/meta.pb.go
@@ -270,6 +270,7 @@ func (m *Metadata) Unmarshal(dAtA []byte) error {
 func skipMeta(dAtA []byte) (n int, err error) {
 	l := len(dAtA)
 	iNdEx := 0
+	depth := 0
 	for iNdEx < l {
 		var wire uint64
 		for shift := uint(0); ; shift += 7 {
@@ -301,10 +302,8 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			return iNdEx, nil
 		case 1:
 			iNdEx += 8
-			return iNdEx, nil
 		case 2:
 			var length int
 			for shift := uint(0); ; shift += 7 {
@@ -322,52 +321,26 @@ func skipMeta(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 || iNdEx < 0 {
+			if length < 0 {
 				return 0, ErrInvalidLengthMeta
 			}
-			return iNdEx, nil
 		case 3:
-			for {
-				var innerWire uint64
-				var start int = iNdEx
-				for shift := uint(0); ; shift += 7 {
-					if shift >= 64 {
-						return 0, ErrIntOverflowMeta
-					}
-					if iNdEx >= l {
-						return 0, io.ErrUnexpectedEOF
-					}
-					b := dAtA[iNdEx]
-					iNdEx++
-					innerWire |= (uint64(b) & 0x7F) << shift
-					if b < 0x80 {
-						break
-					}
-				}
-				innerWireType := int(innerWire & 0x7)
-				if innerWireType == 4 {
-					break
-				}
-				next, err := skipMeta(dAtA[start:])
-				if err != nil {
-					return 0, err
-				}
-				iNdEx = start + next
-				if iNdEx < 0 {
-					return 0, ErrInvalidLengthMeta
-				}
-			}
-			return iNdEx, nil
+			depth++
 		case 4:
-			return iNdEx, nil
+			depth--
 		case 5:
 			iNdEx += 4
-			return iNdEx, nil
 		default:
 			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)
 		}
+		if iNdEx < 0 {
+			return 0, ErrInvalidLengthMeta
+		}
+		if depth <= 0 {
+			return iNdEx, nil
+		}
 	}
-	panic("unreachable")
+	return 0, io.ErrUnexpectedEOF
 }
 
 var (
-- 
2.43.0


From 4ca9a09ed009cc35e2f09d2ad13930bf7f432a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 64/64] fix: report the status of requests that end with an
 error

The error is written to the underlying response instead of the one that
keeps the status, so that it was logged as 0.
---
 api/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/server.go b/api/server.go
index a23d310..b3f86fe 100644
--- a/api/server.go
+++ b/api/server.go
@@ -78,8 +78,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	tracker := &respTracker{ResponseWriter: w, wrote: false, code: 0}
 	if err := s.serveHTTP(req.Context(), tracker, req); err != nil {
 		if !tracker.wrote {
-			w.WriteHeader(getStatusCode(err))
-			fmt.Fprintf(w, "%+v\n", err)
+			tracker.WriteHeader(getStatusCode(err))
+			fmt.Fprintf(tracker, "%+v\n", err)
 		}
 	}
 
-- 
2.43.0

