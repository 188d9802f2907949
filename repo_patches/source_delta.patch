From b4daf1deb65ad9b41215b198292ce2d01dd20015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 01/64] fix: create missing parents in MkdirAll

---
 pkg/fs/filesystem.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..d0d242f 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -343,11 +344,18 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
+	parts := strings.Split(filepath.ToSlash(path), "/")
 	currentPath := ""
 
-	for _, part := range parts {
-		if currentPath == "" {
+	for i, part := range parts {
+		if part == "" {
+			if i > 0 {
+				continue
+			}
+
+			// Absolute path, start at the root
+			currentPath = "/"
+		} else if currentPath == "" {
 			currentPath = part
 		} else {
 			currentPath = filepath.Join(currentPath, part)
-- 
2.43.0


From 729ec413318b56fd76a478b0f5de096b10095f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 02/64] fix: refuse to create or move entries below a file

---
 pkg/fs/filesystem.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index d0d242f..ccb9636 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -97,7 +97,7 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
@@ -110,6 +110,8 @@ func (f *STFS) Create(name string) (afero.File, error) {
 		}
 
 		return nil, err
+	} else if parent.Typeflag != tar.TypeDir {
+		return nil, config.ErrIsFile
 	}
 
 	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
@@ -289,7 +291,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
@@ -302,6 +304,8 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 		}
 
 		return err
+	} else if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
 	if hdr, err := inventory.Stat(
@@ -474,7 +478,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 			createFile := func() error {
 				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
+					if parent, err := inventory.Stat(
 						f.metadata,
 
 						filepath.Dir(name),
@@ -487,6 +491,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 						}
 
 						return err
+					} else if parent.Typeflag != tar.TypeDir {
+						return config.ErrIsFile
 					}
 
 					if target, err := inventory.Stat(
@@ -760,7 +766,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(newname),
@@ -773,6 +779,8 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 
 		return err
+	} else if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
 	target, err := inventory.Stat(
@@ -1163,7 +1171,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
+	if parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(newname),
@@ -1176,6 +1184,8 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		}
 
 		return err
+	} else if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
 	}
 
 	if pathext.IsRoot(rawNewName, false) && pathext.IsRoot(rawOldName, false) {
-- 
2.43.0


From e37454c2767ce9b3617da7bd49a24f430115288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 03/64] fix: move the source after removing an existing target
 in Rename

---
 pkg/fs/filesystem.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index ccb9636..df899d9 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -792,6 +792,11 @@ func (f *STFS) Rename(oldname, newname string) error {
 		f.onHeader,
 	)
 	if err == nil {
+		// Renaming an entry to itself is a no-op
+		if target.Name == source.Name && target.Linkname == source.Linkname {
+			return nil
+		}
+
 		if target.Typeflag != source.Typeflag {
 			return os.ErrExist
 		}
@@ -799,8 +804,6 @@ func (f *STFS) Rename(oldname, newname string) error {
 		if err := f.removeWithoutLocking(newname); err != nil {
 			return err
 		}
-
-		return err
 	}
 
 	return f.writeOps.Move(oldname, newname)
-- 
2.43.0


From 92a11cd3aaa2cf8be5ca15a735c42aa293f23370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 04/64] fix: refuse to move a directory into its own subtree

---
 pkg/fs/filesystem.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index df899d9..b75b86f 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -766,14 +766,15 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if parent, err := inventory.Stat(
+	parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(newname),
 		false,
 
 		f.onHeader,
-	); err != nil {
+	)
+	if err != nil {
 		if err == sql.ErrNoRows {
 			return os.ErrNotExist
 		}
@@ -783,6 +784,11 @@ func (f *STFS) Rename(oldname, newname string) error {
 		return config.ErrIsFile
 	}
 
+	// A directory can't be moved into its own subtree
+	if source.Typeflag == tar.TypeDir && strings.HasPrefix(strings.TrimSuffix(parent.Name, "/")+"/", strings.TrimSuffix(source.Name, "/")+"/") {
+		return os.ErrInvalid
+	}
+
 	target, err := inventory.Stat(
 		f.metadata,
 
-- 
2.43.0


From a1544515776b16c2811ce027a4fb948d99a1cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 05/64] fix: refuse to move the root regardless of its spelling

---
 pkg/fs/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b75b86f..8b4958a 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -732,7 +732,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname || pathext.IsRoot(oldname, false) {
 		return os.ErrInvalid
 	}
 
-- 
2.43.0


From 06b505762f0d04ec591debcb794f3eeb194282c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 06/64] fix: move and delete directories of foreign archives
 under their stored name

---
 pkg/operations/delete.go |  5 +++++
 pkg/operations/move.go   | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..decaa32 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"database/sql"
 	"path/filepath"
+	"strings"
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
@@ -42,6 +43,10 @@ func (o *Operations) Delete(name string) error {
 	if err != nil {
 		if err == sql.ErrNoRows {
 			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), name)
+			if err == sql.ErrNoRows {
+				// Directories in foreign archives can have trailing slashes
+				dbhdr, err = o.metadata.Metadata.GetHeader(context.Background(), strings.TrimSuffix(name, "/")+"/")
+			}
 			if err != nil {
 				return err
 			}
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..88c2c33 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -49,6 +49,10 @@ func (o *Operations) Move(from string, to string) error {
 	if err != nil {
 		if err == sql.ErrNoRows {
 			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), from)
+			if err == sql.ErrNoRows {
+				// Directories in foreign archives can have trailing slashes
+				dbhdr, err = o.metadata.Metadata.GetHeader(context.Background(), strings.TrimSuffix(from, "/")+"/")
+			}
 			if err != nil {
 				return err
 			}
@@ -78,6 +82,12 @@ func (o *Operations) Move(from string, to string) error {
 		headersToMove = append(headersToMove, dbhdrs...)
 	}
 
+	// Use the stored spelling of the source as the prefix unless the source is a link
+	prefix := from
+	if dbhdr.Linkname == "" {
+		prefix = dbhdr.Name
+	}
+
 	// Append move headers to the tape or tar file
 	hdrs := []tar.Header{}
 	for _, dbhdr := range headersToMove {
@@ -87,7 +97,7 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
+		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(strings.TrimSuffix(prefix, "/"), "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
-- 
2.43.0


From 9b70b87b12f26dba1a52d96dd8cd93e2133e81ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 07/64] fix: allow moving to the name of a deleted entry

---
 pkg/persisters/metadata.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..1fc1f44 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -144,6 +144,25 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
+	// Drop the rows (i.e. of deleted headers) which would prevent moving to the new name
+	if oldName != newName {
+		if _, err := queries.Raw(
+			fmt.Sprintf(
+				`delete from %v where %v = ? and %v in (select %v from %v where %v = ?);`,
+				models.TableNames.Headers,
+				models.HeaderColumns.Name,
+				models.HeaderColumns.Linkname,
+				models.HeaderColumns.Linkname,
+				models.TableNames.Headers,
+				models.HeaderColumns.Name,
+			),
+			newName,
+			oldName,
+		).ExecContext(ctx, p.sqlite.DB); err != nil {
+			return err
+		}
+	}
+
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
 	n, err := queries.Raw(
 		fmt.Sprintf(
-- 
2.43.0


From 0cac5a4e3259c20868245420690ed26b236cc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 08/64] fix: ignore already applied deletions when re-indexing

---
 pkg/recovery/index.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..c058361 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -299,7 +299,8 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+			// To support replaying previous `Delete` operations, we need to ignore non-existent headers here
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
 			}
 		case records.STFSRecordActionUpdate:
-- 
2.43.0


From 5fd99e5907bcc8b07c1d39fa18e8823292f821b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 09/64] fix: release the drive when a write operation fails

---
 pkg/operations/archive.go    |  5 ++++-
 pkg/operations/delete.go     |  5 ++++-
 pkg/operations/move.go       |  5 ++++-
 pkg/operations/operations.go | 41 ++++++++++++++++++++++++++++++++++++
 pkg/operations/update.go     |  5 ++++-
 5 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..38e8fe1 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -48,6 +48,9 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
+	closeWriter, releaseWriter := o.guardWriter(writer)
+	defer releaseWriter()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -261,7 +264,7 @@ func (o *Operations) archive(
 		index = 0 // If we are starting fresh, index from start
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
+	if err := closeWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
 
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index decaa32..b5170b2 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -27,6 +27,9 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	closeWriter, releaseWriter := o.guardWriter(writer)
+	defer releaseWriter()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -112,7 +115,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
+	if err := closeWriter(); err != nil {
 		return err
 	}
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 88c2c33..87aa6d8 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -33,6 +33,9 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	closeWriter, releaseWriter := o.guardWriter(writer)
+	defer releaseWriter()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -136,7 +139,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
+	if err := closeWriter(); err != nil {
 		return err
 	}
 
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index c34b464..ff4af96 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,7 @@
 package operations
 
 import (
+	"os"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -53,3 +54,43 @@ func (o *Operations) GetPipes() config.PipeConfig {
 func (o *Operations) GetCrypto() config.CryptoConfig {
 	return o.crypto
 }
+
+// guardWriter returns a function to close the writer after a complete append, and one which
+// has to be deferred to release the drive (without leaving incomplete records) if the append fails
+func (o *Operations) guardWriter(writer config.DriveWriterConfig) (closeWriter func() error, releaseWriter func()) {
+	drive, ok := writer.Drive.(interface {
+		Stat() (os.FileInfo, error)
+		Truncate(size int64) error
+	})
+
+	oldSize := int64(-1)
+	if ok && writer.DriveIsRegular {
+		if stat, err := drive.Stat(); err == nil {
+			oldSize = stat.Size()
+		}
+	}
+
+	closed := false
+
+	closeWriter = func() error {
+		closed = true
+
+		return o.backend.CloseWriter()
+	}
+
+	releaseWriter = func() {
+		if closed {
+			return
+		}
+
+		if oldSize >= 0 {
+			if stat, err := drive.Stat(); err == nil && stat.Size() > oldSize {
+				_ = drive.Truncate(oldSize) // Best effort; we return the original error instead
+			}
+		}
+
+		_ = closeWriter() // Best effort; we return the original error instead
+	}
+
+	return closeWriter, releaseWriter
+}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..7d638c4 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -33,6 +33,9 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	closeWriter, releaseWriter := o.guardWriter(writer)
+	defer releaseWriter()
+
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
@@ -279,7 +282,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
-	if err := o.backend.CloseWriter(); err != nil {
+	if err := closeWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
 
-- 
2.43.0


From 1808da69b80b63afcd141af5bd4e568caba42b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 10/64] fix: don't require a header callback for write
 operations

---
 pkg/operations/archive.go | 4 ++++
 pkg/operations/delete.go  | 4 ++++
 pkg/operations/move.go    | 4 ++++
 pkg/operations/update.go  | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 38e8fe1..5c24faf 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -301,6 +301,10 @@ func (o *Operations) archive(
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeArchive,
 				Indexed: true,
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index b5170b2..b7e4803 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -152,6 +152,10 @@ func (o *Operations) Delete(name string) error {
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeDelete,
 				Indexed: true,
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 87aa6d8..87b5541 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -176,6 +176,10 @@ func (o *Operations) Move(from string, to string) error {
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeMove,
 				Indexed: true,
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 7d638c4..468d4f0 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -319,6 +319,10 @@ func (o *Operations) Update(
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeUpdate,
 				Indexed: true,
-- 
2.43.0


From 67df64a52903b42a8b27bf4141e538d2de91298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 11/64] fix: unlock the drive if it can't be opened or closed

---
 pkg/tape/manager.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..72d9894 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -55,6 +55,8 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
@@ -78,15 +80,17 @@ func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
 }
 
 func (m *TapeManager) Close() error {
-	if m.closer != nil {
-		if err := m.closer(); err != nil {
-			return err
-		}
+	// Closing is a no-op if neither a reader nor a writer is open
+	if m.closer == nil {
+		return nil
 	}
 
-	m.physicalLock.Unlock()
+	closer := m.closer
+	m.closer = nil
 
-	return nil
+	defer m.physicalLock.Unlock()
+
+	return closer()
 }
 
 func (m *TapeManager) openOrReuseReader() error {
@@ -106,6 +110,8 @@ func (m *TapeManager) openOrReuseReader() error {
 
 		r, rr, err := OpenTapeReadOnly(m.drive)
 		if err != nil {
+			m.physicalLock.Unlock()
+
 			return err
 		}
 
-- 
2.43.0


From 168253fd1c7c6eab09914bd02fce3d1c8079c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 12/64] fix: keep the bytes around writes and truncations in
 the in-memory write cache

---
 pkg/cache/write.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..99dddfe 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -36,7 +37,39 @@ func (f filebufferWithSize) Sync() error {
 	return nil
 }
 
+func (f filebufferWithSize) Write(p []byte) (n int, err error) {
+	// Check if the buffer has been closed
+	if _, err := f.Seek(0, io.SeekCurrent); err != nil {
+		return 0, err
+	}
+
+	// Fill the gap if we are past the end
+	if size := int64(f.Buff.Len()); f.Index > size {
+		if err := f.Truncate(f.Index); err != nil {
+			return 0, err
+		}
+	}
+
+	// Overwrite the existing bytes, then append the rest
+	overwritten := copy(f.Buff.Bytes()[f.Index:], p)
+	appended, err := f.Buff.Write(p[overwritten:])
+
+	f.Index += int64(overwritten + appended)
+
+	return overwritten + appended, err
+}
+
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if oldSize := int64(f.Buff.Len()); size > oldSize {
+		_, err := f.Buff.Write(make([]byte, size-oldSize))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
-- 
2.43.0


From a629b6536e24d37e6b265fa82b9531db95e297db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 13/64] fix: don't hold the drive while a file is open for
 reading

---
 pkg/fs/file.go | 261 ++++++++++++++++++++++++++-----------------------
 1 file changed, 136 insertions(+), 125 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..c466a2d 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,7 +1,6 @@
 package fs
 
 import (
-	"bytes"
 	"database/sql"
 	"io"
 	"io/fs"
@@ -48,8 +47,10 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
+	pos int64 // Cursor in read mode; in write mode, the write buffer has its own
+
+	readBuf      cache.WriteCache
+	cleanReadBuf func() error
 
 	writeBuf      cache.WriteCache
 	cleanWriteBuf func() error
@@ -180,16 +181,8 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
-	}
-
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
-			return err
-		}
+	if err := f.leaveReadMode(); err != nil {
+		return err
 	}
 
 	if f.writeBuf != nil {
@@ -203,22 +196,130 @@ func (f *File) closeWithoutLocking() error {
 		}
 	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
 	f.writeBuf = nil
+	f.pos = 0
 
 	return nil
 }
 
+func (f *File) enterReadMode() error {
+	f.log.Trace("File.enterReadMode", map[string]interface{}{
+		"name": f.name,
+	})
+
+	if f.readBuf != nil {
+		return nil
+	}
+
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite("", config.WriteCacheTypeMemory)
+		}
+	}
+
+	readBuf, cleanReadBuf, err := getFileBuffer()
+	if err != nil {
+		return err
+	}
+
+	f.readBuf = readBuf
+	f.cleanReadBuf = cleanReadBuf
+
+	// Restore the complete file so that the drive isn't being held in between reads
+	if err := f.readOps.Restore(
+		func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+			// Don't close the file here, we want to re-use it!
+			return ioext.AddCloseNopToWriter(readBuf), nil
+		},
+		func(path string, mode fs.FileMode) error {
+			// Not necessary; can't read on a directory
+			return nil
+		},
+
+		f.path,
+		"",
+		true,
+	); err != nil {
+		_ = f.leaveReadMode()
+
+		if err == sql.ErrNoRows {
+			return os.ErrNotExist
+		}
+
+		return err
+	}
+
+	return nil
+}
+
+func (f *File) leaveReadMode() error {
+	f.log.Trace("File.leaveReadMode", map[string]interface{}{
+		"name": f.name,
+	})
+
+	if f.readBuf == nil {
+		return nil
+	}
+
+	readBuf, cleanReadBuf := f.readBuf, f.cleanReadBuf
+	f.readBuf, f.cleanReadBuf = nil, nil
+
+	if err := readBuf.Close(); err != nil {
+		_ = cleanReadBuf()
+
+		return err
+	}
+
+	return cleanReadBuf()
+}
+
+func (f *File) readAtWithoutLocking(p []byte, off int64) (n int, err error) {
+	f.log.Trace("File.readAtWithoutLocking", map[string]interface{}{
+		"name": f.name,
+		"p":    len(p),
+		"off":  off,
+	})
+
+	if off < 0 {
+		return 0, os.ErrInvalid
+	}
+
+	buf := f.writeBuf
+	if buf == nil {
+		if err := f.enterReadMode(); err != nil {
+			return 0, err
+		}
+
+		buf = f.readBuf
+	} else {
+		// Don't move the cursor
+		pos, err := buf.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return 0, err
+		}
+		defer buf.Seek(pos, io.SeekStart)
+	}
+
+	if _, err := buf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	n, err = io.ReadFull(buf, p)
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
+
+	return n, err
+}
+
 func (f *File) enterWriteMode() error {
 	f.log.Trace("File.enterWriteMode", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if err := f.leaveReadMode(); err != nil {
+		return err
 	}
 
 	if f.writeBuf == nil {
@@ -307,73 +408,20 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 	case io.SeekStart:
 		dst = offset
 	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
-		}
-		dst = int64(curr) + offset
+		dst = f.pos + offset
 	case io.SeekEnd:
-		dst = f.info.Size() - offset
+		dst = f.info.Size() + offset
 	default:
-		return -1, config.ErrNotImplemented
+		return 0, config.ErrNotImplemented
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
-
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
+	if dst < 0 {
+		return 0, os.ErrInvalid
 	}
 
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
-	}
+	f.pos = dst
 
-	if err != nil {
-		return -1, err
-	}
-
-	return written, nil
+	return dst, nil
 }
 
 // Inventory
@@ -509,51 +557,15 @@ func (f *File) Read(p []byte) (n int, err error) {
 		return f.writeBuf.Read(p)
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
-	}
+	n, err = f.readAtWithoutLocking(p, f.pos)
+	f.pos += int64(n)
 
-	if err != nil {
-		return -1, err
+	// Only signal the end of the file if there is nothing left to read
+	if n > 0 && err == io.EOF {
+		err = nil
 	}
 
-	return copy(p, w.Bytes()), nil
+	return n, err
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -575,11 +587,10 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		return -1, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
-	}
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
 
-	return f.Read(p)
+	return f.readAtWithoutLocking(p, off)
 }
 
 // Read/write operations
-- 
2.43.0


From f136e012fc6d6e152bd62689e0d37dd828ac9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 14/64] fix: keep the cursor and content when writing,
 appending and truncating

---
 pkg/fs/file.go | 55 ++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index c466a2d..3bdf661 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -377,10 +377,9 @@ func (f *File) enterWriteMode() error {
 			}
 		}
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+		// Continue at the current position
+		if _, err := f.writeBuf.Seek(f.pos, io.SeekStart); err != nil {
+			return err
 		}
 	}
 
@@ -607,6 +606,22 @@ func (f *File) Seek(offset int64, whence int) (int64, error) {
 	return f.seekWithoutLocking(offset, whence)
 }
 
+func (f *File) writeWithoutLocking(p []byte) (n int, err error) {
+	f.log.Trace("File.writeWithoutLocking", map[string]interface{}{
+		"name": f.name,
+		"p":    len(p),
+	})
+
+	// Always write to the end of the file if we are appending
+	if f.flags.Append {
+		if _, err := f.writeBuf.Seek(0, io.SeekEnd); err != nil {
+			return 0, err
+		}
+	}
+
+	return f.writeBuf.Write(p)
+}
+
 // Write operations
 func (f *File) Write(p []byte) (n int, err error) {
 	f.log.Trace("File.Write", map[string]interface{}{
@@ -629,7 +644,7 @@ func (f *File) Write(p []byte) (n int, err error) {
 		return -1, err
 	}
 
-	n, err = f.writeBuf.Write(p)
+	n, err = f.writeWithoutLocking(p)
 	if err != nil {
 		return -1, err
 	}
@@ -659,6 +674,13 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		return -1, err
 	}
 
+	// Don't move the cursor
+	pos, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return -1, err
+	}
+	defer f.writeBuf.Seek(pos, io.SeekStart)
+
 	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
 		return -1, err
 	}
@@ -687,7 +709,7 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		return -1, err
 	}
 
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -707,29 +729,14 @@ func (f *File) Truncate(size int64) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return err
+	if size < 0 {
+		return os.ErrInvalid
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
+	if err := f.enterWriteMode(); err != nil {
 		return err
 	}
 
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
-	}
-
 	if err := f.writeBuf.Truncate(size); err != nil {
 		return err
 	}
-- 
2.43.0


From 6d94414bda7a709b499d3326be6d3c0653fedaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 15/64] fix: don't return negative counts and offsets on errors

---
 pkg/fs/file.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 3bdf661..808c4f7 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -538,7 +538,7 @@ func (f *File) Read(p []byte) (n int, err error) {
 	})
 
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -546,7 +546,7 @@ func (f *File) Read(p []byte) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	f.ioLock.Lock()
@@ -575,7 +575,7 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	})
 
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -583,7 +583,7 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	f.ioLock.Lock()
@@ -630,23 +630,23 @@ func (f *File) Write(p []byte) (n int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
 	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	n, err = f.writeWithoutLocking(p)
 	if err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	return n, nil
@@ -660,29 +660,29 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
 	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	// Don't move the cursor
 	pos, err := f.writeBuf.Seek(0, io.SeekCurrent)
 	if err != nil {
-		return -1, err
+		return 0, err
 	}
 	defer f.writeBuf.Seek(pos, io.SeekStart)
 
 	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	return f.writeBuf.Write(p)
@@ -695,18 +695,18 @@ func (f *File) WriteString(s string) (ret int, err error) {
 	})
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
 	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+		return 0, err
 	}
 
 	return f.writeWithoutLocking([]byte(s))
-- 
2.43.0


From 51abaa668b96cb6b527dbbe60b81950e65212d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 16/64] fix: don't grow the in-memory write cache on empty
 writes

---
 pkg/cache/write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index 99dddfe..c5771fe 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -43,6 +43,10 @@ func (f filebufferWithSize) Write(p []byte) (n int, err error) {
 		return 0, err
 	}
 
+	if len(p) == 0 {
+		return 0, nil
+	}
+
 	// Fill the gap if we are past the end
 	if size := int64(f.Buff.Len()); f.Index > size {
 		if err := f.Truncate(f.Index); err != nil {
-- 
2.43.0


From cf7adab3a86febf587024e49f22e7c10aaa41803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 17/64] fix: drop the write buffer if the existing content
 can't be loaded

---
 pkg/fs/file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 808c4f7..0eddc72 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -313,7 +313,7 @@ func (f *File) readAtWithoutLocking(p []byte, off int64) (n int, err error) {
 	return n, err
 }
 
-func (f *File) enterWriteMode() error {
+func (f *File) enterWriteMode() (enterErr error) {
 	f.log.Trace("File.enterWriteMode", map[string]interface{}{
 		"name": f.name,
 	})
@@ -351,6 +351,16 @@ func (f *File) enterWriteMode() error {
 		f.writeBuf = writeBuf
 		f.cleanWriteBuf = cleanWriteBuf
 
+		// Drop the incomplete buffer on errors so that it doesn't replace the existing content
+		defer func() {
+			if enterErr != nil {
+				f.writeBuf = nil
+
+				_ = writeBuf.Close()
+				_ = cleanWriteBuf()
+			}
+		}()
+
 		// Read existing file into buffer
 		if exists {
 			if err := f.readOps.Restore(
-- 
2.43.0


From 54530fdd699586489efba4c0852416b48b6ea0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 18/64] fix: keep files usable after Sync and don't revert
 attribute changes or removals made while a file is open

---
 pkg/fs/file.go | 108 +++++++++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 43 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 0eddc72..839e77f 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -7,7 +7,6 @@ import (
 	"os"
 	"path"
 	"sync"
-	"time"
 
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/pathext"
@@ -59,6 +58,13 @@ type File struct {
 	log      logging.StructuredLogger
 }
 
+// nopCloseWriteCache is a write cache which stays open after it has been written to the tape
+type nopCloseWriteCache struct {
+	cache.WriteCache
+}
+
+func (nopCloseWriteCache) Close() error { return nil }
+
 func NewFile(
 	readOps *operations.Operations,
 	writeOps *operations.Operations,
@@ -111,6 +117,42 @@ func (f *File) syncWithoutLocking() error {
 	}
 
 	if f.writeBuf != nil {
+		// Use the current attributes, which might have changed since opening the file
+		hdr, err := inventory.Stat(
+			f.metadata,
+
+			f.path,
+			false,
+
+			f.onHeader,
+		)
+		if err != nil {
+			if err == sql.ErrNoRows {
+				// The entry has been removed or moved in the meantime
+				return nil
+			}
+
+			return err
+		}
+
+		if !hdr.FileInfo().Mode().IsRegular() {
+			// The entry has been replaced in the meantime
+			return nil
+		}
+
+		size, err := f.writeBuf.Size()
+		if err != nil {
+			return err
+		}
+
+		hdr.Size = size
+		hdr.PAXRecords = nil // Don't re-use the records of the previous content
+
+		pos, err := f.writeBuf.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+
 		done := false
 		if _, err := f.writeOps.Update(
 			func() (config.FileConfig, error) {
@@ -120,47 +162,16 @@ func (f *File) syncWithoutLocking() error {
 				}
 				done = true
 
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
 				return config.FileConfig{
 					GetFile: func() (io.ReadSeekCloser, error) {
 						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
 							return nil, err
 						}
 
-						return f.writeBuf, nil
+						// Don't close the write buffer here, we want to re-use it!
+						return nopCloseWriteCache{f.writeBuf}, nil
 					},
-					Info: f.info,
+					Info: hdr.FileInfo(),
 					Path: f.path,
 					Link: f.link,
 				}, nil
@@ -171,6 +182,12 @@ func (f *File) syncWithoutLocking() error {
 		); err != nil {
 			return err
 		}
+
+		f.info.size = size
+
+		if _, err := f.writeBuf.Seek(pos, io.SeekStart); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -186,17 +203,24 @@ func (f *File) closeWithoutLocking() error {
 	}
 
 	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
 		if err := f.syncWithoutLocking(); err != nil {
 			return err
 		}
 
-		if err := f.cleanWriteBuf(); err != nil {
+		writeBuf, cleanWriteBuf := f.writeBuf, f.cleanWriteBuf
+		f.writeBuf, f.cleanWriteBuf = nil, nil
+
+		if err := writeBuf.Close(); err != nil {
+			_ = cleanWriteBuf()
+
+			return err
+		}
+
+		if err := cleanWriteBuf(); err != nil {
 			return err
 		}
 	}
 
-	f.writeBuf = nil
 	f.pos = 0
 
 	return nil
@@ -474,15 +498,13 @@ func (f *File) Stat() (os.FileInfo, error) {
 		f.info.size = size
 	}
 
-	if f.link != "" {
-		info := f.info
+	info := *f.info // Copy so that later writes don't change the returned info
 
+	if f.link != "" {
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
-- 
2.43.0


From c9d95940506bd5d7a3d48e9b4f10f8ada683337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 19/64] fix: create absent files and refuse existing ones with
 O_EXCL

---
 pkg/fs/filesystem.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 8b4958a..15aea2f 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -457,6 +457,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	created := false
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -477,7 +478,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
+				if !f.readOnly && flag&os.O_CREATE != 0 {
 					if parent, err := inventory.Stat(
 						f.metadata,
 
@@ -527,6 +528,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 						return err
 					}
+
+					created = true
 				} else {
 					return os.ErrNotExist
 				}
@@ -582,6 +585,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	// Prevent opening an existing entry if it has to be created
+	if !f.readOnly && !created && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
-- 
2.43.0


From 0fa813c1759c1930e6b972ab0088aee576ccebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 20/64] fix: truncate existing files when opening them with
 O_TRUNC

---
 pkg/fs/file.go       |  3 ++-
 pkg/fs/filesystem.go | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 839e77f..de115a0 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -357,7 +357,8 @@ func (f *File) enterWriteMode() (enterErr error) {
 			f.onHeader,
 		)
 		if err == nil {
-			if existingFile.Size != 0 {
+			// The content isn't required if it is being truncated
+			if existingFile.Size != 0 && !f.flags.Truncate {
 				exists = true
 			}
 		} else {
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 15aea2f..a9c27a0 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -595,7 +595,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -614,7 +614,16 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	// Truncate existing content even if nothing is being written before closing
+	if flags.Write && flags.Truncate && hdr.Size > 0 {
+		if err := file.enterWriteMode(); err != nil {
+			return nil, err
+		}
+	}
+
+	return file, nil
 }
 
 func (f *STFS) Remove(name string) error {
-- 
2.43.0


From 59270358d96687b71992a1e9eaff37cba6165bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 21/64] fix: hold the lock for all index lookups

---
 pkg/fs/filesystem.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index a9c27a0..266dc5d 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -97,14 +97,17 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if parent, err := inventory.Stat(
+	f.ioLock.Lock()
+	parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
 		false,
 
 		f.onHeader,
-	); err != nil {
+	)
+	f.ioLock.Unlock()
+	if err != nil {
 		if err == sql.ErrNoRows {
 			return nil, os.ErrNotExist
 		}
@@ -1181,6 +1184,9 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	var err error
 	rawOldName := oldname
 	oldname, err = f.resolveCleanName(oldname, true)
@@ -1194,9 +1200,6 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return err
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
 	if parent, err := inventory.Stat(
 		f.metadata,
 
-- 
2.43.0


From 03b40fdc09b4e1c6e0e60dc6b25ddf0ce4d37447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 22/64] fix: match children by their exact path prefix

---
 pkg/persisters/metadata.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 1fc1f44..c59d113 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -256,8 +256,9 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 
+	prefix := strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix),
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -320,9 +321,9 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 
 		query := fmt.Sprintf(
 			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
+    length(substr(%v, length(?) + 1)) - length(replace(substr(%v, length(?) + 1), '/', '')) as depth
 from %v
-where %v like ?
+where substr(%v, 1, length(?)) = ?
     and (
         depth = ?
         or (
@@ -369,7 +370,8 @@ where %v like ?
 				query+`limit ?`,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 				limit+1, // +1 to accomodate the parent directory if it exists
@@ -385,7 +387,8 @@ where %v like ?
 				query,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-- 
2.43.0


From 1ccc6cdeb729d29d2076768b73bafb9c6aebc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 23/64] fix: only strip the suffixes which have been added from
 names

---
 pkg/recovery/index.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index c058361..1fa67ca 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -240,6 +240,20 @@ func Index(
 	return nil
 }
 
+// replacesContent checks if the record carries the content of the entry
+func replacesContent(hdr *tar.Header) bool {
+	action, ok := hdr.PAXRecords[records.STFSRecordAction]
+	if !ok || action == records.STFSRecordActionCreate {
+		return true
+	}
+
+	if _, ok := hdr.PAXRecords[records.STFSRecordReplacesName]; ok {
+		return false
+	}
+
+	return action == records.STFSRecordActionUpdate && hdr.PAXRecords[records.STFSRecordReplacesContent] == records.STFSRecordReplacesContentTrue
+}
+
 func indexHeader(
 	record, block int64,
 	hdr *tar.Header,
@@ -259,7 +273,8 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only records with content have a suffix
+	if ok && hdr.FileInfo().Mode().IsRegular() && replacesContent(hdr) {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
-- 
2.43.0


From 6a62410d821adf6449da40386bd0220fef519d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 24/64] fix: keep the size on metadata-only updates

---
 pkg/recovery/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 1fa67ca..b018c31 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -349,6 +349,7 @@ func indexHeader(
 					}
 
 					newHdr = h
+					newHdr.Size = oldHdr.Size // The content and thus it's size doesn't change
 
 					if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(newHdr)); err != nil {
 						return err
-- 
2.43.0


From d7989856b3e1d74b5d898a6a2579bd2473677cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 25/64] fix: restore empty files

---
 pkg/recovery/fetch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..ba3f356 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -99,7 +99,12 @@ func Fetch(
 				return err
 			}
 
-			return nil
+			return dstFile.Close()
+		}
+
+		// Files which have been created without content have nothing to decrypt, decompress or verify
+		if _, ok := hdr.PAXRecords[records.STFSRecordSignature]; !ok && hdr.Size == 0 {
+			return dstFile.Close()
 		}
 
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
-- 
2.43.0


From e69d52ababcd1d171f743b4f9fbcf0c81c5c26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 26/64] fix: limit the content of non-regular entries to the
 verified size

---
 pkg/recovery/fetch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index ba3f356..841774f 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -95,7 +95,7 @@ func Fetch(
 
 		// Don't decompress non-regular files
 		if !hdr.FileInfo().Mode().IsRegular() {
-			if _, err := io.Copy(dstFile, tr); err != nil {
+			if _, err := io.Copy(dstFile, io.LimitReader(tr, hdr.Size)); err != nil { // The verified size limits the content
 				return err
 			}
 
-- 
2.43.0


From 4e463567f76066988447c357973dabdb88f1aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 27/64] fix: reject headers with malformed PGP signatures

---
 pkg/signature/verify.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..0c37ce1 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -157,27 +157,27 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
 		if !ok {
-			return nil
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From e49b340d1abd2efda2c1be774adec950415850e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 28/64] fix: unlock PGP identities with an empty password and
 reject passwords for unprotected ones

---
 pkg/keys/identity.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..5122bbf 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,20 +43,28 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				if password != "" {
 					return nil, config.ErrIdentityUnparsable
 				}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
-					return nil, err
-				}
+				continue
+			}
+
+			// Keys which aren't protected don't have a password
+			if !identity.PrivateKey.Encrypted && password != "" {
+				return nil, config.ErrIdentityUnparsable
+			}
 
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
+			// Keys can also be protected with an empty password
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
+
+			for _, subkey := range identity.Subkeys {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
+					return nil, err
 				}
 			}
 		}
-- 
2.43.0


From 0c5d8a3d9d9eca6c9cd437266193e3960d0b20cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 29/64] fix: index the records of a call from where they have
 been appended

---
 pkg/operations/archive.go    | 24 ++++++-------------
 pkg/operations/delete.go     | 10 ++++----
 pkg/operations/move.go       | 10 ++++----
 pkg/operations/operations.go | 45 ++++++++++++++++++++++++++++++++----
 pkg/operations/update.go     | 11 ++++-----
 5 files changed, 63 insertions(+), 37 deletions(-)

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5c24faf..6626f58 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -2,7 +2,6 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"errors"
 	"io"
 	"strconv"
@@ -48,7 +47,7 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	closeWriter, releaseWriter := o.guardWriter(writer)
+	closeWriter, releaseWriter, oldSize := o.guardWriter(writer)
 	defer releaseWriter()
 
 	dirty := false
@@ -57,13 +56,9 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	lastIndexedRecord := int64(0)
-	lastIndexedBlock := int64(0)
-	if !overwrite {
-		lastIndexedRecord, lastIndexedBlock, err = o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
-		if err != nil {
-			return []*tar.Header{}, err
-		}
+	indexRecord, indexBlock, indexOffset, err := o.getIndexStart(oldSize, overwrite)
+	if err != nil {
+		return []*tar.Header{}, err
 	}
 
 	hdrs := []*tar.Header{}
@@ -259,11 +254,6 @@ func (o *Operations) archive(
 		return []*tar.Header{}, err
 	}
 
-	index := 1 // Ignore the first header, which is the last header which we already indexed
-	if overwrite {
-		index = 0 // If we are starting fresh, index from start
-	}
-
 	if err := closeWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -281,11 +271,11 @@ func (o *Operations) archive(
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		indexRecord,
+		indexBlock,
 		overwrite,
 		initializing,
-		index,
+		indexOffset,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index b7e4803..86217b8 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -27,7 +27,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
-	closeWriter, releaseWriter := o.guardWriter(writer)
+	closeWriter, releaseWriter, oldSize := o.guardWriter(writer)
 	defer releaseWriter()
 
 	dirty := false
@@ -36,7 +36,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	indexRecord, indexBlock, indexOffset, err := o.getIndexStart(oldSize, false)
 	if err != nil {
 		return err
 	}
@@ -132,11 +132,11 @@ func (o *Operations) Delete(name string) error {
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		indexRecord,
+		indexBlock,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
+		indexOffset,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 87b5541..130a026 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -33,7 +33,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
-	closeWriter, releaseWriter := o.guardWriter(writer)
+	closeWriter, releaseWriter, oldSize := o.guardWriter(writer)
 	defer releaseWriter()
 
 	dirty := false
@@ -42,7 +42,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	indexRecord, indexBlock, indexOffset, err := o.getIndexStart(oldSize, false)
 	if err != nil {
 		return err
 	}
@@ -156,11 +156,11 @@ func (o *Operations) Move(from string, to string) error {
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		indexRecord,
+		indexBlock,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
+		indexOffset,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index ff4af96..6250472 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,6 +1,7 @@
 package operations
 
 import (
+	"context"
 	"os"
 	"sync"
 
@@ -56,14 +57,15 @@ func (o *Operations) GetCrypto() config.CryptoConfig {
 }
 
 // guardWriter returns a function to close the writer after a complete append, and one which
-// has to be deferred to release the drive (without leaving incomplete records) if the append fails
-func (o *Operations) guardWriter(writer config.DriveWriterConfig) (closeWriter func() error, releaseWriter func()) {
+// has to be deferred to release the drive (without leaving incomplete records) if the append fails.
+// It also returns the size of the drive before the append, or -1 if it is unknown.
+func (o *Operations) guardWriter(writer config.DriveWriterConfig) (closeWriter func() error, releaseWriter func(), oldSize int64) {
 	drive, ok := writer.Drive.(interface {
 		Stat() (os.FileInfo, error)
 		Truncate(size int64) error
 	})
 
-	oldSize := int64(-1)
+	oldSize = int64(-1)
 	if ok && writer.DriveIsRegular {
 		if stat, err := drive.Stat(); err == nil {
 			oldSize = stat.Size()
@@ -92,5 +94,40 @@ func (o *Operations) guardWriter(writer config.DriveWriterConfig) (closeWriter f
 		_ = closeWriter() // Best effort; we return the original error instead
 	}
 
-	return closeWriter, releaseWriter
+	return closeWriter, releaseWriter, oldSize
+}
+
+// getIndexStart returns the position at which to start indexing the records which are about to be appended,
+// and the number of already indexed headers to skip from there
+func (o *Operations) getIndexStart(oldSize int64, overwrite bool) (record int, block int, offset int, err error) {
+	if oldSize >= 0 {
+		blocks := int((oldSize + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize)
+
+		return blocks / o.pipes.RecordSize, blocks % o.pipes.RecordSize, 0, nil
+	}
+
+	// If we are starting fresh, index from start
+	if overwrite {
+		return 0, 0, 0, nil
+	}
+
+	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return 0, 0, 0, err
+	}
+
+	if lastIndexedRecord == 0 && lastIndexedBlock == 0 {
+		hdrs, err := o.metadata.Metadata.GetHeaders(context.Background())
+		if err != nil {
+			return 0, 0, 0, err
+		}
+
+		// There is no last header yet
+		if len(hdrs) == 0 {
+			return 0, 0, 0, nil
+		}
+	}
+
+	// Ignore the first header, which is the last header which we already indexed
+	return int(lastIndexedRecord), int(lastIndexedBlock), 1, nil
 }
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 468d4f0..058bff6 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -2,7 +2,6 @@ package operations
 
 import (
 	"archive/tar"
-	"context"
 	"io"
 	"strconv"
 	"strings"
@@ -33,7 +32,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
-	closeWriter, releaseWriter := o.guardWriter(writer)
+	closeWriter, releaseWriter, oldSize := o.guardWriter(writer)
 	defer releaseWriter()
 
 	dirty := false
@@ -42,7 +41,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
-	lastIndexedRecord, lastIndexedBlock, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	indexRecord, indexBlock, indexOffset, err := o.getIndexStart(oldSize, false)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
@@ -299,11 +298,11 @@ func (o *Operations) Update(
 		o.pipes,
 		o.crypto,
 
-		int(lastIndexedRecord),
-		int(lastIndexedBlock),
+		indexRecord,
+		indexBlock,
 		false,
 		false,
-		1, // Ignore the first header, which is the last header which we already indexed
+		indexOffset,
 
 		func(hdr *tar.Header, i int) error {
 			if len(hdrs) <= i {
-- 
2.43.0


From 7b1db4904a70e2efb6cdebb31e219bd2af0fd253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 30/64] fix: find headers after any number of zero blocks when
 indexing and querying

---
 pkg/recovery/index.go  | 49 +++++-----------------------------
 pkg/recovery/query.go  | 50 +++++++----------------------------
 pkg/recovery/resync.go | 60 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 76 insertions(+), 83 deletions(-)
 create mode 100644 pkg/recovery/resync.go

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index b018c31..2b0ac02 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -63,48 +63,10 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
-
-						continue
-					}
-
-					break
-				}
-			}
-
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
+				// Skip over trailers, padding and unreadable blocks; this makes it possible to append to a tar file created by i.e. GNU tar
+				var nextBlock int64
+				tr, hdr, nextBlock, err = resync(reader.Drive, (record*int64(pipes.RecordSize))+block)
+				if err != nil {
 					if err == io.EOF {
 						// EOF
 						break
@@ -113,7 +75,8 @@ func Index(
 					return err
 				}
 
-				continue
+				record = nextBlock / int64(pipes.RecordSize)
+				block = nextBlock % int64(pipes.RecordSize)
 			}
 
 			if i >= offset {
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..a58737e 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -41,50 +41,20 @@ func Query(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return []*tar.Header{}, err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return []*tar.Header{}, err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-
-							break
-						}
-
-						continue
+				// Skip over trailers, padding and unreadable blocks; this makes it possible to append to a tar file created by i.e. GNU tar
+				var nextBlock int64
+				tr, hdr, nextBlock, err = resync(reader.Drive, (record*int64(pipes.RecordSize))+block)
+				if err != nil {
+					if err == io.EOF {
+						// EOF
+						break
 					}
 
-					break
+					return []*tar.Header{}, err
 				}
-			}
-
-			if hdr == nil {
-				// EOF
 
-				break
+				record = nextBlock / int64(pipes.RecordSize)
+				block = nextBlock % int64(pipes.RecordSize)
 			}
 
 			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
diff --git a/pkg/recovery/resync.go b/pkg/recovery/resync.go
new file mode 100644
index 0000000..22254af
--- /dev/null
+++ b/pkg/recovery/resync.go
@@ -0,0 +1,60 @@
+package recovery
+
+import (
+	"archive/tar"
+	"errors"
+	"io"
+
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// resync finds the next header at or after the given block. It skips over zero blocks (i.e. trailers and padding)
+// and unreadable blocks one by one, so that a header can directly follow any number of them. If there is
+// no header left, `io.EOF` is returned.
+func resync(drive io.ReadSeeker, block int64) (*tar.Reader, *tar.Header, int64, error) {
+	buf := make([]byte, config.MagneticTapeBlockSize)
+
+	for ; ; block++ {
+		if _, err := drive.Seek(block*config.MagneticTapeBlockSize, io.SeekStart); err != nil {
+			return nil, nil, 0, err
+		}
+
+		if _, err := io.ReadFull(drive, buf); err != nil {
+			if err == io.ErrUnexpectedEOF {
+				// Incomplete block at the end
+				err = io.EOF
+			}
+
+			return nil, nil, 0, err
+		}
+
+		if isZero(buf) {
+			continue
+		}
+
+		if _, err := drive.Seek(block*config.MagneticTapeBlockSize, io.SeekStart); err != nil {
+			return nil, nil, 0, err
+		}
+
+		tr := tar.NewReader(drive)
+
+		hdr, err := tr.Next()
+		if err == nil {
+			return tr, hdr, block, nil
+		}
+
+		if err != io.EOF && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, tar.ErrHeader) && !errors.Is(err, tar.ErrFieldTooLong) {
+			return nil, nil, 0, err
+		}
+	}
+}
+
+func isZero(block []byte) bool {
+	for _, b := range block {
+		if b != 0 {
+			return false
+		}
+	}
+
+	return true
+}
-- 
2.43.0


From 21e777640a9a58a8843f459d1b8a03b4944c0285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 31/64] fix: treat an incomplete last record as the end of the
 tape when indexing and querying

---
 pkg/recovery/index.go | 9 +++++++--
 pkg/recovery/query.go | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 2b0ac02..b3732ba 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -99,6 +99,11 @@ func Index(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The last record is incomplete
+					break
+				}
+
 				return err
 			}
 
@@ -141,7 +146,7 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -181,7 +186,7 @@ func Index(
 
 			curr = int64(counter.BytesRead)
 
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil && err != io.ErrUnexpectedEOF { // The last record of the current file can be incomplete
 				return err
 			}
 
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index a58737e..ee343db 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -82,6 +82,11 @@ func Query(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The last record is incomplete
+					break
+				}
+
 				return []*tar.Header{}, err
 			}
 
@@ -121,7 +126,7 @@ func Query(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -164,7 +169,7 @@ func Query(
 
 			headers = append(headers, hdr)
 
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil && err != io.ErrUnexpectedEOF { // The last record of the current file can be incomplete
 				return []*tar.Header{}, err
 			}
 
-- 
2.43.0


From 4a11e8df10d01e7709d9511cc08dc663d06b05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 32/64] fix: report the positions in all files on tapes when
 querying

---
 pkg/recovery/query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index ee343db..867c48a 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -140,8 +140,8 @@ func Query(
 					block = 0
 
 					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-					curr := int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
+					curr = int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
+					counter = &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
 					tr = tar.NewReader(counter)
 
 					continue
-- 
2.43.0


From 36202d14e239819184267df2f897c07ac5f78355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 33/64] fix: never start from scratch over a readable tape and
 catch up with it when initializing

---
 pkg/fs/filesystem.go | 170 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 128 insertions(+), 42 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 266dc5d..f4b435d 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -218,65 +218,151 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
-
-			if f.readOnly {
-				return "", os.ErrPermission
-			}
-
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
-				return "", err
-			}
-
-			// Ensure that the new root path is being used
-			return f.metadata.Metadata.GetRootPath(context.Background())
+	if err == nil {
+		if f.readOnly {
+			return existingRoot, nil
 		}
 
-		reader, err := f.readOps.GetBackend().GetReader()
+		// The tape might have changed since it has been indexed
+		outdated, err := f.updateIndexWithoutLocking()
 		if err != nil {
-			return mkdirRoot()
+			return "", err
 		}
 
-		if err := recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
-
-			0,
-			0,
-			true,
-			false,
-			0,
+		if !outdated {
+			return existingRoot, nil
+		}
+	} else if err != config.ErrNoRootDirectory {
+		return "", err
+	}
 
-			func(hdr *tar.Header, i int) error {
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
+	mkdirRoot := func(overwrite bool) (string, error) {
+		if err := f.readOps.GetBackend().CloseReader(); err != nil {
+			return "", err
+		}
 
-			f.onHeader,
-		); err != nil {
-			return mkdirRoot()
+		if f.readOnly {
+			return "", os.ErrPermission
 		}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
+		if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, overwrite, "", true); err != nil {
 			return "", err
 		}
 
 		// Ensure that the new root path is being used
 		return f.metadata.Metadata.GetRootPath(context.Background())
-	} else if err != nil {
+	}
+
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		// Only start from scratch if there is no tape yet
+		if errors.Is(err, os.ErrNotExist) {
+			return mkdirRoot(true)
+		}
+
+		return "", err
+	}
+
+	found := false
+	if err := f.indexWithoutLocking(reader, 0, 0, true, 0, func() { found = true }); err != nil {
+		// New tapes might not be readable yet
+		if !reader.DriveIsRegular && !found {
+			return mkdirRoot(true)
+		}
+
+		_ = f.readOps.GetBackend().CloseReader() // We return the original error instead
+
+		return "", err
+	}
+
+	// Ensure that the new root path is being used
+	root, err = f.metadata.Metadata.GetRootPath(context.Background())
+	if err == config.ErrNoRootDirectory {
+		return mkdirRoot(!found)
+	}
+
+	if err := f.readOps.GetBackend().CloseReader(); err != nil {
 		return "", err
 	}
 
-	return existingRoot, nil
+	return root, err
+}
+
+func (f *STFS) indexWithoutLocking(
+	reader config.DriveReaderConfig,
+
+	record int,
+	block int,
+	overwrite bool,
+	offset int,
+
+	onFound func(),
+) error {
+	return recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		record,
+		block,
+		overwrite,
+		false,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			onFound()
+
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		f.onHeader,
+	)
+}
+
+// updateIndexWithoutLocking indexes the records which have been appended since the last time the tape has been indexed.
+// If the index is ahead of the tape, it has to be rebuilt.
+func (f *STFS) updateIndexWithoutLocking() (outdated bool, err error) {
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		// There is no tape to compare with
+		if errors.Is(err, os.ErrNotExist) {
+			return false, nil
+		}
+
+		return false, err
+	}
+	defer f.readOps.GetBackend().CloseReader()
+
+	// Finding the end of a tape can take a very long time
+	if !reader.DriveIsRegular {
+		return false, nil
+	}
+
+	lastIndexedRecord, lastIndexedBlock, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+	if err != nil {
+		return false, err
+	}
+
+	lastIndexedPosition := (lastIndexedRecord*int64(f.readOps.GetPipes().RecordSize) + lastIndexedBlock) * config.MagneticTapeBlockSize
+	if _, err := reader.Drive.Seek(lastIndexedPosition, io.SeekStart); err != nil {
+		return false, err
+	}
+
+	if _, err := tar.NewReader(reader.Drive).Next(); err != nil {
+		if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, tar.ErrHeader) {
+			return true, nil
+		}
+
+		return false, err
+	}
+
+	// Ignore the first header, which is the last header which we already indexed
+	return false, f.indexWithoutLocking(reader, int(lastIndexedRecord), int(lastIndexedBlock), false, 1, func() {})
 }
 
 func (f *STFS) Mkdir(name string, perm os.FileMode) error {
-- 
2.43.0


From 5c43c34727d1263701855709ddf6cf189a6f4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 34/64] fix: complete an interrupted last record before
 appending to it

---
 .../resync.go => internal/tarext/next.go      |   6 +-
 pkg/recovery/index.go                         |   3 +-
 pkg/recovery/query.go                         |   3 +-
 pkg/tape/manager.go                           |  14 +-
 pkg/tape/writer.go                            | 151 ++++++++++++++++++
 5 files changed, 171 insertions(+), 6 deletions(-)
 rename pkg/recovery/resync.go => internal/tarext/next.go (83%)
 create mode 100644 pkg/tape/writer.go

diff --git a/pkg/recovery/resync.go b/internal/tarext/next.go
similarity index 83%
rename from pkg/recovery/resync.go
rename to internal/tarext/next.go
index 22254af..e330409 100644
--- a/pkg/recovery/resync.go
+++ b/internal/tarext/next.go
@@ -1,4 +1,4 @@
-package recovery
+package tarext
 
 import (
 	"archive/tar"
@@ -8,10 +8,10 @@ import (
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
-// resync finds the next header at or after the given block. It skips over zero blocks (i.e. trailers and padding)
+// NextHeader finds the next header at or after the given block. It skips over zero blocks (i.e. trailers and padding)
 // and unreadable blocks one by one, so that a header can directly follow any number of them. If there is
 // no header left, `io.EOF` is returned.
-func resync(drive io.ReadSeeker, block int64) (*tar.Reader, *tar.Header, int64, error) {
+func NextHeader(drive io.ReadSeeker, block int64) (*tar.Reader, *tar.Header, int64, error) {
 	buf := make([]byte, config.MagneticTapeBlockSize)
 
 	for ; ; block++ {
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index b3732ba..62ce602 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -15,6 +15,7 @@ import (
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/internal/suffix"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
@@ -65,7 +66,7 @@ func Index(
 			if err != nil {
 				// Skip over trailers, padding and unreadable blocks; this makes it possible to append to a tar file created by i.e. GNU tar
 				var nextBlock int64
-				tr, hdr, nextBlock, err = resync(reader.Drive, (record*int64(pipes.RecordSize))+block)
+				tr, hdr, nextBlock, err = tarext.NextHeader(reader.Drive, (record*int64(pipes.RecordSize))+block)
 				if err != nil {
 					if err == io.EOF {
 						// EOF
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index 867c48a..48e6ff6 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
+	"github.com/pojntfx/stfs/internal/tarext"
 	"github.com/pojntfx/stfs/pkg/config"
 	"github.com/pojntfx/stfs/pkg/encryption"
 	"github.com/pojntfx/stfs/pkg/signature"
@@ -43,7 +44,7 @@ func Query(
 			if err != nil {
 				// Skip over trailers, padding and unreadable blocks; this makes it possible to append to a tar file created by i.e. GNU tar
 				var nextBlock int64
-				tr, hdr, nextBlock, err = resync(reader.Drive, (record*int64(pipes.RecordSize))+block)
+				tr, hdr, nextBlock, err = tarext.NextHeader(reader.Drive, (record*int64(pipes.RecordSize))+block)
 				if err != nil {
 					if err == io.EOF {
 						// EOF
diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index 72d9894..a5527a4 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -23,6 +23,8 @@ type TapeManager struct {
 	closer func() error
 
 	overwrote bool
+
+	lastRecord int64 // Position of the last known record of a regular drive; protected by `physicalLock`
 }
 
 func NewTapeManager(
@@ -62,8 +64,18 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 
 	m.closer = writer.Close
 
+	if !writerIsRegular {
+		return config.DriveWriterConfig{
+			Drive:          writer,
+			DriveIsRegular: writerIsRegular,
+		}, nil
+	}
+
 	return config.DriveWriterConfig{
-		Drive:          writer,
+		Drive: &regularWriter{
+			file:    writer,
+			manager: m,
+		},
 		DriveIsRegular: writerIsRegular,
 	}, nil
 }
diff --git a/pkg/tape/writer.go b/pkg/tape/writer.go
new file mode 100644
index 0000000..ae02b55
--- /dev/null
+++ b/pkg/tape/writer.go
@@ -0,0 +1,151 @@
+package tape
+
+import (
+	"bytes"
+	"io"
+	"os"
+
+	"github.com/pojntfx/stfs/internal/tarext"
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// regularWriter appends to a regular file. If the last record in the file is incomplete (i.e. because writing it has been interrupted),
+// it completes it before appending to it, so that the appended records don't become part of it.
+type regularWriter struct {
+	file    *os.File
+	manager *TapeManager
+
+	completed bool
+}
+
+func (w *regularWriter) Write(p []byte) (n int, err error) {
+	if !w.completed {
+		if err := w.manager.completeLastRecord(w.file); err != nil {
+			return 0, err
+		}
+
+		w.completed = true
+	}
+
+	return w.file.Write(p)
+}
+
+func (w *regularWriter) Stat() (os.FileInfo, error) {
+	return w.file.Stat()
+}
+
+func (w *regularWriter) Truncate(size int64) error {
+	return w.file.Truncate(size)
+}
+
+// completeLastRecord appends the missing blocks of the last record
+func (m *TapeManager) completeLastRecord(writer *os.File) error {
+	stat, err := writer.Stat()
+	if err != nil {
+		return err
+	}
+
+	size := stat.Size()
+	if size < m.lastRecord {
+		m.lastRecord = 0
+	}
+
+	reader, err := os.Open(m.drive)
+	if err != nil {
+		return err
+	}
+	defer reader.Close()
+
+	end := blockAligned(size)
+	if size != end {
+		block := make([]byte, config.MagneticTapeBlockSize)
+
+		n := config.MagneticTapeBlockSize - int(end-size)
+		if _, err := reader.ReadAt(block[:n], size-int64(n)); err != nil {
+			return err
+		}
+
+		// Prevent an incomplete header from becoming a valid one
+		if !bytes.Equal(block, make([]byte, len(block))) {
+			copy(block[n:], bytes.Repeat([]byte{0xff}, len(block)-n))
+		}
+
+		if _, err := writer.Write(block[n:]); err != nil {
+			return err
+		}
+	}
+
+	trailer := make([]byte, config.MagneticTapeBlockSize*2)
+
+	incomplete := end > 0 && end < int64(len(trailer))
+	for block := m.lastRecord / config.MagneticTapeBlockSize; ; {
+		tr, hdr, headerBlock, err := tarext.NextHeader(reader, block)
+		if err == io.EOF {
+			break
+		}
+		if err != nil {
+			return err
+		}
+
+		content, err := reader.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+
+		m.lastRecord = headerBlock * config.MagneticTapeBlockSize
+
+		if _, err := io.Copy(io.Discard, tr); err != nil {
+			if err != io.ErrUnexpectedEOF {
+				return err
+			}
+
+			if contentEnd := blockAligned(content + hdr.Size); contentEnd > end {
+				if err := fillWithZeros(writer, contentEnd-end); err != nil {
+					return err
+				}
+			}
+
+			incomplete = true
+
+			break
+		}
+
+		curr, err := reader.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+
+		block = blockAligned(curr) / config.MagneticTapeBlockSize
+	}
+
+	if !incomplete && end > 0 {
+		if _, err := reader.ReadAt(trailer, end-int64(len(trailer))); err != nil {
+			return err
+		}
+	}
+
+	if !incomplete && bytes.Equal(trailer, make([]byte, len(trailer))) {
+		return nil
+	}
+
+	// Prevent extended headers without a record from being applied to the appended records
+	return fillWithZeros(writer, int64(len(trailer)))
+}
+
+func blockAligned(size int64) int64 {
+	return (size + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize * config.MagneticTapeBlockSize
+}
+
+func fillWithZeros(w io.Writer, size int64) error {
+	_, err := io.CopyN(w, zeroReader{}, size)
+
+	return err
+}
+
+type zeroReader struct{}
+
+func (zeroReader) Read(p []byte) (int, error) {
+	clear(p)
+
+	return len(p), nil
+}
-- 
2.43.0


From 5673e792d2cf31c6f78aa15086a5335d7b4561b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 35/64] fix: don't resolve the root as a symlink

---
 pkg/persisters/metadata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index c59d113..9729f52 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -244,6 +244,7 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Linkname+" = ?", linkname),
+		qm.Where(models.HeaderColumns.Linkname+" != ?", ""), // The root might be an empty string, but headers without a linkname are no links
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
-- 
2.43.0


From ba46b593bef5e58fda3caefd008851984a167695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 36/64] fix: keep an absolute root when rebuilding the index

---
 pkg/persisters/metadata.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 9729f52..71e7641 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -104,6 +104,13 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 
 	hdr := *idbhdr
 	if !initializing {
+		// If there is no root yet, keep an absolute one
+		if p.root == "" && hdr.Name == "/" {
+			if _, err := p.GetRootPath(ctx); err == config.ErrNoRootDirectory {
+				p.root = hdr.Name
+			}
+		}
+
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 	}
 
-- 
2.43.0


From 998edeff572aebd84621b5944df819fe9445e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 37/64] fix: list symlinks with their own attributes or those
 of their target

---
 pkg/persisters/metadata.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 71e7641..433d6fc 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -320,9 +320,11 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 
 	getHeaders := func(prefix string, useLinkname bool) ([]*config.Header, error) {
 		pk := models.HeaderColumns.Name
+		other := models.HeaderColumns.Linkname
 		exclude := fmt.Sprintf(`%v = ""`, models.HeaderColumns.Linkname)
 		if useLinkname {
 			pk = models.HeaderColumns.Linkname
+			other = models.HeaderColumns.Name
 			exclude = "1" // No need to exclude anything
 		}
 		headers := []*config.Header{}
@@ -349,7 +351,7 @@ where substr(%v, 1, length(?)) = ?
 			models.HeaderColumns.Deleted,
 			models.HeaderColumns.Typeflag,
 			pk,
-			exclude,
+			other,
 			models.HeaderColumns.Size,
 			models.HeaderColumns.Mode,
 			models.HeaderColumns.UID,
-- 
2.43.0


From 9a96e99236f60e3e867c72378c028e3ca27401ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 38/64] fix: refuse to update entries which don't exist

---
 pkg/operations/update.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 058bff6..318383b 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -2,6 +2,8 @@ package operations
 
 import (
 	"archive/tar"
+	"context"
+	"database/sql"
 	"io"
 	"strconv"
 	"strings"
@@ -68,6 +70,18 @@ func (o *Operations) Update(
 		}
 
 		hdr.Name = file.Path
+
+		// Entries which don't exist can't be updated; their records would never be part of the index
+		if _, err := o.metadata.Metadata.GetHeader(context.Background(), hdr.Name); err != nil {
+			if err != sql.ErrNoRows {
+				return []*tar.Header{}, err
+			}
+
+			if _, err := o.metadata.Metadata.GetHeaderByLinkname(context.Background(), hdr.Name); err != nil {
+				return []*tar.Header{}, err
+			}
+		}
+
 		hdr.Format = tar.FormatPAX
 		if hdr.PAXRecords == nil {
 			hdr.PAXRecords = map[string]string{}
-- 
2.43.0


From 953e57f0c0bf5bbd0a70d132dd95856f8d7e1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 39/64] fix: copy content in the same chunks when measuring and
 writing it

---
 internal/ioext/copy.go    | 46 +++++++++++++++++++++++++++++++++++++++
 pkg/operations/archive.go |  8 +++----
 pkg/operations/update.go  |  8 +++----
 3 files changed, 54 insertions(+), 8 deletions(-)
 create mode 100644 internal/ioext/copy.go

diff --git a/internal/ioext/copy.go b/internal/ioext/copy.go
new file mode 100644
index 0000000..4669a19
--- /dev/null
+++ b/internal/ioext/copy.go
@@ -0,0 +1,46 @@
+package ioext
+
+import "io"
+
+const copyBufferSize = 32 * 1024
+
+// Copy copies from src to dst, see CopyBuffer.
+func Copy(dst io.Writer, src io.Reader) (written int64, err error) {
+	return CopyBuffer(dst, src, make([]byte, copyBufferSize))
+}
+
+// CopyBuffer copies from src to dst in chunks of exactly the buffer's size (except for the last one), no matter how src returns
+// its content. Since the size of the output of compressors and encryptors depends on these chunks, copying the same
+// content twice always leads to the same size.
+func CopyBuffer(dst io.Writer, src io.Reader, buf []byte) (written int64, err error) {
+	for {
+		n := 0
+		var readErr error
+		for n < len(buf) && readErr == nil {
+			var m int
+			m, readErr = src.Read(buf[n:])
+			n += m
+		}
+
+		if n > 0 {
+			m, err := dst.Write(buf[:n])
+			written += int64(m)
+
+			if err != nil {
+				return written, err
+			}
+
+			if m != n {
+				return written, io.ErrShortWrite
+			}
+		}
+
+		if readErr == io.EOF {
+			return written, nil
+		}
+
+		if readErr != nil {
+			return written, readErr
+		}
+	}
+}
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 6626f58..fa651db 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -119,12 +119,12 @@ func (o *Operations) archive(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
+				if _, err := ioext.Copy(compressor, signer); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+				if _, err := ioext.CopyBuffer(compressor, signer, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
@@ -223,12 +223,12 @@ func (o *Operations) archive(
 		}
 
 		if writer.DriveIsRegular {
-			if _, err := io.Copy(compressor, f); err != nil {
+			if _, err := ioext.Copy(compressor, f); err != nil {
 				return []*tar.Header{}, err
 			}
 		} else {
 			buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-			if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+			if _, err := ioext.CopyBuffer(compressor, f, buf); err != nil {
 				return []*tar.Header{}, err
 			}
 		}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 318383b..16466f1 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -123,12 +123,12 @@ func (o *Operations) Update(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
+				if _, err := ioext.Copy(compressor, signer); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
+				if _, err := ioext.CopyBuffer(compressor, signer, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
@@ -230,12 +230,12 @@ func (o *Operations) Update(
 			}
 
 			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
+				if _, err := ioext.Copy(compressor, f); err != nil {
 					return []*tar.Header{}, err
 				}
 			} else {
 				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
+				if _, err := ioext.CopyBuffer(compressor, f, buf); err != nil {
 					return []*tar.Header{}, err
 				}
 			}
-- 
2.43.0


From 6daafd7ea2adbabfa82d8319802005097a40f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:42 +0000
Subject: [PATCH 40/64] fix: don't read PGP messages again after their end

---
 internal/ioext/eof.go     | 26 ++++++++++++++++++++++++++
 pkg/encryption/decrypt.go |  4 +++-
 2 files changed, 29 insertions(+), 1 deletion(-)
 create mode 100644 internal/ioext/eof.go

diff --git a/internal/ioext/eof.go b/internal/ioext/eof.go
new file mode 100644
index 0000000..49c2393
--- /dev/null
+++ b/internal/ioext/eof.go
@@ -0,0 +1,26 @@
+package ioext
+
+import "io"
+
+// StickyEOFReader does not read from the underlying reader again once it has returned `io.EOF`
+type StickyEOFReader struct {
+	src io.Reader
+	eof bool
+}
+
+func NewStickyEOFReader(src io.Reader) *StickyEOFReader {
+	return &StickyEOFReader{src: src}
+}
+
+func (r *StickyEOFReader) Read(p []byte) (n int, err error) {
+	if r.eof {
+		return 0, io.EOF
+	}
+
+	n, err = r.src.Read(p)
+	if err == io.EOF {
+		r.eof = true
+	}
+
+	return n, err
+}
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index fcc6517..0a27255 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -9,6 +9,7 @@ import (
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -42,7 +43,8 @@ func Decrypt(
 			return nil, err
 		}
 
-		return io.NopCloser(r.UnverifiedBody), nil
+		// The integrity check fails if the body is read again after its end, which some decompressors do
+		return io.NopCloser(ioext.NewStickyEOFReader(r.UnverifiedBody)), nil
 	case config.NoneKey:
 		return io.NopCloser(src), nil
 	default:
-- 
2.43.0


From 26ef077a7abd0446b81eb5594248a9fac39a1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 41/64] fix: report missing content which decompressors take
 for empty

---
 internal/ioext/error.go | 39 +++++++++++++++++++++++++++++++++++++++
 pkg/recovery/fetch.go   | 10 +++++++++-
 2 files changed, 48 insertions(+), 1 deletion(-)
 create mode 100644 internal/ioext/error.go

diff --git a/internal/ioext/error.go b/internal/ioext/error.go
new file mode 100644
index 0000000..802533e
--- /dev/null
+++ b/internal/ioext/error.go
@@ -0,0 +1,39 @@
+package ioext
+
+import (
+	"io"
+	"sync"
+)
+
+// ErrorReader remembers the first error (other than `io.EOF`) which reading from the underlying reader led to, even if the
+// caller ignores it
+type ErrorReader struct {
+	src  io.Reader
+	lock sync.Mutex // Decompressors may read concurrently
+	err  error
+}
+
+func NewErrorReader(src io.Reader) *ErrorReader {
+	return &ErrorReader{src: src}
+}
+
+func (r *ErrorReader) Read(p []byte) (n int, err error) {
+	n, err = r.src.Read(p)
+	if err != nil && err != io.EOF {
+		r.lock.Lock()
+		defer r.lock.Unlock()
+
+		if r.err == nil {
+			r.err = err
+		}
+	}
+
+	return n, err
+}
+
+func (r *ErrorReader) Err() error {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	return r.err
+}
diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 841774f..530df06 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 
 	"github.com/pojntfx/stfs/internal/converters"
+	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/compression"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -107,7 +108,9 @@ func Fetch(
 			return dstFile.Close()
 		}
 
-		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
+		content := ioext.NewErrorReader(tr)
+
+		decryptor, err := encryption.Decrypt(content, pipes.Encryption, crypto.Identity)
 		if err != nil {
 			return err
 		}
@@ -133,6 +136,11 @@ func Fetch(
 			return err
 		}
 
+		// Some decompressors take a missing content for an empty one
+		if err := content.Err(); err != nil {
+			return err
+		}
+
 		if err := verify(); err != nil {
 			return err
 		}
-- 
2.43.0


From 7e032860b411ed79f8f24ff1215f009ead713b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 42/64] fix: don't take missing records or content for the end
 of an entry

---
 pkg/recovery/fetch.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 530df06..442f071 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -32,7 +32,14 @@ func Fetch(
 	preview bool,
 
 	onHeader func(hdr *config.Header),
-) error {
+) (err error) {
+	// A missing record or content isn't the end of the entry
+	defer func() {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	to = filepath.ToSlash(to)
 
 	var tr *tar.Reader
-- 
2.43.0


From dea3e4676e7333bb501afa4ed04e7d90411b9e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:07 +0000
Subject: [PATCH 43/64] fix: don't accept the signature of a content as the one
 of a header

---
 pkg/signature/sign.go   |  4 ++++
 pkg/signature/verify.go | 41 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 6aa2e65..ace300c 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -14,6 +14,9 @@ import (
 	"github.com/pojntfx/stfs/pkg/config"
 )
 
+// contentNotation marks the PGP signatures of contents, so that they can't be used as signatures of headers
+const contentNotation = "content@stfs"
+
 func Sign(
 	src io.Reader,
 	isRegular bool,
@@ -61,6 +64,7 @@ func Sign(
 		sigLifetimeSecs := c.SigLifetime()
 		sig.SigLifetimeSecs = &sigLifetimeSecs
 		sig.IssuerKeyId = &signingKey.PrivateKey.KeyId
+		sig.Notations = []*packet.Notation{{Name: contentNotation, IsHumanReadable: true}}
 
 		hash := sig.Hash.New()
 
diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 0c37ce1..9ed7514 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -112,6 +112,11 @@ func VerifyHeader(
 		return config.ErrSignatureMissing
 	}
 
+	// A content which is a header hasn't been signed as one
+	if isContentSignature(signature, signatureFormat) {
+		return config.ErrSignatureInvalid
+	}
+
 	if err := VerifyString(embeddedHeader, isRegular, signatureFormat, recipient, signature); err != nil {
 		return err
 	}
@@ -126,6 +131,42 @@ func VerifyHeader(
 	return nil
 }
 
+func isContentSignature(signature string, signatureFormat string) bool {
+	decodedSignature, err := base64.StdEncoding.DecodeString(signature)
+	if err != nil {
+		return false
+	}
+
+	switch signatureFormat {
+	case config.SignatureFormatMinisignKey:
+		// Contents are always pre-hashed, headers never
+		var sig minisign.Signature
+		if err := sig.UnmarshalText(decodedSignature); err != nil {
+			return false
+		}
+
+		return sig.Algorithm == minisign.HashEdDSA
+	case config.SignatureFormatPGPKey:
+		pkt, err := packet.NewReader(bytes.NewBuffer(decodedSignature)).Next()
+		if err != nil {
+			return false
+		}
+
+		sig, ok := pkt.(*packet.Signature)
+		if !ok {
+			return false
+		}
+
+		for _, notation := range sig.Notations {
+			if notation.Name == contentNotation {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
 func VerifyString(
 	src string,
 	isRegular bool,
-- 
2.43.0


From 5f6d5ed3a6b7127321e94346f33ae8c29986c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:49 +0000
Subject: [PATCH 44/64] fix: fail with a permission error when creating or
 truncating on open in a read-only filesystem

---
 pkg/fs/filesystem.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index f4b435d..53aa830 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -520,6 +520,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 	flags := &FileFlags{}
 	if f.readOnly {
+		// Prevent truncating existing content
+		if flag&os.O_TRUNC != 0 && (flag&O_ACCMODE) != os.O_RDONLY {
+			return nil, os.ErrPermission
+		}
+
 		if (flag&O_ACCMODE) == os.O_RDONLY || (flag&O_ACCMODE) == os.O_RDWR {
 			flags.Read = true
 		}
@@ -567,7 +572,11 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 {
+				if flag&os.O_CREATE != 0 {
+					if f.readOnly {
+						return os.ErrPermission
+					}
+
 					if parent, err := inventory.Stat(
 						f.metadata,
 
-- 
2.43.0


From 793ca048ef56e935e4948a026bc34c2be6d82e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 45/64] fix: delete and move entries of archives which have
 been written in the USTAR or GNU format

---
 pkg/operations/delete.go | 3 ++-
 pkg/operations/move.go   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 86217b8..df482f1 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -77,7 +77,8 @@ func (o *Operations) Delete(name string) error {
 			return err
 		}
 
-		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Size = 0               // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX // The header might have been written in another format, which doesn't support the records
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 130a026..3312dc3 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -99,7 +99,8 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 
-		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Size = 0               // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX // The header might have been written in another format, which doesn't support the records
 		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(strings.TrimSuffix(prefix, "/"), "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-- 
2.43.0


From 55abd12ade1d04405f13df380a38f7e975e37bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 46/64] fix: find directories of archives with an absolute root
 by relative paths

---
 pkg/persisters/metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 433d6fc..856f03b 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -541,6 +541,11 @@ func (p *MetadataPersister) headerExistsExact(ctx context.Context, name string)
 }
 
 func (p *MetadataPersister) getSanitizedPath(ctx context.Context, name string) string {
+	// Directories might have been archived with a trailing slash
+	if strings.HasPrefix(name, "/") {
+		name = "/" + strings.Trim(name, "/")
+	}
+
 	// If root is queried, return actual root
 	if pathext.IsRoot(name, false) || name == p.root {
 		return p.root
-- 
2.43.0


From 5ba053a0f9f025d4c05fd698b9498ef4402d87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:51 +0000
Subject: [PATCH 47/64] fix: don't create entries above the root when creating
 directories recursively

---
 pkg/fs/filesystem.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 53aa830..f800ca4 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -437,6 +437,11 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
+	root, err := f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil && err != config.ErrNoRootDirectory {
+		return err
+	}
+
 	parts := strings.Split(filepath.ToSlash(path), "/")
 	currentPath := ""
 
@@ -454,6 +459,11 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 			currentPath = filepath.Join(currentPath, part)
 		}
 
+		// There are no entries above the root
+		if strings.HasPrefix(root, strings.TrimSuffix(currentPath, "/")+"/") && root != currentPath {
+			continue
+		}
+
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
-- 
2.43.0


From bcc5d503e27669ce196099e4c6fa80a18dd200c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 48/64] fix: find the root of archives of which the root is not
 the first entry

---
 pkg/persisters/metadata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 856f03b..1bdd05d 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -80,14 +80,15 @@ func (p *MetadataPersister) GetRootPath(ctx context.Context) (string, error) {
 
 	if err := queries.Raw(
 		fmt.Sprintf(
-			`select min(length(%v) - length(replace(%v, "/", ""))) as depth, name from %v where %v != 1`,
+			`select length(%v) - length(replace(%v, "/", "")) as depth, name from %v where %v != 1 order by depth, length(%v) limit 1`, // The root might not be the first entry
 			models.HeaderColumns.Name,
 			models.HeaderColumns.Name,
 			models.TableNames.Headers,
 			models.HeaderColumns.Deleted,
+			models.HeaderColumns.Name,
 		),
 	).Bind(ctx, p.sqlite.DB, &root); err != nil {
-		if strings.Contains(err.Error(), "converting NULL to string is unsupported") {
+		if err == sql.ErrNoRows {
 			return "", config.ErrNoRootDirectory
 		}
 
-- 
2.43.0


From 4bb79a9291f7247bd5bdccabbe51ddc8a66b2ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 49/64] fix: find an absolute root of archives of which the
 root is not the first entry

---
 pkg/persisters/metadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 1bdd05d..69c25c3 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -112,6 +112,11 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 			}
 		}
 
+		// An entry above an absolute root is the actual root
+		if name := strings.TrimSuffix(hdr.Name, "/"); strings.HasPrefix(hdr.Name, "/") && strings.HasPrefix(p.root, name+"/") && p.root != "/" {
+			p.root = "/" + strings.TrimPrefix(name, "/")
+		}
+
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
 	}
 
-- 
2.43.0


From e5a0759bc3d221ef59d7403b4201273f927335af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 50/64] fix: remember the root which an index has been
 initialized with

---
 pkg/persisters/metadata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 69c25c3..1cdf97d 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -118,6 +118,10 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 		}
 
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+	} else {
+		// The entry which we are initializing with is the root
+		p.root = hdr.Name
+		p.rootIsEmptyString = hdr.Name == ""
 	}
 
 	if _, err := models.Headers(
-- 
2.43.0


From 5a5ae2686040b33cf5e2de7bedb9fb09898ab08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 51/64] fix: delete links instead of their targets

---
 pkg/persisters/metadata.go |  1 +
 pkg/recovery/index.go      | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 1cdf97d..2b72891 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -483,6 +483,7 @@ func (p *MetadataPersister) DeleteHeader(ctx context.Context, name string, lastk
 
 	hdr, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", name),
+		qm.Where(models.HeaderColumns.Linkname+" = ?", ""), // Links share the name of their target
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).One(ctx, p.sqlite.DB)
 	if err != nil {
diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 62ce602..16fc777 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -283,6 +283,21 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
+			// Links share the name of their target, so select them by their linkname, too
+			if hdr.Linkname != "" {
+				dbhdr, err := converters.TarHeaderToDBHeader(record, record, block, block, hdr)
+				if err != nil {
+					return err
+				}
+				dbhdr.Deleted = 1
+
+				if err := metadataPersister.UpdateHeaderMetadata(context.Background(), converters.DBHeaderToConfigHeader(dbhdr)); err != nil {
+					return err
+				}
+
+				break
+			}
+
 			// To support replaying previous `Delete` operations, we need to ignore non-existent headers here
 			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
-- 
2.43.0


From f6d30683e07a08935c63d7ee157ec5e219a6cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 52/64] fix: move and delete links by their own path instead of
 the one of their target

---
 pkg/operations/delete.go     |  3 +-
 pkg/operations/move.go       | 63 ++++++++++++++++++++++++++++++------
 pkg/operations/operations.go | 48 +++++++++++++++++++++++++++
 3 files changed, 104 insertions(+), 10 deletions(-)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index df482f1..820b519 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -61,12 +61,13 @@ func (o *Operations) Delete(name string) error {
 
 	// If the header refers to a directory, get it's children
 	if dbhdr.Typeflag == tar.TypeDir && dbhdr.Linkname == "" {
-		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), name)
+		dbhdrs, links, err := o.getDescendants(name, dbhdr)
 		if err != nil {
 			return err
 		}
 
 		headersToDelete = append(headersToDelete, dbhdrs...)
+		headersToDelete = append(headersToDelete, links...)
 	}
 
 	// Append deletion hdrs to the tape or tar file
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3312dc3..a11d638 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -48,10 +48,14 @@ func (o *Operations) Move(from string, to string) error {
 	}
 
 	headersToMove := []*config.Header{}
+	linksToMove := []*config.Header{}
 	dbhdr, err := o.metadata.Metadata.GetHeader(context.Background(), from)
 	if err != nil {
 		if err == sql.ErrNoRows {
 			dbhdr, err = o.metadata.Metadata.GetHeaderByLinkname(context.Background(), from)
+			if err == nil {
+				linksToMove = append(linksToMove, dbhdr)
+			}
 			if err == sql.ErrNoRows {
 				// Directories in foreign archives can have trailing slashes
 				dbhdr, err = o.metadata.Metadata.GetHeader(context.Background(), strings.TrimSuffix(from, "/")+"/")
@@ -63,7 +67,9 @@ func (o *Operations) Move(from string, to string) error {
 			return err
 		}
 	}
-	headersToMove = append(headersToMove, dbhdr)
+	if len(linksToMove) == 0 {
+		headersToMove = append(headersToMove, dbhdr)
+	}
 
 	// Prevent moving from relative to absolute path
 	if path.IsAbs(to) && !path.IsAbs(dbhdr.Name) {
@@ -77,22 +83,28 @@ func (o *Operations) Move(from string, to string) error {
 
 	// If the header refers to a directory, get it's children
 	if dbhdr.Typeflag == tar.TypeDir {
-		dbhdrs, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), from)
+		dbhdrs, links, err := o.getDescendants(from, dbhdr)
 		if err != nil {
 			return err
 		}
 
 		headersToMove = append(headersToMove, dbhdrs...)
+		linksToMove = append(linksToMove, links...)
 	}
 
-	// Use the stored spelling of the source as the prefix unless the source is a link
-	prefix := from
-	if dbhdr.Linkname == "" {
-		prefix = dbhdr.Name
+	// Use the stored spelling of the source as the prefix
+	prefix := dbhdr.Name
+	if len(linksToMove) > 0 && linksToMove[0] == dbhdr {
+		prefix = dbhdr.Linkname
 	}
 
-	// Append move headers to the tape or tar file
-	hdrs := []tar.Header{}
+	getNewName := func(name string) string {
+		return path.Join(to, strings.TrimPrefix(strings.TrimPrefix(name, "/"), strings.TrimPrefix(strings.TrimSuffix(prefix, "/"), "/")))
+	}
+
+	// Create move headers
+	movedNames := map[string]string{}
+	newHdrs := []*tar.Header{}
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -101,11 +113,44 @@ func (o *Operations) Move(from string, to string) error {
 
 		hdr.Size = 0               // Don't try to seek after the record
 		hdr.Format = tar.FormatPAX // The header might have been written in another format, which doesn't support the records
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(strings.TrimSuffix(prefix, "/"), "/")))
+		hdr.Name = getNewName(dbhdr.Name)
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
 
+		movedNames[dbhdr.Name] = hdr.Name
+		newHdrs = append(newHdrs, hdr)
+	}
+
+	// Links have the name of their target, so create them at their new path and delete them from their old one
+	for _, dbhdr := range linksToMove {
+		for _, action := range []string{records.STFSRecordActionCreate, records.STFSRecordActionDelete} {
+			hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
+			if err != nil {
+				return err
+			}
+
+			hdr.Size = 0               // Don't try to seek after the record
+			hdr.Format = tar.FormatPAX // The header might have been written in another format, which doesn't support the records
+			hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
+			hdr.PAXRecords[records.STFSRecordAction] = action
+
+			// The target might have been moved, too
+			if movedName, ok := movedNames[hdr.Name]; ok {
+				hdr.Name = movedName
+			}
+
+			if action == records.STFSRecordActionCreate {
+				hdr.Linkname = getNewName(hdr.Linkname)
+			}
+
+			newHdrs = append(newHdrs, hdr)
+		}
+	}
+
+	// Append move headers to the tape or tar file
+	hdrs := []tar.Header{}
+	for _, hdr := range newHdrs {
 		hdrs = append(hdrs, *hdr)
 
 		if o.onHeader != nil {
diff --git a/pkg/operations/operations.go b/pkg/operations/operations.go
index 6250472..0ae6ab0 100644
--- a/pkg/operations/operations.go
+++ b/pkg/operations/operations.go
@@ -1,8 +1,11 @@
 package operations
 
 import (
+	"archive/tar"
 	"context"
 	"os"
+	"path"
+	"strings"
 	"sync"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -97,6 +100,51 @@ func (o *Operations) guardWriter(writer config.DriveWriterConfig) (closeWriter f
 	return closeWriter, releaseWriter, oldSize
 }
 
+// getDescendants returns the headers and links below a directory. Links have the name of their target and
+// their own path as the linkname, so they are below the directory if the latter is.
+func (o *Operations) getDescendants(name string, dir *config.Header) (descendants []*config.Header, links []*config.Header, err error) {
+	children, err := o.metadata.Metadata.GetHeaderChildren(context.Background(), name)
+	if err != nil {
+		return nil, nil, err
+	}
+
+	hdrs, err := o.metadata.Metadata.GetHeaders(context.Background())
+	if err != nil {
+		return nil, nil, err
+	}
+
+	dirs := map[string]bool{}
+	for _, hdr := range hdrs {
+		if hdr.Typeflag == tar.TypeDir {
+			dirs[path.Clean(hdr.Name)] = true
+		}
+	}
+
+	// Links from other archives have their own path as the name instead
+	isPlaced := func(hdr *config.Header) bool {
+		return hdr.Linkname != "" && path.IsAbs(hdr.Linkname) == path.IsAbs(hdr.Name) && dirs[path.Dir(hdr.Linkname)]
+	}
+
+	prefix := strings.TrimSuffix(dir.Name, "/") + "/"
+	if dir.Name == "" || dir.Name == "." {
+		prefix = ""
+	}
+
+	for _, hdr := range children {
+		if !isPlaced(hdr) {
+			descendants = append(descendants, hdr)
+		}
+	}
+
+	for _, hdr := range hdrs {
+		if isPlaced(hdr) && strings.HasPrefix(hdr.Linkname, prefix) {
+			links = append(links, hdr)
+		}
+	}
+
+	return descendants, links, nil
+}
+
 // getIndexStart returns the position at which to start indexing the records which are about to be appended,
 // and the number of already indexed headers to skip from there
 func (o *Operations) getIndexStart(oldSize int64, overwrite bool) (record int, block int, offset int, err error) {
-- 
2.43.0


From d0f16a4da410b09eea713eadac0303a2538bc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 53/64] fix: create directories in the target of links in
 MkdirAll

---
 pkg/fs/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index f800ca4..fc1f20b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -490,6 +490,9 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 					}
 				} else if hdr.Typeflag != tar.TypeDir {
 					return config.ErrIsFile
+				} else {
+					// Continue in the link's target
+					currentPath = hdr.Linkname
 				}
 			} else {
 				return err
-- 
2.43.0


From eee3125b829f62dc3cf269431c694047a364417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 54/64] fix: create and open the target when opening a link
 with O_CREATE

---
 pkg/fs/filesystem.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index fc1f20b..54dc150 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -584,7 +584,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 				f.onHeader,
 			)
 
-			createFile := func() error {
+			createFile := func(name string) error {
 				if flag&os.O_CREATE != 0 {
 					if f.readOnly {
 						return os.ErrPermission
@@ -618,6 +618,8 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 						if target.Typeflag == tar.TypeDir {
 							return config.ErrIsDirectory
 						}
+
+						return os.ErrNotExist
 					}
 
 					if err := f.mknodeWithoutLocking(false, name, perm, false, "", false); err != nil {
@@ -650,38 +652,32 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 			if err != nil {
 				if err == sql.ErrNoRows {
-					if err := createFile(); err != nil {
+					if err := createFile(name); err != nil {
 						return nil, err
 					}
 				} else {
 					return nil, err
 				}
 			} else {
+				// A link is an existing entry, even if it is broken
+				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+					return nil, os.ErrExist
+				}
+
 				linkname := hdr.Name
+				target := hdr.Linkname
 
 				hdr, err = inventory.Stat(
 					f.metadata,
 
-					hdr.Linkname,
+					target,
 					false,
 
 					f.onHeader,
 				)
-
-				if err == nil && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					hdr, err = inventory.Stat(
-						f.metadata,
-
-						hdr.Linkname,
-						true,
-
-						f.onHeader,
-					)
-				}
-
 				if err != nil {
 					if err == sql.ErrNoRows {
-						if err := createFile(); err != nil {
+						if err := createFile(target); err != nil {
 							return nil, err
 						}
 					} else {
-- 
2.43.0


From 72a14601e3cbb1747fa60f2ec8ec9a5704c1bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 55/64] fix: replace links when renaming to them

---
 pkg/fs/filesystem.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 54dc150..1b5796b 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -931,6 +931,19 @@ func (f *STFS) Rename(oldname, newname string) error {
 			return os.ErrExist
 		}
 
+		if err := f.removeWithoutLocking(newname); err != nil {
+			return err
+		}
+	} else if link, err := f.metadata.Metadata.GetHeaderByLinkname(context.Background(), newname); err == nil {
+		// Renaming a link to itself is a no-op
+		if link.Name == source.Linkname && link.Linkname == source.Name {
+			return nil
+		}
+
+		if source.Typeflag == tar.TypeDir && source.Linkname == "" {
+			return os.ErrExist
+		}
+
 		if err := f.removeWithoutLocking(newname); err != nil {
 			return err
 		}
-- 
2.43.0


From f3649f370b63c4c9c8a5de3a66a5d7557fe0b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 56/64] fix: refuse to create a link in place of another link

---
 pkg/fs/filesystem.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 1b5796b..bf93311 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1349,6 +1349,12 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		); err == nil {
 			return os.ErrExist
 		}
+
+		if _, err := f.metadata.Metadata.GetHeaderByLinkname(context.Background(), newname); err == nil {
+			return os.ErrExist
+		} else if err != sql.ErrNoRows {
+			return err
+		}
 	}
 
 	return f.mknodeWithoutLocking(false, oldname, os.ModePerm, false, newname, false)
-- 
2.43.0


From ff9a1e8bfd1c7b67188c2f0ecb6d18e060245d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 57/64] fix: keep the setuid, setgid and sticky bits of Chmod
 as those of a tar header

---
 pkg/fs/filesystem.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index bf93311..15037e6 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -1026,6 +1026,22 @@ func (f *STFS) updateMetadata(hdr *tar.Header) error {
 	return nil
 }
 
+// toTarMode converts the bits of a mode which can be changed to a tar header's
+func toTarMode(mode os.FileMode) int64 {
+	tarMode := int64(mode.Perm())
+	if mode&os.ModeSetuid != 0 {
+		tarMode |= 0o4000
+	}
+	if mode&os.ModeSetgid != 0 {
+		tarMode |= 0o2000
+	}
+	if mode&os.ModeSticky != 0 {
+		tarMode |= 0o1000
+	}
+
+	return tarMode
+}
+
 func (f *STFS) Chmod(name string, mode os.FileMode) error {
 	f.log.Debug("FileSystem.Chmod", map[string]interface{}{
 		"name": name,
@@ -1091,7 +1107,7 @@ func (f *STFS) Chmod(name string, mode os.FileMode) error {
 		}
 	}
 
-	hdr.Mode = int64(mode)
+	hdr.Mode = toTarMode(mode)
 
 	return f.updateMetadata(hdr)
 }
-- 
2.43.0


From d7e13743358ccbfe18b07c287be936dc57f4874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 58/64] fix: keep times in UTC, as not every time zone can be
 read back

---
 internal/converters/header.go | 13 ++++++++++---
 pkg/operations/archive.go     |  1 +
 pkg/operations/update.go      |  1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/converters/header.go b/internal/converters/header.go
index 3f72aef..30f675a 100644
--- a/internal/converters/header.go
+++ b/internal/converters/header.go
@@ -91,6 +91,13 @@ func DBHeaderToTarHeader(dbhdr *models.Header) (*tar.Header, error) {
 	return hdr, nil
 }
 
+// ToUTC drops the time zones of the times, as not all of them can be read back from the index or embedded headers
+func ToUTC(tarhdr *tar.Header) {
+	tarhdr.ModTime = tarhdr.ModTime.UTC()
+	tarhdr.AccessTime = tarhdr.AccessTime.UTC()
+	tarhdr.ChangeTime = tarhdr.ChangeTime.UTC()
+}
+
 func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, tarhdr *tar.Header) (*models.Header, error) {
 	paxRecords, err := json.Marshal(tarhdr.PAXRecords)
 	if err != nil {
@@ -111,9 +118,9 @@ func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, t
 		Gid:             int64(tarhdr.Gid),
 		Uname:           tarhdr.Uname,
 		Gname:           tarhdr.Gname,
-		Modtime:         tarhdr.ModTime,
-		Accesstime:      tarhdr.AccessTime,
-		Changetime:      tarhdr.ChangeTime,
+		Modtime:         tarhdr.ModTime.UTC(),
+		Accesstime:      tarhdr.AccessTime.UTC(),
+		Changetime:      tarhdr.ChangeTime.UTC(),
 		Devmajor:        tarhdr.Devmajor,
 		Devminor:        tarhdr.Devminor,
 		Paxrecords:      string(paxRecords),
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index fa651db..2814b72 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -84,6 +84,7 @@ func (o *Operations) archive(
 
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
+		converters.ToUTC(hdr)
 
 		var f io.ReadSeekCloser
 		if file.Info.Mode().IsRegular() && file.Info.Size() > 0 {
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 16466f1..437d537 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -83,6 +83,7 @@ func (o *Operations) Update(
 		}
 
 		hdr.Format = tar.FormatPAX
+		converters.ToUTC(hdr)
 		if hdr.PAXRecords == nil {
 			hdr.PAXRecords = map[string]string{}
 		}
-- 
2.43.0


From 35583cbe04122295c410fa61ab0ac0481d0e2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 59/64] fix: keep names which aren't valid UTF-8 in signed and
 encrypted headers

---
 internal/converters/header.go | 69 +++++++++++++++++++++++++++++++++++
 pkg/encryption/decrypt.go     |  8 ++--
 pkg/encryption/encrypt.go     |  4 +-
 pkg/signature/sign.go         |  4 +-
 pkg/signature/verify.go       |  8 ++--
 5 files changed, 81 insertions(+), 12 deletions(-)

diff --git a/internal/converters/header.go b/internal/converters/header.go
index 30f675a..de5803d 100644
--- a/internal/converters/header.go
+++ b/internal/converters/header.go
@@ -3,6 +3,7 @@ package converters
 import (
 	"archive/tar"
 	"encoding/json"
+	"unicode/utf8"
 
 	models "github.com/pojntfx/stfs/internal/db/sqlite/models/metadata"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -98,6 +99,74 @@ func ToUTC(tarhdr *tar.Header) {
 	tarhdr.ChangeTime = tarhdr.ChangeTime.UTC()
 }
 
+// embeddedHeader is a header as JSON, which replaces the bytes of strings which aren't valid UTF-8; such strings are kept as bytes, too
+type embeddedHeader struct {
+	*tar.Header
+
+	RawName     []byte `json:",omitempty"`
+	RawLinkname []byte `json:",omitempty"`
+	RawUname    []byte `json:",omitempty"`
+	RawGname    []byte `json:",omitempty"`
+
+	RawPAXRecords map[string][]byte `json:",omitempty"`
+}
+
+func rawString(s string) []byte {
+	if utf8.ValidString(s) {
+		return nil
+	}
+
+	return []byte(s)
+}
+
+func TarHeaderToEmbeddedHeader(tarhdr *tar.Header) ([]byte, error) {
+	hdr := &embeddedHeader{
+		Header: tarhdr,
+
+		RawName:     rawString(tarhdr.Name),
+		RawLinkname: rawString(tarhdr.Linkname),
+		RawUname:    rawString(tarhdr.Uname),
+		RawGname:    rawString(tarhdr.Gname),
+
+		RawPAXRecords: map[string][]byte{},
+	}
+	for key, value := range tarhdr.PAXRecords {
+		if raw := rawString(value); raw != nil {
+			hdr.RawPAXRecords[key] = raw
+		}
+	}
+
+	return json.Marshal(hdr)
+}
+
+func EmbeddedHeaderToTarHeader(embeddedhdr []byte) (*tar.Header, error) {
+	hdr := embeddedHeader{Header: &tar.Header{}}
+	if err := json.Unmarshal(embeddedhdr, &hdr); err != nil {
+		return nil, err
+	}
+
+	if hdr.RawName != nil {
+		hdr.Name = string(hdr.RawName)
+	}
+	if hdr.RawLinkname != nil {
+		hdr.Linkname = string(hdr.RawLinkname)
+	}
+	if hdr.RawUname != nil {
+		hdr.Uname = string(hdr.RawUname)
+	}
+	if hdr.RawGname != nil {
+		hdr.Gname = string(hdr.RawGname)
+	}
+	for key, raw := range hdr.RawPAXRecords {
+		if hdr.PAXRecords == nil {
+			hdr.PAXRecords = map[string]string{}
+		}
+		hdr.PAXRecords[key] = string(raw)
+	}
+
+	return hdr.Header, nil
+}
+
 func TarHeaderToDBHeader(record, lastKnownRecord, block, lastKnownBlock int64, tarhdr *tar.Header) (*models.Header, error) {
 	paxRecords, err := json.Marshal(tarhdr.PAXRecords)
 	if err != nil {
diff --git a/pkg/encryption/decrypt.go b/pkg/encryption/decrypt.go
index 0a27255..b8231b3 100644
--- a/pkg/encryption/decrypt.go
+++ b/pkg/encryption/decrypt.go
@@ -4,11 +4,11 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -75,12 +75,12 @@ func DecryptHeader(
 		return err
 	}
 
-	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	newHdr, err := converters.EmbeddedHeaderToTarHeader([]byte(embeddedHeader))
+	if err != nil {
 		return err
 	}
 
-	*hdr = newHdr
+	*hdr = *newHdr
 
 	return nil
 }
diff --git a/pkg/encryption/encrypt.go b/pkg/encryption/encrypt.go
index dca3a09..5347591 100644
--- a/pkg/encryption/encrypt.go
+++ b/pkg/encryption/encrypt.go
@@ -4,11 +4,11 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"filippo.io/age"
 	"github.com/ProtonMail/go-crypto/openpgp"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/ioext"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
@@ -56,7 +56,7 @@ func EncryptHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := converters.TarHeaderToEmbeddedHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index ace300c..5da1366 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -4,12 +4,12 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -105,7 +105,7 @@ func SignHeader(
 		PAXRecords: map[string]string{},
 	}
 
-	wrappedHeader, err := json.Marshal(hdr)
+	wrappedHeader, err := converters.TarHeaderToEmbeddedHeader(hdr)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 9ed7514..a5926f3 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -4,12 +4,12 @@ import (
 	"archive/tar"
 	"bytes"
 	"encoding/base64"
-	"encoding/json"
 	"io"
 
 	"aead.dev/minisign"
 	"github.com/ProtonMail/go-crypto/openpgp"
 	"github.com/ProtonMail/go-crypto/openpgp/packet"
+	"github.com/pojntfx/stfs/internal/converters"
 	"github.com/pojntfx/stfs/internal/records"
 	"github.com/pojntfx/stfs/pkg/config"
 )
@@ -121,12 +121,12 @@ func VerifyHeader(
 		return err
 	}
 
-	var newHdr tar.Header
-	if err := json.Unmarshal([]byte(embeddedHeader), &newHdr); err != nil {
+	newHdr, err := converters.EmbeddedHeaderToTarHeader([]byte(embeddedHeader))
+	if err != nil {
 		return err
 	}
 
-	*hdr = newHdr
+	*hdr = *newHdr
 
 	return nil
 }
-- 
2.43.0


From 0a6e194d1ccbd226dbbf4096a8c8192dcfe26b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 60/64] fix: let open files follow their entries when these are
 moved or removed

---
 pkg/fs/file.go       | 11 ++++++
 pkg/fs/filesystem.go | 80 ++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 85 insertions(+), 6 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index de115a0..77ed399 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -46,6 +46,9 @@ type File struct {
 
 	ioLock *sync.Mutex
 
+	detached bool // The entry has been removed since opening it
+	onClose  func()
+
 	pos int64 // Cursor in read mode; in write mode, the write buffer has its own
 
 	readBuf      cache.WriteCache
@@ -116,6 +119,10 @@ func (f *File) syncWithoutLocking() error {
 		return config.ErrIsDirectory
 	}
 
+	if f.detached {
+		return nil
+	}
+
 	if f.writeBuf != nil {
 		// Use the current attributes, which might have changed since opening the file
 		hdr, err := inventory.Stat(
@@ -223,6 +230,10 @@ func (f *File) closeWithoutLocking() error {
 
 	f.pos = 0
 
+	if f.onClose != nil {
+		f.onClose()
+	}
+
 	return nil
 }
 
diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 15037e6..b1e7381 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -40,6 +40,8 @@ type STFS struct {
 
 	ioLock sync.Mutex
 
+	openFiles map[*File]struct{} // Protected by ioLock
+
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
 }
@@ -69,6 +71,8 @@ func NewSTFS(
 		readOnly:                 readOnly,
 		writePermImpliesReadPerm: writePermImpliesReadPerm,
 
+		openFiles: map[*File]struct{}{},
+
 		onHeader: onHeader,
 		log:      log,
 	}
@@ -730,9 +734,32 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	f.openFiles[file] = struct{}{}
+	file.onClose = func() {
+		delete(f.openFiles, file)
+	}
+
 	return file, nil
 }
 
+// detachOpenFiles keeps the open files at or below a removed entry from replacing the content of what takes its place
+func (f *STFS) detachOpenFiles(name string) {
+	for file := range f.openFiles {
+		if file.path == name || strings.HasPrefix(file.path, strings.TrimSuffix(name, "/")+"/") {
+			file.detached = true
+		}
+	}
+}
+
+// moveOpenFiles lets the open files at or below a moved entry follow it
+func (f *STFS) moveOpenFiles(oldname, newname string) {
+	for file := range f.openFiles {
+		if !file.detached && (file.path == oldname || strings.HasPrefix(file.path, strings.TrimSuffix(oldname, "/")+"/")) {
+			file.path = newname + strings.TrimPrefix(file.path, oldname)
+		}
+	}
+}
+
 func (f *STFS) Remove(name string) error {
 	f.log.Debug("FileSystem.Remove", map[string]interface{}{
 		"name": name,
@@ -807,7 +834,15 @@ func (f *STFS) removeWithoutLocking(name string) error {
 		}
 	}
 
-	return f.writeOps.Delete(name)
+	if err := f.writeOps.Delete(name); err != nil {
+		return err
+	}
+
+	if hdr.Linkname == "" {
+		f.detachOpenFiles(hdr.Name)
+	}
+
+	return nil
 }
 
 func (f *STFS) RemoveAll(path string) error {
@@ -824,12 +859,28 @@ func (f *STFS) RemoveAll(path string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	err := f.writeOps.Delete(path)
-	if errors.Is(err, sql.ErrNoRows) {
-		return nil
+	hdr, statErr := inventory.Stat(
+		f.metadata,
+
+		path,
+		false,
+
+		f.onHeader,
+	)
+
+	if err := f.writeOps.Delete(path); err != nil {
+		if errors.Is(err, sql.ErrNoRows) {
+			return nil
+		}
+
+		return err
+	}
+
+	if statErr == nil {
+		f.detachOpenFiles(hdr.Name)
 	}
 
-	return err
+	return nil
 }
 
 func (f *STFS) Rename(oldname, newname string) error {
@@ -949,7 +1000,24 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	return f.writeOps.Move(oldname, newname)
+	if err := f.writeOps.Move(oldname, newname); err != nil {
+		return err
+	}
+
+	if source.Linkname == "" {
+		if moved, err := inventory.Stat(
+			f.metadata,
+
+			newname,
+			false,
+
+			f.onHeader,
+		); err == nil {
+			f.moveOpenFiles(source.Name, moved.Name)
+		}
+	}
+
+	return nil
 }
 
 func (f *STFS) Stat(name string) (os.FileInfo, error) {
-- 
2.43.0


From 9c443765ee028eb9373859cbd019718854c3e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 61/64] fix: restore directories to the destination itself

Restoring a directory to a destination also created a directory with its own
name in there, which fails if it has got a child of the same name; the
destination of the directory also depended on whether it has been given with a
trailing slash.
---
 pkg/operations/restore.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/operations/restore.go b/pkg/operations/restore.go
index 65c8ebd..84a9afa 100644
--- a/pkg/operations/restore.go
+++ b/pkg/operations/restore.go
@@ -74,9 +74,10 @@ func (o *Operations) Restore(
 			if flatten {
 				dst = to
 			} else {
-				dst = filepath.Join(to, strings.TrimPrefix(dst, from))
+				dst = filepath.Join(to, strings.TrimPrefix(dst, strings.TrimSuffix(from, "/")))
 
-				if strings.TrimSuffix(dst, "/") == strings.TrimSuffix(to, "/") {
+				// Directories are restored to the destination itself, next to which there may be a child of the same name
+				if dbhdr.Typeflag != tar.TypeDir && strings.TrimSuffix(dst, "/") == strings.TrimSuffix(to, "/") {
 					dst = filepath.Join(dst, path.Base(dbhdr.Name)) // Append the name so we don't overwrite
 				}
 			}
-- 
2.43.0


From 05229ea14c157225417b4fae86a29901e47d4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 62/64] fix: restore directories before the entries in them

---
 pkg/operations/restore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/operations/restore.go b/pkg/operations/restore.go
index 84a9afa..957343f 100644
--- a/pkg/operations/restore.go
+++ b/pkg/operations/restore.go
@@ -8,6 +8,7 @@ import (
 	"io/fs"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/pojntfx/stfs/pkg/config"
@@ -52,6 +53,11 @@ func (o *Operations) Restore(
 		}
 
 		headersToRestore = append(headersToRestore, dbhdrs...)
+
+		// Entries can be older than the directory they are in, i.e. after they have been moved
+		sort.SliceStable(headersToRestore, func(i, j int) bool {
+			return headersToRestore[i].Typeflag == tar.TypeDir && headersToRestore[j].Typeflag != tar.TypeDir
+		})
 	}
 
 	reader, err := o.backend.GetReader()
-- 
2.43.0


From 28e3d93e9ac7969f8ceb40ceaf91ff89952155a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 63/64] fix: catch up with tapes in drives when initializing

---
 pkg/fs/filesystem.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index b1e7381..e34f3a8 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -2,6 +2,7 @@ package fs
 
 import (
 	"archive/tar"
+	"bufio"
 	"context"
 	"database/sql"
 	"errors"
@@ -222,7 +223,8 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == nil {
+	indexed := err == nil
+	if indexed {
 		if f.readOnly {
 			return existingRoot, nil
 		}
@@ -270,7 +272,7 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	found := false
 	if err := f.indexWithoutLocking(reader, 0, 0, true, 0, func() { found = true }); err != nil {
 		// New tapes might not be readable yet
-		if !reader.DriveIsRegular && !found {
+		if !reader.DriveIsRegular && !found && !indexed {
 			return mkdirRoot(true)
 		}
 
@@ -342,22 +344,34 @@ func (f *STFS) updateIndexWithoutLocking() (outdated bool, err error) {
 	}
 	defer f.readOps.GetBackend().CloseReader()
 
-	// Finding the end of a tape can take a very long time
-	if !reader.DriveIsRegular {
-		return false, nil
-	}
-
 	lastIndexedRecord, lastIndexedBlock, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
 	if err != nil {
 		return false, err
 	}
 
-	lastIndexedPosition := (lastIndexedRecord*int64(f.readOps.GetPipes().RecordSize) + lastIndexedBlock) * config.MagneticTapeBlockSize
-	if _, err := reader.Drive.Seek(lastIndexedPosition, io.SeekStart); err != nil {
-		return false, err
+	var drive io.Reader = reader.Drive
+	if reader.DriveIsRegular {
+		lastIndexedPosition := (lastIndexedRecord*int64(f.readOps.GetPipes().RecordSize) + lastIndexedBlock) * config.MagneticTapeBlockSize
+		if _, err := reader.Drive.Seek(lastIndexedPosition, io.SeekStart); err != nil {
+			return false, err
+		}
+	} else {
+		if err := f.readOps.GetBackend().MagneticTapeIO.SeekToRecordOnTape(reader.Drive.Fd(), int32(lastIndexedRecord)); err != nil {
+			// The tape ends before the last record which we already indexed
+			return true, nil
+		}
+
+		drive = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*f.readOps.GetPipes().RecordSize)
+		if _, err := io.CopyN(io.Discard, drive, lastIndexedBlock*config.MagneticTapeBlockSize); err != nil {
+			if err == io.EOF {
+				return true, nil
+			}
+
+			return false, err
+		}
 	}
 
-	if _, err := tar.NewReader(reader.Drive).Next(); err != nil {
+	if _, err := tar.NewReader(drive).Next(); err != nil {
 		if err == io.EOF || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, tar.ErrHeader) {
 			return true, nil
 		}
-- 
2.43.0


From f06b08ec062b15b6a0cb84e6c18867160cebf333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 64/64] fix: don't start from scratch over tapes in drives
 which can't be read

---
 pkg/fs/filesystem.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index e34f3a8..0b14464 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -272,7 +272,7 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	found := false
 	if err := f.indexWithoutLocking(reader, 0, 0, true, 0, func() { found = true }); err != nil {
 		// New tapes might not be readable yet
-		if !reader.DriveIsRegular && !found && !indexed {
+		if !reader.DriveIsRegular && !found && !indexed && !f.tapeHasRecords(reader) {
 			return mkdirRoot(true)
 		}
 
@@ -294,6 +294,19 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	return root, err
 }
 
+// tapeHasRecords checks if there is anything on a tape, even if it can't be read.
+func (f *STFS) tapeHasRecords(reader config.DriveReaderConfig) bool {
+	mt := f.readOps.GetBackend().MagneticTapeIO
+
+	if err := mt.GoToEndOfTape(reader.Drive.Fd()); err != nil {
+		return false
+	}
+
+	end, err := mt.GetCurrentRecordFromTape(reader.Drive.Fd())
+
+	return err == nil && end > 0
+}
+
 func (f *STFS) indexWithoutLocking(
 	reader config.DriveReaderConfig,
 
-- 
2.43.0

