From c652049c4db3f317828b267fbe46f6132cd3580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 01/24] fix: leave the drive free when opening it fails and
 don't shadow an existing tape when initializing

TapeManager kept the physical lock when the drive could not be opened or
closed, so the next call hung. Initialize relied on that, and purged the
index and appended a new root whenever the rebuild failed, even if the tape
already had one.
---
 pkg/fs/filesystem.go | 38 ++++++++++++++++++++++++++++----------
 pkg/tape/manager.go  | 21 +++++++++++++++------
 pkg/tape/write.go    |  6 ++++++
 3 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 62e2382..6348bc4 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -214,10 +214,6 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
 	if err == config.ErrNoRootDirectory {
 		mkdirRoot := func() (string, error) {
-			if err := f.readOps.GetBackend().CloseReader(); err != nil {
-				return "", err
-			}
-
 			if f.readOnly {
 				return "", os.ErrPermission
 			}
@@ -232,10 +228,16 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 
 		reader, err := f.readOps.GetBackend().GetReader()
 		if err != nil {
-			return mkdirRoot()
+			// There is no tape yet
+			if errors.Is(err, os.ErrNotExist) {
+				return mkdirRoot()
+			}
+
+			return "", err
 		}
 
-		if err := recovery.Index(
+		sawRecord := false
+		err = recovery.Index(
 			reader,
 			f.readOps.GetBackend().MagneticTapeIO,
 			f.readOps.GetMetadata(),
@@ -249,6 +251,8 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 			0,
 
 			func(hdr *tar.Header, i int) error {
+				sawRecord = true
+
 				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
 			},
 			func(hdr *tar.Header, isRegular bool) error {
@@ -256,16 +260,30 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 			},
 
 			f.onHeader,
-		); err != nil {
-			return mkdirRoot()
+		)
+
+		if closeErr := f.readOps.GetBackend().CloseReader(); err == nil {
+			err = closeErr
 		}
 
-		if err := f.readOps.GetBackend().CloseReader(); err != nil {
+		if err != nil {
+			// Reading from a blank tape fails
+			if !reader.DriveIsRegular && !sawRecord {
+				return mkdirRoot()
+			}
+
+			// Don't shadow what is already on the tape with a new root
 			return "", err
 		}
 
 		// Ensure that the new root path is being used
-		return f.metadata.Metadata.GetRootPath(context.Background())
+		existingRoot, err = f.metadata.Metadata.GetRootPath(context.Background())
+		if err == config.ErrNoRootDirectory {
+			// There is nothing on the tape yet
+			return mkdirRoot()
+		}
+
+		return existingRoot, err
 	} else if err != nil {
 		return "", err
 	}
diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index eb60314..d22cc1c 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -55,6 +55,9 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 		overwrite,
 	)
 	if err != nil {
+		// Nothing was opened, so there is nothing to close; leave the drive free
+		m.physicalLock.Unlock()
+
 		return config.DriveWriterConfig{}, err
 	}
 
@@ -78,15 +81,18 @@ func (m *TapeManager) GetReader() (config.DriveReaderConfig, error) {
 }
 
 func (m *TapeManager) Close() error {
-	if m.closer != nil {
-		if err := m.closer(); err != nil {
-			return err
-		}
+	if m.closer == nil {
+		// The drive is not open
+		return nil
 	}
 
-	m.physicalLock.Unlock()
+	closer := m.closer
+	m.closer = nil
 
-	return nil
+	// Leave the drive free even if it could not be closed properly
+	defer m.physicalLock.Unlock()
+
+	return closer()
 }
 
 func (m *TapeManager) openOrReuseReader() error {
@@ -106,6 +112,9 @@ func (m *TapeManager) openOrReuseReader() error {
 
 		r, rr, err := OpenTapeReadOnly(m.drive)
 		if err != nil {
+			// Nothing was opened, so there is nothing to close; leave the drive free
+			m.physicalLock.Unlock()
+
 			return err
 		}
 
diff --git a/pkg/tape/write.go b/pkg/tape/write.go
index 0fd031e..d856543 100644
--- a/pkg/tape/write.go
+++ b/pkg/tape/write.go
@@ -32,6 +32,8 @@ func OpenTapeWriteOnly(
 
 			// Clear the file's content
 			if err := f.Truncate(0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -46,6 +48,8 @@ func OpenTapeWriteOnly(
 
 			// Seek to the start of the tape
 			if err := mt.SeekToRecordOnTape(f.Fd(), 0); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 
@@ -71,6 +75,8 @@ func OpenTapeWriteOnly(
 		if !overwrite {
 			// Go to end of tape
 			if err := mt.GoToEndOfTape(f.Fd()); err != nil {
+				_ = f.Close()
+
 				return nil, false, err
 			}
 		}
-- 
2.43.0


From 309d7a0b80e8806d3f1eb3ecbe8939ba7ab79d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 02/24] fix: release the drive and complete the archive when a
 write operation fails

Archive, Update, Delete and Move returned without closing the writer, so the
drive stayed locked. They also called a nil onHeader callback after indexing.
---
 pkg/operations/abort.go   | 83 +++++++++++++++++++++++++++++++++++++++
 pkg/operations/archive.go | 17 ++++++++
 pkg/operations/delete.go  | 23 +++++++++++
 pkg/operations/move.go    | 23 +++++++++++
 pkg/operations/update.go  | 17 ++++++++
 5 files changed, 163 insertions(+)
 create mode 100644 pkg/operations/abort.go

diff --git a/pkg/operations/abort.go b/pkg/operations/abort.go
new file mode 100644
index 0000000..8e3754a
--- /dev/null
+++ b/pkg/operations/abort.go
@@ -0,0 +1,83 @@
+package operations
+
+import (
+	"archive/tar"
+	"io"
+
+	"github.com/pojntfx/stfs/pkg/config"
+	"github.com/pojntfx/stfs/pkg/recovery"
+)
+
+type zeroReader struct{}
+
+func (zeroReader) Read(p []byte) (int, error) {
+	for i := range p {
+		p[i] = 0
+	}
+
+	return len(p), nil
+}
+
+// abort completes an archive which has been appended to the tape only partially before a write operation
+// failed, so that the tape stays readable, the index reflects what is on it and the drive is free again.
+func (o *Operations) abort(
+	tw *tar.Writer,
+	cleanup func(dirty *bool) error,
+
+	lastIndexedRecord int64,
+	lastIndexedBlock int64,
+	overwrite bool,
+	initializing bool,
+
+	hdrs []*tar.Header,
+) {
+	// Fill up the member if writing its content has been interrupted
+	_, _ = io.Copy(tw, zeroReader{})
+
+	dirty := true
+	cleanupErr := cleanup(&dirty)
+
+	if err := o.backend.CloseWriter(); err != nil || cleanupErr != nil {
+		return
+	}
+
+	offset := 1 // Ignore the first header, which is the last header which we already indexed
+	if overwrite {
+		offset = 0 // If we are starting fresh, index from start
+	}
+
+	reader, err := o.backend.GetReader()
+	if err != nil {
+		return
+	}
+	defer o.backend.CloseReader()
+
+	_ = recovery.Index(
+		reader,
+		o.backend.MagneticTapeIO,
+		o.metadata,
+		o.pipes,
+		o.crypto,
+
+		int(lastIndexedRecord),
+		int(lastIndexedBlock),
+		overwrite,
+		initializing,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			if len(hdrs) <= i {
+				return config.ErrTarHeaderMissing
+			}
+
+			*hdr = *hdrs[i]
+
+			return nil
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return nil // We sign above, no need to verify
+		},
+
+		nil,
+	)
+}
diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 5ba63ee..61bc4d5 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -47,6 +47,12 @@ func (o *Operations) archive(
 	if err != nil {
 		return []*tar.Header{}, err
 	}
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -64,6 +70,12 @@ func (o *Operations) archive(
 	}
 
 	hdrs := []*tar.Header{}
+	defer func() {
+		if dirty && !writerClosed {
+			writerClosed = true
+			o.abort(tw, cleanup, lastIndexedRecord, lastIndexedBlock, overwrite, initializing, hdrs)
+		}
+	}()
 	for {
 		file, err := getSrc()
 		if err == io.EOF {
@@ -261,6 +273,7 @@ func (o *Operations) archive(
 		index = 0 // If we are starting fresh, index from start
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -298,6 +311,10 @@ func (o *Operations) archive(
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeArchive,
 				Indexed: true,
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index e45f531..159d884 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -25,6 +25,12 @@ func (o *Operations) Delete(name string) error {
 	if err != nil {
 		return err
 	}
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -63,6 +69,18 @@ func (o *Operations) Delete(name string) error {
 
 	// Append deletion hdrs to the tape or tar file
 	hdrs := []tar.Header{}
+	defer func() {
+		if dirty && !writerClosed {
+			writerClosed = true
+
+			appended := []*tar.Header{}
+			for i := range hdrs {
+				appended = append(appended, &hdrs[i])
+			}
+
+			o.abort(tw, cleanup, lastIndexedRecord, lastIndexedBlock, false, false, appended)
+		}
+	}()
 	for _, dbhdr := range headersToDelete {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -107,6 +125,7 @@ func (o *Operations) Delete(name string) error {
 		return err
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
@@ -144,6 +163,10 @@ func (o *Operations) Delete(name string) error {
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeDelete,
 				Indexed: true,
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 3cace4f..2d63775 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -32,6 +32,12 @@ func (o *Operations) Move(from string, to string) error {
 	if err != nil {
 		return err
 	}
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -80,6 +86,18 @@ func (o *Operations) Move(from string, to string) error {
 
 	// Append move headers to the tape or tar file
 	hdrs := []tar.Header{}
+	defer func() {
+		if dirty && !writerClosed {
+			writerClosed = true
+
+			appended := []*tar.Header{}
+			for i := range hdrs {
+				appended = append(appended, &hdrs[i])
+			}
+
+			o.abort(tw, cleanup, lastIndexedRecord, lastIndexedBlock, false, false, appended)
+		}
+	}()
 	for _, dbhdr := range headersToMove {
 		hdr, err := converters.DBHeaderToTarHeader(converters.ConfigHeaderToDBHeader(dbhdr))
 		if err != nil {
@@ -126,6 +144,7 @@ func (o *Operations) Move(from string, to string) error {
 		return err
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return err
 	}
@@ -163,6 +182,10 @@ func (o *Operations) Move(from string, to string) error {
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeMove,
 				Indexed: true,
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 629cd8e..8c45924 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -32,6 +32,12 @@ func (o *Operations) Update(
 	if err != nil {
 		return []*tar.Header{}, err
 	}
+	writerClosed := false
+	defer func() {
+		if !writerClosed {
+			_ = o.backend.CloseWriter()
+		}
+	}()
 
 	dirty := false
 	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
@@ -45,6 +51,12 @@ func (o *Operations) Update(
 	}
 
 	hdrs := []*tar.Header{}
+	defer func() {
+		if dirty && !writerClosed {
+			writerClosed = true
+			o.abort(tw, cleanup, lastIndexedRecord, lastIndexedBlock, false, false, hdrs)
+		}
+	}()
 	for {
 		file, err := getSrc()
 		if err == io.EOF {
@@ -279,6 +291,7 @@ func (o *Operations) Update(
 		return []*tar.Header{}, err
 	}
 
+	writerClosed = true
 	if err := o.backend.CloseWriter(); err != nil {
 		return []*tar.Header{}, err
 	}
@@ -316,6 +329,10 @@ func (o *Operations) Update(
 		},
 
 		func(hdr *config.Header) {
+			if o.onHeader == nil {
+				return
+			}
+
 			o.onHeader(&config.HeaderEvent{
 				Type:    config.HeaderEventTypeUpdate,
 				Indexed: true,
-- 
2.43.0


From 48f654d560aa66530898b332afb688747f2da80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:59 +0000
Subject: [PATCH 03/24] fix: rebuild the index from tapes with a torn tail or
 with odd padding

Index and Query retried forever on persistent errors, lost the record after
an odd number of zero blocks and failed if the last record's content was cut
off. Query also kept computing positions from the previous tape file.
---
 pkg/recovery/index.go | 117 +++++++++++++++++++++++-------------------
 pkg/recovery/query.go |  64 ++++++-----------------
 2 files changed, 80 insertions(+), 101 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index faffb60..5d4dc06 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -61,61 +61,17 @@ func Index(
 		i := 0
 
 		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-							break
-						}
-
-						continue
-					}
-
-					break
-				}
+			hdr, nextTr, nextRecord, nextBlock, err := nextHeader(reader.Drive, tr, pipes.RecordSize, record, block)
+			if err == io.EOF {
+				break
 			}
 
-			if hdr == nil {
-				// Try to skip over the next file mark; this makes it possible to append to a tar file created by i.e. GNU tar
-				if _, err := reader.Drive.Read(make([]byte, config.MagneticTapeBlockSize*2)); err != nil {
-					if err == io.EOF {
-						// EOF
-						break
-					}
-
-					return err
-				}
-
-				continue
+			if err != nil {
+				return err
 			}
 
+			tr, record, block = nextTr, nextRecord, nextBlock
+
 			if i >= offset {
 				if err := decryptHeader(hdr, i-offset); err != nil {
 					return err
@@ -136,6 +92,11 @@ func Index(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content of the last record has only been written partially
+					break
+				}
+
 				return err
 			}
 
@@ -178,7 +139,7 @@ func Index(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -218,7 +179,7 @@ func Index(
 
 			curr = int64(counter.BytesRead)
 
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil && err != io.ErrUnexpectedEOF {
 				return err
 			}
 
@@ -240,6 +201,56 @@ func Index(
 	return nil
 }
 
+// nextHeader returns the next header on a regular drive, the reader which has to be used to read its content
+// and the record and block at which it starts. `record` and `block` are the position at which it is expected;
+// if there is no header, whatever is there is skipped. If there are no headers left `io.EOF` is returned.
+func nextHeader(
+	drive io.ReadSeeker,
+	tr *tar.Reader,
+	recordSize int,
+	record, block int64,
+) (*tar.Header, *tar.Reader, int64, int64, error) {
+	hdr, err := tr.Next()
+	for err != nil {
+		curr, seekErr := drive.Seek(0, io.SeekCurrent)
+		if seekErr != nil {
+			return nil, nil, 0, 0, seekErr
+		}
+
+		totalBlocks := record*int64(recordSize) + block
+
+		nextTotalBlocks := int64(0)
+		switch err {
+		case io.EOF:
+			// Continue behind the trailer; this makes it possible to append to a tar file created by i.e. GNU tar
+			nextTotalBlocks = int64(math.Ceil(float64(curr) / float64(config.MagneticTapeBlockSize)))
+
+			if nextTotalBlocks <= totalBlocks {
+				return nil, nil, 0, 0, io.EOF
+			}
+		case io.ErrUnexpectedEOF, tar.ErrHeader, tar.ErrFieldTooLong:
+			// Skip over anything that is not a header, i.e. one that has only been written partially, block by block
+			nextTotalBlocks = totalBlocks + 1
+		default:
+			return nil, nil, 0, 0, err
+		}
+
+		record = nextTotalBlocks / int64(recordSize)
+		block = nextTotalBlocks - (record * int64(recordSize))
+
+		// Seek to record and block
+		if _, err := drive.Seek(int64((recordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
+			return nil, nil, 0, 0, err
+		}
+
+		tr = tar.NewReader(drive)
+
+		hdr, err = tr.Next()
+	}
+
+	return hdr, tr, record, block, nil
+}
+
 func indexHeader(
 	record, block int64,
 	hdr *tar.Header,
diff --git a/pkg/recovery/query.go b/pkg/recovery/query.go
index f2c1b02..6c09743 100644
--- a/pkg/recovery/query.go
+++ b/pkg/recovery/query.go
@@ -39,54 +39,17 @@ func Query(
 		block := int64(block)
 
 		for {
-			hdr, err := tr.Next()
-			if err != nil {
-				for {
-					curr, err := reader.Drive.Seek(0, io.SeekCurrent)
-					if err != nil {
-						return []*tar.Header{}, err
-					}
-
-					nextTotalBlocks := math.Ceil(float64((curr)) / float64(config.MagneticTapeBlockSize))
-					record = int64(nextTotalBlocks) / int64(pipes.RecordSize)
-					block = int64(nextTotalBlocks) - (record * int64(pipes.RecordSize))
-
-					if block < 0 {
-						record--
-						block = int64(pipes.RecordSize) - 1
-					} else if block >= int64(pipes.RecordSize) {
-						record++
-						block = 0
-					}
-
-					// Seek to record and block
-					if _, err := reader.Drive.Seek(int64((pipes.RecordSize*config.MagneticTapeBlockSize*int(record))+int(block)*config.MagneticTapeBlockSize), io.SeekStart); err != nil {
-						return []*tar.Header{}, err
-					}
-
-					tr = tar.NewReader(reader.Drive)
-
-					hdr, err = tr.Next()
-					if err != nil {
-						if err == io.EOF {
-							// EOF
-
-							break
-						}
-
-						continue
-					}
-
-					break
-				}
+			hdr, nextTr, nextRecord, nextBlock, err := nextHeader(reader.Drive, tr, pipes.RecordSize, record, block)
+			if err == io.EOF {
+				break
 			}
 
-			if hdr == nil {
-				// EOF
-
-				break
+			if err != nil {
+				return []*tar.Header{}, err
 			}
 
+			tr, record, block = nextTr, nextRecord, nextBlock
+
 			if err := encryption.DecryptHeader(hdr, pipes.Encryption, crypto.Identity); err != nil {
 				return []*tar.Header{}, err
 			}
@@ -112,6 +75,11 @@ func Query(
 			}
 
 			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+				if err == io.ErrUnexpectedEOF {
+					// The content of the last record has only been written partially
+					break
+				}
+
 				return []*tar.Header{}, err
 			}
 
@@ -151,7 +119,7 @@ func Query(
 		for {
 			hdr, err := tr.Next()
 			if err != nil {
-				if err == io.EOF {
+				if err == io.EOF || err == io.ErrUnexpectedEOF {
 					if err := mt.GoToNextFileOnTape(reader.Drive.Fd()); err != nil {
 						// EOD
 
@@ -165,8 +133,8 @@ func Query(
 					block = 0
 
 					br = bufio.NewReaderSize(reader.Drive, config.MagneticTapeBlockSize*pipes.RecordSize)
-					curr := int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
-					counter := &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
+					curr = int64(int64(pipes.RecordSize) * config.MagneticTapeBlockSize * record)
+					counter = &ioext.CounterReader{Reader: br, BytesRead: int(curr)}
 					tr = tar.NewReader(counter)
 
 					continue
@@ -194,7 +162,7 @@ func Query(
 
 			headers = append(headers, hdr)
 
-			if _, err := io.Copy(ioutil.Discard, tr); err != nil {
+			if _, err := io.Copy(ioutil.Discard, tr); err != nil && err != io.ErrUnexpectedEOF {
 				return []*tar.Header{}, err
 			}
 
-- 
2.43.0


From 53343a45677cd73882a59a2ea781f5d864acf0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:00 +0000
Subject: [PATCH 04/24] fix: append at a block boundary if the tape ends with a
 partial block

---
 pkg/tape/manager.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index d22cc1c..d92fcfa 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -63,8 +63,13 @@ func (m *TapeManager) GetWriter() (config.DriveWriterConfig, error) {
 
 	m.closer = writer.Close
 
+	var drive io.Writer = writer
+	if writerIsRegular {
+		drive = &aligningWriter{file: writer}
+	}
+
 	return config.DriveWriterConfig{
-		Drive:          writer,
+		Drive:          drive,
 		DriveIsRegular: writerIsRegular,
 	}, nil
 }
@@ -126,3 +131,29 @@ func (m *TapeManager) openOrReuseReader() error {
 
 	return nil
 }
+
+// aligningWriter fills up a partial block, which an interrupted write has left at the end of a regular drive,
+// before the first write, so that everything which is appended starts at a block boundary.
+type aligningWriter struct {
+	file    *os.File
+	aligned bool
+}
+
+func (w *aligningWriter) Write(p []byte) (int, error) {
+	if !w.aligned {
+		stat, err := w.file.Stat()
+		if err != nil {
+			return 0, err
+		}
+
+		if partial := stat.Size() % config.MagneticTapeBlockSize; partial != 0 {
+			if _, err := w.file.Write(make([]byte, config.MagneticTapeBlockSize-partial)); err != nil {
+				return 0, err
+			}
+		}
+
+		w.aligned = true
+	}
+
+	return w.file.Write(p)
+}
-- 
2.43.0


From d4231c00f0a3009cacf702d20029c79da48ec0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 05/24] fix: write PAX headers when deleting or moving members
 of foreign archives

Members of ustar and GNU archives could not be removed or renamed since their
format can't carry the STFS records.
---
 pkg/operations/delete.go | 1 +
 pkg/operations/move.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index 159d884..daf1c7b 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -88,6 +88,7 @@ func (o *Operations) Delete(name string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
 
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 2d63775..c50cc7b 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -105,6 +105,7 @@ func (o *Operations) Move(from string, to string) error {
 		}
 
 		hdr.Size = 0 // Don't try to seek after the record
+		hdr.Format = tar.FormatPAX
 		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
-- 
2.43.0


From 1dcf781e555198d7d62b90f54efcfb09f2102104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 06/24] fix: replace deleted headers when moving and move in
 one transaction

---
 pkg/persisters/metadata.go | 58 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index ac26102..9a1a849 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -144,8 +144,35 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	newName = p.getSanitizedPath(ctx, newName)
 	oldName = p.getSanitizedPath(ctx, oldName)
 
+	tx, err := p.sqlite.DB.BeginTx(ctx, nil)
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback() // No-op if the transaction has been committed
+
+	// Ignore headers which have been moved before
+	exists, err := models.Headers(
+		qm.Where(models.HeaderColumns.Name+" = ?", oldName),
+	).Exists(ctx, tx)
+	if err != nil {
+		return err
+	}
+
+	if !exists {
+		return nil
+	}
+
+	// A header which has had the new name before, i.e. a deleted one, is replaced
+	if newName != oldName {
+		if _, err := models.Headers(
+			qm.Where(models.HeaderColumns.Name+" = ?", newName),
+		).DeleteAll(ctx, tx); err != nil {
+			return err
+		}
+	}
+
 	// We can't do this with `dbhdr.Update` because we are renaming the primary key
-	n, err := queries.Raw(
+	if _, err := queries.Raw(
 		fmt.Sprintf(
 			`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
 			models.TableNames.Headers,
@@ -158,36 +185,11 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 		lastknownrecord,
 		lastknownblock,
 		oldName,
-	).ExecContext(ctx, p.sqlite.DB)
-	if err != nil {
-		return err
-	}
-
-	written, err := n.RowsAffected()
-	if err != nil {
+	).ExecContext(ctx, tx); err != nil {
 		return err
 	}
 
-	if written < 1 {
-		if _, err := queries.Raw(
-			fmt.Sprintf(
-				`update %v set %v = ?, %v = ?, %v = ? where %v = ?;`,
-				models.TableNames.Headers,
-				models.HeaderColumns.Name,
-				models.HeaderColumns.Lastknownrecord,
-				models.HeaderColumns.Lastknownblock,
-				models.HeaderColumns.Name,
-			),
-			newName,
-			lastknownrecord,
-			lastknownblock,
-			oldName,
-		).ExecContext(ctx, p.sqlite.DB); err != nil {
-			return err
-		}
-	}
-
-	return nil
+	return tx.Commit()
 }
 
 func (p *MetadataPersister) GetHeaders(ctx context.Context) ([]*config.Header, error) {
-- 
2.43.0


From 5256f48e9b55f6a6f0fef7403a69d0ce6c925326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 07/24] fix: index the unsuffixed name of records without
 content and tolerate missing headers when deleting

---
 pkg/recovery/index.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/recovery/index.go b/pkg/recovery/index.go
index 5d4dc06..d11d184 100644
--- a/pkg/recovery/index.go
+++ b/pkg/recovery/index.go
@@ -270,7 +270,15 @@ func indexHeader(
 		hdr.Size = int64(size)
 	}
 
-	if hdr.FileInfo().Mode().IsRegular() {
+	// Only the names of members which carry content written by STFS have a suffix; the others, i.e. those of
+	// metadata-only updates, moves & deletions or foreign members, might end with the same characters by chance
+	_, moves := hdr.PAXRecords[records.STFSRecordReplacesName]
+	action, hasAction := hdr.PAXRecords[records.STFSRecordAction]
+	replacesContent := hdr.PAXRecords[records.STFSRecordReplacesContent] == records.STFSRecordReplacesContentTrue
+	hasContent := !moves && (!hasAction ||
+		action == records.STFSRecordActionCreate ||
+		(action == records.STFSRecordActionUpdate && replacesContent))
+	if ok && hasContent && hdr.FileInfo().Mode().IsRegular() {
 		newName, err := suffix.RemoveSuffix(hdr.Name, compressionFormat, encryptionFormat)
 		if err != nil {
 			return err
@@ -310,7 +318,8 @@ func indexHeader(
 				return err
 			}
 		case records.STFSRecordActionDelete:
-			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil {
+			// There might be nothing left to delete, i.e. if the record which created the header has been lost
+			if _, err := metadataPersister.DeleteHeader(context.Background(), hdr.Name, record, block); err != nil && err != sql.ErrNoRows {
 				return err
 			}
 		case records.STFSRecordActionUpdate:
-- 
2.43.0


From e02ac1dee96719be3895d28465c22ad54cb904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 08/24] fix: keep the indexed size on metadata-only updates and
 reject updates of missing headers

---
 pkg/operations/update.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 8c45924..6cda5fd 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -77,6 +77,12 @@ func (o *Operations) Update(
 			return []*tar.Header{}, err
 		}
 
+		// There must be a header to update
+		existing, err := o.metadata.Metadata.GetHeader(context.Background(), file.Path)
+		if err != nil {
+			return []*tar.Header{}, err
+		}
+
 		hdr.Name = file.Path
 		hdr.Format = tar.FormatPAX
 		if hdr.PAXRecords == nil {
@@ -253,6 +259,10 @@ func (o *Operations) Update(
 			}
 		} else {
 			hdr.PAXRecords[records.STFSRecordReplacesContent] = records.STFSRecordReplacesContentFalse
+			if file.Info.Mode().IsRegular() {
+				// The content, and thus its size, stays as is
+				hdr.PAXRecords[records.STFSRecordUncompressedSize] = strconv.Itoa(int(existing.Size))
+			}
 			hdr.Size = 0 // Don't try to seek after the record
 
 			if o.onHeader != nil {
-- 
2.43.0


From 492b1dc3cc60723f2495a68ecb9b690d2cb29cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 09/24] fix: restore empty members without the pipeline and
 close destinations if fetching fails

---
 pkg/recovery/fetch.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index 1ae1c15..c2ea6ff 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -93,13 +93,29 @@ func Fetch(
 			return err
 		}
 
+		dstClosed := false
+		defer func() {
+			if !dstClosed {
+				_ = dstFile.Close()
+			}
+		}()
+
 		// Don't decompress non-regular files
 		if !hdr.FileInfo().Mode().IsRegular() {
 			if _, err := io.Copy(dstFile, tr); err != nil {
 				return err
 			}
 
-			return nil
+			dstClosed = true
+
+			return dstFile.Close()
+		}
+
+		// Empty files might have been written without using the pipeline
+		if _, ok := hdr.PAXRecords[records.STFSRecordUncompressedSize]; !ok && hdr.Size == 0 {
+			dstClosed = true
+
+			return dstFile.Close()
 		}
 
 		decryptor, err := encryption.Decrypt(tr, pipes.Encryption, crypto.Identity)
@@ -140,9 +156,9 @@ func Fetch(
 			return err
 		}
 
-		if err := dstFile.Close(); err != nil {
-			return err
-		}
+		dstClosed = true
+
+		return dstFile.Close()
 	}
 
 	return nil
-- 
2.43.0


From 17a879924a56bda9793a11c920987c454d40785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 10/24] fix: decrypt PGP identities which are protected with an
 empty password

---
 pkg/keys/identity.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pkg/keys/identity.go b/pkg/keys/identity.go
index 116a022..81efa5f 100644
--- a/pkg/keys/identity.go
+++ b/pkg/keys/identity.go
@@ -43,21 +43,24 @@ func ParseIdentity(
 			return nil, err
 		}
 
-		if password != "" {
-			for _, identity := range identities {
-				if identity.PrivateKey == nil {
+		// Keys which are protected with an empty password are encrypted too
+		for _, identity := range identities {
+			if identity.PrivateKey == nil {
+				return nil, config.ErrIdentityUnparsable
+			}
+
+			if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				return nil, err
+			}
+
+			for _, subkey := range identity.Subkeys {
+				if subkey.PrivateKey == nil {
 					return nil, config.ErrIdentityUnparsable
 				}
 
-				if err := identity.PrivateKey.Decrypt([]byte(password)); err != nil {
+				if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
 					return nil, err
 				}
-
-				for _, subkey := range identity.Subkeys {
-					if err := subkey.PrivateKey.Decrypt([]byte(password)); err != nil {
-						return nil, err
-					}
-				}
 			}
 		}
 
-- 
2.43.0


From 73ad5d1ee0ead9c7d4a1cdf26f6b990fcaffa331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 11/24] fix: reject malformed PGP signatures of headers

---
 pkg/signature/verify.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/signature/verify.go b/pkg/signature/verify.go
index 02adde6..6d9b15a 100644
--- a/pkg/signature/verify.go
+++ b/pkg/signature/verify.go
@@ -72,6 +72,10 @@ func Verify(
 			return nil, nil, config.ErrSignatureInvalid
 		}
 
+		if !sig.Hash.Available() {
+			return nil, nil, config.ErrSignatureInvalid
+		}
+
 		hash := sig.Hash.New()
 
 		tee := io.TeeReader(src, hash)
@@ -157,27 +161,31 @@ func VerifyString(
 	case config.SignatureFormatPGPKey:
 		recipients, ok := recipient.(openpgp.EntityList)
 		if !ok {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		if len(recipients) < 1 {
-			return nil
+			return config.ErrRecipientUnparsable
 		}
 
 		decodedSignature, err := base64.StdEncoding.DecodeString(signature)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		reader := packet.NewReader(bytes.NewBuffer(decodedSignature))
 		pkt, err := reader.Next()
 		if err != nil {
-			return nil
+			return err
 		}
 
 		sig, ok := pkt.(*packet.Signature)
 		if !ok {
-			return nil
+			return config.ErrSignatureInvalid
+		}
+
+		if !sig.Hash.Available() {
+			return config.ErrSignatureInvalid
 		}
 
 		hash := sig.Hash.New()
-- 
2.43.0


From 11891a31698f8c6b9b8baeb6f88c311f8f57a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 12/24] fix: select children by their exact prefix and replace
 only conflicting headers when moving

---
 pkg/operations/move.go     |  3 ++-
 pkg/persisters/metadata.go | 30 ++++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index c50cc7b..07c3094 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -63,6 +63,7 @@ func (o *Operations) Move(from string, to string) error {
 		}
 	}
 	headersToMove = append(headersToMove, dbhdr)
+	source := dbhdr
 
 	// Prevent moving from relative to absolute path
 	if path.IsAbs(to) && !path.IsAbs(dbhdr.Name) {
@@ -106,7 +107,7 @@ func (o *Operations) Move(from string, to string) error {
 
 		hdr.Size = 0 // Don't try to seek after the record
 		hdr.Format = tar.FormatPAX
-		hdr.Name = path.Join(to, strings.TrimPrefix(strings.TrimPrefix(dbhdr.Name, "/"), strings.TrimPrefix(from, "/")))
+		hdr.Name = path.Join(to, strings.TrimPrefix(dbhdr.Name, strings.TrimSuffix(source.Name, "/")))
 		hdr.PAXRecords[records.STFSRecordVersion] = records.STFSRecordVersion1
 		hdr.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionUpdate
 		hdr.PAXRecords[records.STFSRecordReplacesName] = dbhdr.Name
diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 9a1a849..9a8b064 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -153,6 +153,7 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 	// Ignore headers which have been moved before
 	exists, err := models.Headers(
 		qm.Where(models.HeaderColumns.Name+" = ?", oldName),
+		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).Exists(ctx, tx)
 	if err != nil {
 		return err
@@ -162,10 +163,20 @@ func (p *MetadataPersister) MoveHeader(ctx context.Context, oldName string, newN
 		return nil
 	}
 
-	// A header which has had the new name before, i.e. a deleted one, is replaced
+	// A header which has (or has had, if it is a deleted one) the new name is replaced
 	if newName != oldName {
 		if _, err := models.Headers(
 			qm.Where(models.HeaderColumns.Name+" = ?", newName),
+			qm.Where(
+				fmt.Sprintf(
+					`%v in (select %v from %v where %v = ?)`,
+					models.HeaderColumns.Linkname,
+					models.HeaderColumns.Linkname,
+					models.TableNames.Headers,
+					models.HeaderColumns.Name,
+				),
+				oldName,
+			),
 		).DeleteAll(ctx, tx); err != nil {
 			return err
 		}
@@ -239,8 +250,13 @@ func (p *MetadataPersister) GetHeaderByLinkname(ctx context.Context, linkname st
 func (p *MetadataPersister) GetHeaderChildren(ctx context.Context, name string) ([]*config.Header, error) {
 	name = p.getSanitizedPath(ctx, name)
 
+	prefix := strings.TrimSuffix(name, "/") + "/" // Prevent double trailing slashes
+	if pathext.IsRoot(name, false) {
+		prefix = "" // Everything is below the root
+	}
+
 	headers, err := models.Headers(
-		qm.Where(models.HeaderColumns.Name+" like ?", strings.TrimSuffix(name, "/")+"/%"), // Prevent double trailing slashes
+		qm.Where("substr("+models.HeaderColumns.Name+", 1, length(?)) = ?", prefix, prefix), // `like` would interpret wildcards and ignore the case
 		qm.Where(models.HeaderColumns.Deleted+" != 1"),
 	).All(ctx, p.sqlite.DB)
 	if err != nil {
@@ -303,9 +319,9 @@ func (p *MetadataPersister) GetHeaderDirectChildren(ctx context.Context, name st
 
 		query := fmt.Sprintf(
 			`select %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v, %v,
-    length(replace(%v, ?, '')) - length(replace(replace(%v, ?, ''), '/', '')) as depth
+    length(substr(%v, length(?) + 1)) - length(replace(substr(%v, length(?) + 1), '/', '')) as depth
 from %v
-where %v like ?
+where substr(%v, 1, length(?)) = ?
     and (
         depth = ?
         or (
@@ -352,7 +368,8 @@ where %v like ?
 				query+`limit ?`,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 				limit+1, // +1 to accomodate the parent directory if it exists
@@ -368,7 +385,8 @@ where %v like ?
 				query,
 				prefix,
 				prefix,
-				prefix+"%",
+				prefix,
+				prefix,
 				rootDepth,
 				rootDepth+1,
 			).Bind(ctx, p.sqlite.DB, &headers); err != nil {
-- 
2.43.0


From a2e2b87aa6253f99e5d373ab442a01d94daebb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 13/24] fix: overwrite and grow in-memory write caches without
 losing content

---
 pkg/cache/write.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/cache/write.go b/pkg/cache/write.go
index b67c230..a0851e8 100644
--- a/pkg/cache/write.go
+++ b/pkg/cache/write.go
@@ -36,7 +36,34 @@ func (f filebufferWithSize) Sync() error {
 	return nil
 }
 
+// Write overwrites or appends at the current position, the content behind what has been written stays as is
+func (f filebufferWithSize) Write(p []byte) (int, error) {
+	// Fill the gap if we have seeked behind the end
+	if size := int64(f.Buff.Len()); f.Index > size {
+		if err := f.Truncate(f.Index); err != nil {
+			return 0, err
+		}
+	}
+
+	overwritten := copy(f.Buff.Bytes()[f.Index:], p)
+	appended, err := f.Buff.Write(p[overwritten:])
+
+	f.Index += int64(overwritten + appended)
+
+	return overwritten + appended, err
+}
+
 func (f filebufferWithSize) Truncate(size int64) error {
+	if size < 0 {
+		return os.ErrInvalid
+	}
+
+	if missing := size - int64(f.Buff.Len()); missing > 0 {
+		_, err := f.Buff.Write(make([]byte, missing))
+
+		return err
+	}
+
 	f.Buff.Truncate(int(size))
 
 	return nil
-- 
2.43.0


From 9efa3ba4bc367650b23b0fa344db401e0564e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 14/24] fix: buffer the content of open files so that the drive
 stays free and cursors behave like those of files

---
 pkg/fs/file.go | 545 ++++++++++++++++++++++---------------------------
 1 file changed, 239 insertions(+), 306 deletions(-)

diff --git a/pkg/fs/file.go b/pkg/fs/file.go
index 6e6b400..4a3a09e 100644
--- a/pkg/fs/file.go
+++ b/pkg/fs/file.go
@@ -1,7 +1,6 @@
 package fs
 
 import (
-	"bytes"
 	"database/sql"
 	"io"
 	"io/fs"
@@ -48,11 +47,12 @@ type File struct {
 
 	ioLock *sync.Mutex
 
-	readOpReader *ioext.CounterReadCloser
-	readOpWriter io.WriteCloser
-
+	// Holds the content once it has been read from or written to
 	writeBuf      cache.WriteCache
 	cleanWriteBuf func() error
+	dirty         bool
+	closed        bool
+	modTime       time.Time
 
 	onHeader func(hdr *config.Header)
 	log      logging.StructuredLogger
@@ -109,7 +109,38 @@ func (f *File) syncWithoutLocking() error {
 		return config.ErrIsDirectory
 	}
 
-	if f.writeBuf != nil {
+	if f.writeBuf != nil && f.dirty {
+		// The attributes might have been changed since the file has been opened
+		hdr, err := inventory.Stat(
+			f.metadata,
+
+			f.path,
+			false,
+
+			f.onHeader,
+		)
+		if err != nil {
+			// Nothing to write to if the file has been removed since it has been opened
+			if err == sql.ErrNoRows {
+				return nil
+			}
+
+			return err
+		}
+
+		size, err := f.writeBuf.Size()
+		if err != nil {
+			return err
+		}
+
+		curr, err := f.writeBuf.Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+
+		hdr.Size = size
+		hdr.ModTime = f.modTime
+
 		done := false
 		if _, err := f.writeOps.Update(
 			func() (config.FileConfig, error) {
@@ -119,47 +150,19 @@ func (f *File) syncWithoutLocking() error {
 				}
 				done = true
 
-				size, err := f.writeBuf.Size()
-				if err != nil {
-					return config.FileConfig{}, err
-				}
-
-				// Some OSes like i.e. Windows don't support numeric GIDs and UIDs, so use 0 instead
-				gid := 0
-				uid := 0
-				modTime := f.info.ModTime()
-				accessTime := f.info.ModTime()
-				changeTime := f.info.ModTime()
-				sys, ok := f.info.Sys().(*Stat)
-				if ok {
-					gid = int(sys.Gid)
-					uid = int(sys.Uid)
-					accessTime = time.Unix(0, sys.Atim.Nano())
-					changeTime = time.Unix(0, sys.Ctim.Nano())
-				}
-
-				f.info = NewFileInfo(
-					f.info.Name(),
-					size,
-					f.info.Mode(),
-					modTime,
-					accessTime,
-					changeTime,
-					gid,
-					uid,
-					f.info.IsDir(),
-					f.log,
-				)
-
 				return config.FileConfig{
 					GetFile: func() (io.ReadSeekCloser, error) {
 						if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
 							return nil, err
 						}
 
-						return f.writeBuf, nil
+						// Don't close the buffer here, we want to re-use it!
+						return struct {
+							io.ReadSeeker
+							io.Closer
+						}{f.writeBuf, io.NopCloser(nil)}, nil
 					},
-					Info: f.info,
+					Info: hdr.FileInfo(),
 					Path: f.path,
 					Link: f.link,
 				}, nil
@@ -170,6 +173,13 @@ func (f *File) syncWithoutLocking() error {
 		); err != nil {
 			return err
 		}
+
+		f.dirty = false
+		f.info = NewFileInfoFromTarHeader(hdr, f.log)
+
+		if _, err := f.writeBuf.Seek(curr, io.SeekStart); err != nil {
+			return err
+		}
 	}
 
 	return nil
@@ -180,109 +190,125 @@ func (f *File) closeWithoutLocking() error {
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil {
-		if err := f.readOpReader.Close(); err != nil {
-			return err
-		}
-	}
+	f.closed = true
 
-	if f.readOpWriter != nil {
-		if err := f.readOpWriter.Close(); err != nil {
-			return err
-		}
+	if f.writeBuf == nil {
+		return nil
 	}
 
-	if f.writeBuf != nil {
-		// No need to close write buffer, the `update` operation closes it itself
-		if err := f.syncWithoutLocking(); err != nil {
-			return err
-		}
+	err := f.syncWithoutLocking()
 
-		if err := f.cleanWriteBuf(); err != nil {
-			return err
-		}
+	if closeErr := f.writeBuf.Close(); err == nil {
+		err = closeErr
+	}
+
+	if cleanErr := f.cleanWriteBuf(); err == nil {
+		err = cleanErr
 	}
 
-	f.readOpReader = nil
-	f.readOpWriter = nil
 	f.writeBuf = nil
+	f.cleanWriteBuf = nil
+	f.dirty = false
 
-	return nil
+	return err
 }
 
-func (f *File) enterWriteMode() error {
-	f.log.Trace("File.enterWriteMode", map[string]interface{}{
+// loadWithoutLocking reads the content into the buffer. It isn't streamed as the drive has to be free for
+// other operations in between two calls.
+func (f *File) loadWithoutLocking() (err error) {
+	f.log.Trace("File.loadWithoutLocking", map[string]interface{}{
 		"name": f.name,
 	})
 
-	if f.readOpReader != nil || f.readOpWriter != nil {
-		if err := f.closeWithoutLocking(); err != nil {
-			return err
-		}
+	if f.closed {
+		return os.ErrClosed
 	}
 
-	if f.writeBuf == nil {
-		exists := false
-		existingFile, err := inventory.Stat(
-			f.metadata,
+	if f.writeBuf != nil {
+		return nil
+	}
 
-			f.path,
-			false,
+	exists := false
+	existingFile, err := inventory.Stat(
+		f.metadata,
 
-			f.onHeader,
-		)
-		if err == nil {
-			if existingFile.Size != 0 {
-				exists = true
-			}
-		} else {
-			if err != sql.ErrNoRows {
-				return err
-			}
-		}
+		f.path,
+		false,
 
-		// Create new buffer
-		writeBuf, cleanWriteBuf, err := f.getFileBuffer()
-		if err != nil {
+		f.onHeader,
+	)
+	if err == nil {
+		if existingFile.Size != 0 {
+			exists = true
+		}
+	} else {
+		if err != sql.ErrNoRows {
 			return err
 		}
+	}
 
-		f.writeBuf = writeBuf
-		f.cleanWriteBuf = cleanWriteBuf
-
-		// Read existing file into buffer
-		if exists {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					// Don't close the file here, we want to re-use it!
-					return ioext.AddCloseNopToWriter(f.writeBuf), nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				return err
-			}
+	// Create new buffer
+	getFileBuffer := f.getFileBuffer
+	if getFileBuffer == nil {
+		getFileBuffer = func() (cache.WriteCache, func() error, error) {
+			return cache.NewCacheWrite(os.TempDir(), config.WriteCacheTypeFile)
 		}
+	}
 
-		if f.flags.Truncate {
-			if err := f.writeBuf.Truncate(0); err != nil {
-				return err
-			}
+	writeBuf, cleanWriteBuf, err := getFileBuffer()
+	if err != nil {
+		return err
+	}
+
+	defer func() {
+		if err != nil {
+			_ = writeBuf.Close()
+			_ = cleanWriteBuf()
 		}
+	}()
+
+	// Read existing file into buffer
+	if exists && !(f.flags.Write && f.flags.Truncate) {
+		if err := f.readOps.Restore(
+			func(path string, mode fs.FileMode) (io.WriteCloser, error) {
+				// Don't close the file here, we want to re-use it!
+				return ioext.AddCloseNopToWriter(writeBuf), nil
+			},
+			func(path string, mode fs.FileMode) error {
+				// Not necessary; can't read on a directory
+				return nil
+			},
 
-		if !f.flags.Append {
-			if _, err := f.writeBuf.Seek(0, io.SeekStart); err != nil {
-				return err
-			}
+			f.path,
+			"",
+			true,
+		); err != nil {
+			return err
 		}
 	}
 
+	if _, err := writeBuf.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+
+	f.writeBuf = writeBuf
+	f.cleanWriteBuf = cleanWriteBuf
+
+	return nil
+}
+
+func (f *File) enterWriteMode() error {
+	f.log.Trace("File.enterWriteMode", map[string]interface{}{
+		"name": f.name,
+	})
+
+	if err := f.loadWithoutLocking(); err != nil {
+		return err
+	}
+
+	f.dirty = true
+	f.modTime = time.Now()
+
 	return nil
 }
 
@@ -298,82 +324,71 @@ func (f *File) seekWithoutLocking(offset int64, whence int) (int64, error) {
 		return 0, nil
 	}
 
-	if f.writeBuf != nil {
-		return f.writeBuf.Seek(offset, whence)
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
 	}
 
-	dst := int64(0)
-	switch whence {
-	case io.SeekStart:
-		dst = offset
-	case io.SeekCurrent:
-		curr := 0
-		if f.readOpReader != nil {
-			curr = f.readOpReader.BytesRead
+	return f.writeBuf.Seek(offset, whence)
+}
+
+// readWithoutLocking reads until `p` is full or the end of the file has been reached
+func (f *File) readWithoutLocking(p []byte) (int, error) {
+	n := 0
+	for n < len(p) {
+		m, err := f.writeBuf.Read(p[n:])
+		n += m
+		if err != nil {
+			return n, err
 		}
-		dst = int64(curr) + offset
-	case io.SeekEnd:
-		dst = f.info.Size() - offset
-	default:
-		return -1, config.ErrNotImplemented
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil || dst < int64(f.readOpReader.BytesRead) { // We have to re-open as we can't seek backwards
-		_ = f.closeWithoutLocking() // Ignore errors here as it might not be opened
+	return n, nil
+}
+
+// at calls `do` with the cursor being at `off` and moves it back afterwards
+func (f *File) at(off int64, do func() (int, error)) (int, error) {
+	curr, err := f.writeBuf.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+
+	if _, err := f.writeBuf.Seek(off, io.SeekStart); err != nil {
+		return 0, err
+	}
 
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
+	n, err := do()
 
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
+	if _, seekErr := f.writeBuf.Seek(curr, io.SeekStart); err == nil {
+		err = seekErr
+	}
 
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
+	return n, err
+}
 
-		f.readOpReader = reader
-		f.readOpWriter = writer
+func (f *File) writeWithoutLocking(p []byte) (int, error) {
+	if f.info.IsDir() {
+		return 0, config.ErrIsDirectory
 	}
 
-	written, err := io.CopyN(io.Discard, f.readOpReader, dst-int64(f.readOpReader.BytesRead))
-	if err == io.EOF {
-		// Noop
-		switch whence {
-		case io.SeekStart:
-			return offset, nil
-		case io.SeekCurrent:
-			return int64(f.readOpReader.BytesRead) + offset, nil
-		case io.SeekEnd:
-			return int64(f.info.Size()) - offset, nil
-		default:
-			return -1, config.ErrNotImplemented
-		}
+	if !f.flags.Write {
+		return 0, os.ErrPermission
 	}
 
-	if err != nil {
-		return -1, err
+	if len(p) <= 0 {
+		return 0, nil
+	}
+
+	if err := f.enterWriteMode(); err != nil {
+		return 0, err
+	}
+
+	if f.flags.Append {
+		if _, err := f.writeBuf.Seek(0, io.SeekEnd); err != nil {
+			return 0, err
+		}
 	}
 
-	return written, nil
+	return f.writeBuf.Write(p)
 }
 
 // Inventory
@@ -408,24 +423,22 @@ func (f *File) Stat() (os.FileInfo, error) {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
+	info := *f.info
+
 	if f.writeBuf != nil {
 		size, err := f.writeBuf.Size()
 		if err != nil {
 			return nil, err
 		}
 
-		f.info.size = size
+		info.size = size
 	}
 
 	if f.link != "" {
-		info := f.info
-
 		info.name = path.Base(f.link)
-
-		return info, nil
 	}
 
-	return f.info, nil
+	return &info, nil
 }
 
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
@@ -466,10 +479,6 @@ func (f *File) Readdirnames(n int) ([]string, error) {
 		"n":    n,
 	})
 
-	if !f.info.IsDir() {
-		return []string{}, config.ErrIsFile
-	}
-
 	dirs, err := f.Readdir(n)
 	if err != nil {
 		return []string{}, err
@@ -490,8 +499,11 @@ func (f *File) Read(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -499,61 +511,19 @@ func (f *File) Read(p []byte) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if f.writeBuf != nil {
-		return f.writeBuf.Read(p)
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
 	}
 
-	if f.readOpReader == nil || f.readOpWriter == nil {
-		r, writer := io.Pipe()
-		reader := &ioext.CounterReadCloser{
-			Reader:    r,
-			BytesRead: 0,
-		}
-
-		go func() {
-			if err := f.readOps.Restore(
-				func(path string, mode fs.FileMode) (io.WriteCloser, error) {
-					return writer, nil
-				},
-				func(path string, mode fs.FileMode) error {
-					// Not necessary; can't read on a directory
-					return nil
-				},
-
-				f.path,
-				"",
-				true,
-			); err != nil {
-				if err == io.ErrClosedPipe {
-					return
-				}
-
-				// TODO: Handle error
-				panic(err)
-			}
-		}()
-
-		f.readOpReader = reader
-		f.readOpWriter = writer
-	}
-
-	w := &bytes.Buffer{}
-	_, err = io.CopyN(w, f.readOpReader, int64(len(p)))
-	if err == io.EOF {
-		return copy(p, w.Bytes()), io.EOF
+	n, err = f.readWithoutLocking(p)
+	if err == io.EOF && n > 0 {
+		return n, nil
 	}
 
-	if err != nil {
-		return -1, err
-	}
-
-	return copy(p, w.Bytes()), nil
+	return n, err
 }
 
 func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
@@ -563,8 +533,11 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if !f.flags.Read {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
 	if len(p) <= 0 {
@@ -572,14 +545,16 @@ func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
-	if _, err := f.Seek(off, io.SeekStart); err != nil {
-		return -1, err
+	if err := f.loadWithoutLocking(); err != nil {
+		return 0, err
 	}
 
-	return f.Read(p)
+	return f.at(off, func() (int, error) {
+		return f.readWithoutLocking(p)
+	})
 }
 
 // Read/write operations
@@ -603,27 +578,10 @@ func (f *File) Write(p []byte) (n int, err error) {
 		"p":    len(p),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	n, err = f.writeBuf.Write(p)
-	if err != nil {
-		return -1, err
-	}
-
-	return n, nil
+	return f.writeWithoutLocking(p)
 }
 
 func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
@@ -633,26 +591,32 @@ func (f *File) WriteAt(p []byte, off int64) (n int, err error) {
 		"off":  off,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
+		return 0, config.ErrIsDirectory
 	}
 
 	if !f.flags.Write {
-		return -1, os.ErrPermission
+		return 0, os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
+	if off < 0 {
+		return 0, os.ErrInvalid
+	}
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
+	if len(p) <= 0 {
+		return 0, nil
 	}
 
-	if _, err := f.seekWithoutLocking(off, io.SeekStart); err != nil {
-		return -1, err
+	if err := f.enterWriteMode(); err != nil {
+		return 0, err
 	}
 
-	return f.writeBuf.Write(p)
+	return f.at(off, func() (int, error) {
+		return f.writeBuf.Write(p)
+	})
 }
 
 func (f *File) WriteString(s string) (ret int, err error) {
@@ -661,22 +625,10 @@ func (f *File) WriteString(s string) (ret int, err error) {
 		"s":    len(s),
 	})
 
-	if f.info.IsDir() {
-		return -1, config.ErrIsDirectory
-	}
-
-	if !f.flags.Write {
-		return -1, os.ErrPermission
-	}
-
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if err := f.enterWriteMode(); err != nil {
-		return -1, err
-	}
-
-	return f.writeBuf.Write([]byte(s))
+	return f.writeWithoutLocking([]byte(s))
 }
 
 func (f *File) Truncate(size int64) error {
@@ -685,6 +637,9 @@ func (f *File) Truncate(size int64) error {
 		"size": size,
 	})
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	if f.info.IsDir() {
 		return config.ErrIsDirectory
 	}
@@ -693,37 +648,15 @@ func (f *File) Truncate(size int64) error {
 		return os.ErrPermission
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if err := f.enterWriteMode(); err != nil {
-		return err
+	if size < 0 {
+		return os.ErrInvalid
 	}
 
-	oldSize, err := f.writeBuf.Size()
-	if err != nil {
-		return err
-	}
-
-	if size > oldSize {
-		if err := f.writeBuf.Truncate(0); err != nil {
-			return err
-		}
-
-		for i := int64(0); i < size; i++ {
-			if _, err := f.writeBuf.Write(make([]byte, 1)); err != nil {
-				return err
-			}
-		}
-
-		return nil
-	}
-
-	if err := f.writeBuf.Truncate(size); err != nil {
+	if err := f.enterWriteMode(); err != nil {
 		return err
 	}
 
-	return nil
+	return f.writeBuf.Truncate(size)
 }
 
 // Cleanup operations
-- 
2.43.0


From 3322955e69b74beeaeb1d5c552c545dff5421dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 15/24] fix: create missing ancestors, replace rename targets,
 refuse invalid renames and honour O_EXCL and O_TRUNC

---
 pkg/fs/filesystem.go | 227 ++++++++++++++++++++++++++++---------------
 1 file changed, 148 insertions(+), 79 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 6348bc4..027389c 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -11,6 +11,7 @@ import (
 	"path"
 	"path/filepath"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -96,22 +97,32 @@ func (f *STFS) Create(name string) (afero.File, error) {
 
 	name = cleanName(name)
 
-	if _, err := inventory.Stat(
+	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+}
+
+// checkParentWithoutLocking checks if the parent of `name` exists and is a directory
+func (f *STFS) checkParentWithoutLocking(name string) error {
+	parent, err := inventory.Stat(
 		f.metadata,
 
 		filepath.Dir(name),
 		false,
 
 		f.onHeader,
-	); err != nil {
+	)
+	if err != nil {
 		if err == sql.ErrNoRows {
-			return nil, os.ErrNotExist
+			return os.ErrNotExist
 		}
 
-		return nil, err
+		return err
 	}
 
-	return f.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
+	if parent.Typeflag != tar.TypeDir {
+		return config.ErrIsFile
+	}
+
+	return nil
 }
 
 func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, overwrite bool, linkname string, initializing bool) error {
@@ -213,12 +224,12 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
 	if err == config.ErrNoRootDirectory {
-		mkdirRoot := func() (string, error) {
+		mkdirRoot := func(overwrite bool) (string, error) {
 			if f.readOnly {
 				return "", os.ErrPermission
 			}
 
-			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, true, "", true); err != nil {
+			if err := f.mknodeWithoutLocking(true, rootProposal, rootPerm, overwrite, "", true); err != nil {
 				return "", err
 			}
 
@@ -230,7 +241,7 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 		if err != nil {
 			// There is no tape yet
 			if errors.Is(err, os.ErrNotExist) {
-				return mkdirRoot()
+				return mkdirRoot(true)
 			}
 
 			return "", err
@@ -269,7 +280,7 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 		if err != nil {
 			// Reading from a blank tape fails
 			if !reader.DriveIsRegular && !sawRecord {
-				return mkdirRoot()
+				return mkdirRoot(true)
 			}
 
 			// Don't shadow what is already on the tape with a new root
@@ -279,8 +290,8 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 		// Ensure that the new root path is being used
 		existingRoot, err = f.metadata.Metadata.GetRootPath(context.Background())
 		if err == config.ErrNoRootDirectory {
-			// There is nothing on the tape yet
-			return mkdirRoot()
+			// There is nothing on the tape (anymore)
+			return mkdirRoot(!sawRecord)
 		}
 
 		return existingRoot, err
@@ -306,18 +317,7 @@ func (f *STFS) Mkdir(name string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(name),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(name); err != nil {
 		return err
 	}
 
@@ -361,16 +361,13 @@ func (f *STFS) MkdirAll(path string, perm os.FileMode) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	parts := filepath.SplitList(path)
-	currentPath := ""
-
-	for _, part := range parts {
-		if currentPath == "" {
-			currentPath = part
-		} else {
-			currentPath = filepath.Join(currentPath, part)
-		}
+	// Create the ancestors first
+	paths := []string{path}
+	for parent := filepath.Dir(path); parent != paths[0]; parent = filepath.Dir(parent) {
+		paths = append([]string{parent}, paths...)
+	}
 
+	for _, currentPath := range paths {
 		if hdr, err := inventory.Stat(
 			f.metadata,
 
@@ -463,6 +460,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	created := false
 	hdr, err := inventory.Stat(
 		f.metadata,
 
@@ -483,19 +481,12 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 			)
 
 			createFile := func() error {
-				if !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL == 0 {
-					if _, err := inventory.Stat(
-						f.metadata,
-
-						filepath.Dir(name),
-						false,
-
-						f.onHeader,
-					); err != nil {
-						if err == sql.ErrNoRows {
-							return os.ErrNotExist
-						}
+				if flag&os.O_CREATE != 0 {
+					if f.readOnly {
+						return os.ErrPermission
+					}
 
+					if err := f.checkParentWithoutLocking(name); err != nil {
 						return err
 					}
 
@@ -515,6 +506,7 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 					if err := f.mknodeWithoutLocking(false, name, perm, false, "", false); err != nil {
 						return err
 					}
+					created = true
 
 					hdr, err = inventory.Stat(
 						f.metadata,
@@ -586,12 +578,17 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 		}
 	}
 
+	// Prevent opening an existing file if it has to be created
+	if !created && !f.readOnly && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		return nil, os.ErrExist
+	}
+
 	// Prevent opening a directory as writable
 	if hdr.Typeflag == tar.TypeDir && (flags.Write || flags.Append || flags.Truncate) {
 		return nil, config.ErrIsDirectory
 	}
 
-	return NewFile(
+	file := NewFile(
 		f.readOps,
 		f.writeOps,
 
@@ -610,7 +607,16 @@ func (f *STFS) OpenFile(name string, flag int, perm os.FileMode) (afero.File, er
 
 		f.onHeader,
 		f.log,
-	), nil
+	)
+
+	// The file is empty from now on, even if nothing is written to it
+	if flags.Write && flags.Truncate && hdr.Size > 0 {
+		if err := file.enterWriteMode(); err != nil {
+			return nil, err
+		}
+	}
+
+	return file, nil
 }
 
 func (f *STFS) Remove(name string) error {
@@ -687,7 +693,7 @@ func (f *STFS) removeWithoutLocking(name string) error {
 		}
 	}
 
-	return f.writeOps.Delete(name)
+	return f.writeOps.Delete(hdr.Name)
 }
 
 func (f *STFS) RemoveAll(path string) error {
@@ -699,12 +705,62 @@ func (f *STFS) RemoveAll(path string) error {
 		return os.ErrPermission
 	}
 
+	if checkName(path) {
+		return nil
+	}
+
 	path = cleanName(path)
 
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	err := f.writeOps.Delete(path)
+	root, err := f.metadata.Metadata.GetRootPath(context.Background())
+	if err != nil {
+		if err == config.ErrNoRootDirectory {
+			return nil
+		}
+
+		return err
+	}
+
+	hdr, err := inventory.Stat(
+		f.metadata,
+
+		path,
+		false,
+
+		f.onHeader,
+	)
+	if err == nil {
+		path = hdr.Name
+	} else if err != sql.ErrNoRows {
+		return err
+	}
+
+	// Keep the root directory itself, without it nothing could be created anymore
+	if path == root {
+		hdrs, err := inventory.List(
+			f.metadata,
+
+			path,
+			-1,
+
+			f.onHeader,
+		)
+		if err != nil {
+			return err
+		}
+
+		for _, hdr := range hdrs {
+			if err := f.writeOps.Delete(hdr.Name); err != nil && !errors.Is(err, sql.ErrNoRows) {
+				return err
+			}
+		}
+
+		return nil
+	}
+
+	err = f.writeOps.Delete(path)
 	if errors.Is(err, sql.ErrNoRows) {
 		return nil
 	}
@@ -736,7 +792,7 @@ func (f *STFS) Rename(oldname, newname string) error {
 	f.ioLock.Lock()
 	defer f.ioLock.Unlock()
 
-	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname {
+	if root, err := f.metadata.Metadata.GetRootPath(context.Background()); err != nil || root == oldname || pathext.IsRoot(oldname, false) {
 		return os.ErrInvalid
 	}
 
@@ -770,21 +826,16 @@ func (f *STFS) Rename(oldname, newname string) error {
 		}
 	}
 
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
+	// Prevent moving a directory into itself
+	if strings.HasPrefix(path.Join("/", newname)+"/", path.Join("/", source.Name)+"/") && source.Typeflag == tar.TypeDir &&
+		path.Join("/", newname) != path.Join("/", source.Name) {
+		return os.ErrInvalid
+	}
+
 	target, err := inventory.Stat(
 		f.metadata,
 
@@ -794,18 +845,47 @@ func (f *STFS) Rename(oldname, newname string) error {
 		f.onHeader,
 	)
 	if err == nil {
+		// Ignore no-op renames
+		if target.Name == source.Name {
+			return nil
+		}
+
 		if target.Typeflag != source.Typeflag {
 			return os.ErrExist
 		}
 
-		if err := f.removeWithoutLocking(newname); err != nil {
-			return err
+		if target.Typeflag == tar.TypeDir {
+			hdrs, err := inventory.List(
+				f.metadata,
+
+				target.Name,
+				-1,
+
+				f.onHeader,
+			)
+			if err != nil {
+				return err
+			}
+
+			if len(hdrs) > 0 {
+				return config.ErrDirectoryNotEmpty
+			}
 		}
 
+		if strings.HasSuffix(target.Name, "/") {
+			// Members of foreign archives might have a different name from the one which the source will have
+			if err := f.removeWithoutLocking(newname); err != nil {
+				return err
+			}
+		} else {
+			// Moving replaces the target
+			newname = target.Name
+		}
+	} else if err != sql.ErrNoRows {
 		return err
 	}
 
-	return f.writeOps.Move(oldname, newname)
+	return f.writeOps.Move(source.Name, newname)
 }
 
 func (f *STFS) Stat(name string) (os.FileInfo, error) {
@@ -1157,6 +1237,9 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return os.ErrInvalid
 	}
 
+	f.ioLock.Lock()
+	defer f.ioLock.Unlock()
+
 	var err error
 	rawOldName := oldname
 	oldname, err = f.resolveCleanName(oldname, true)
@@ -1170,21 +1253,7 @@ func (f *STFS) SymlinkIfPossible(oldname, newname string) error {
 		return err
 	}
 
-	f.ioLock.Lock()
-	defer f.ioLock.Unlock()
-
-	if _, err := inventory.Stat(
-		f.metadata,
-
-		filepath.Dir(newname),
-		false,
-
-		f.onHeader,
-	); err != nil {
-		if err == sql.ErrNoRows {
-			return os.ErrNotExist
-		}
-
+	if err := f.checkParentWithoutLocking(newname); err != nil {
 		return err
 	}
 
-- 
2.43.0


From e74156eb07caafe4c710fd78b424a252973328bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 16/24] fix: write whole records to tapes, independently of the
 length of individual writes

---
 internal/tarext/write.go | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/internal/tarext/write.go b/internal/tarext/write.go
index af6a251..f0d726e 100644
--- a/internal/tarext/write.go
+++ b/internal/tarext/write.go
@@ -16,7 +16,7 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 		tw = tar.NewWriter(f)
 	} else {
 		bw = bufio.NewWriterSize(f, config.MagneticTapeBlockSize*recordSize)
-		counter = &ioext.CounterWriter{Writer: bw, BytesRead: 0}
+		counter = &ioext.CounterWriter{Writer: &recordWriter{bw}, BytesRead: 0}
 		tw = tar.NewWriter(counter)
 	}
 
@@ -28,9 +28,9 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 			}
 
 			if !isRegular {
-				if config.MagneticTapeBlockSize*recordSize-counter.BytesRead > 0 {
-					// Fill the rest of the record with zeros
-					if _, err := bw.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-counter.BytesRead)); err != nil {
+				if partial := counter.BytesRead % (config.MagneticTapeBlockSize * recordSize); partial > 0 {
+					// Fill the rest of the last record with zeros
+					if _, err := counter.Write(make([]byte, config.MagneticTapeBlockSize*recordSize-partial)); err != nil {
 						return err
 					}
 				}
@@ -44,3 +44,35 @@ func NewTapeWriter(f io.Writer, isRegular bool, recordSize int) (tw *tar.Writer,
 		return nil
 	}, nil
 }
+
+// recordWriter writes whole records; without it, `bufio.Writer` would pass long writes on as they are, and the tape
+// would have records of other sizes than the one by which positions are calculated
+type recordWriter struct {
+	bw *bufio.Writer
+}
+
+func (w *recordWriter) Write(p []byte) (int, error) {
+	n := 0
+	for len(p) > 0 {
+		if w.bw.Available() == 0 {
+			if err := w.bw.Flush(); err != nil {
+				return n, err
+			}
+		}
+
+		part := p
+		if len(part) > w.bw.Available() {
+			part = part[:w.bw.Available()]
+		}
+
+		written, err := w.bw.Write(part)
+		n += written
+		if err != nil {
+			return n, err
+		}
+
+		p = p[len(part):]
+	}
+
+	return n, nil
+}
-- 
2.43.0


From b338fd1706bd7822a9a1a10ad9ffd9520665aaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 17/24] fix: sanitize the locations of links like names, so
 that links survive a rebuild of the index

---
 pkg/persisters/metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index 9a8b064..b1be555 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -105,6 +105,9 @@ func (p *MetadataPersister) UpsertHeader(ctx context.Context, dbhdr *config.Head
 	hdr := *idbhdr
 	if !initializing {
 		hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+		if idbhdr.Linkname != "" {
+			hdr.Linkname = p.getSanitizedPath(ctx, idbhdr.Linkname)
+		}
 	}
 
 	if _, err := models.Headers(
@@ -132,6 +135,9 @@ func (p *MetadataPersister) UpdateHeaderMetadata(ctx context.Context, dbhdr *con
 
 	hdr := *idbhdr
 	hdr.Name = p.getSanitizedPath(ctx, idbhdr.Name)
+	if idbhdr.Linkname != "" {
+		hdr.Linkname = p.getSanitizedPath(ctx, idbhdr.Linkname)
+	}
 
 	if _, err := hdr.Update(ctx, p.sqlite.DB, boil.Infer()); err != nil {
 		return err
-- 
2.43.0


From 309baae8dd989955c1296eefc22fa3ba87f73ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 18/24] fix: don't restore unsigned content of non-regular
 members if signatures are enabled

---
 pkg/recovery/fetch.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/recovery/fetch.go b/pkg/recovery/fetch.go
index c2ea6ff..e159700 100644
--- a/pkg/recovery/fetch.go
+++ b/pkg/recovery/fetch.go
@@ -102,10 +102,16 @@ func Fetch(
 
 		// Don't decompress non-regular files
 		if !hdr.FileInfo().Mode().IsRegular() {
-			if _, err := io.Copy(dstFile, tr); err != nil {
+			n, err := io.Copy(dstFile, tr)
+			if err != nil {
 				return err
 			}
 
+			// There is no signature for the content of non-regular files, so there must not be any
+			if n > 0 && pipes.Signature != config.NoneKey {
+				return config.ErrSignatureMissing
+			}
+
 			dstClosed = true
 
 			return dstFile.Close()
-- 
2.43.0


From 9965a59c878b843182769b8d760a5211d6849d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 19/24] fix: complete interrupted members before appending, so
 that they don't swallow what follows

---
 pkg/operations/archive.go | 10 ++++-
 pkg/operations/delete.go  |  7 +++-
 pkg/operations/move.go    |  7 +++-
 pkg/operations/tail.go    | 84 +++++++++++++++++++++++++++++++++++++++
 pkg/operations/update.go  |  7 +++-
 5 files changed, 111 insertions(+), 4 deletions(-)
 create mode 100644 pkg/operations/tail.go

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 61bc4d5..50f1975 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -42,6 +42,14 @@ func (o *Operations) archive(
 	overwrite bool,
 	initializing bool,
 ) ([]*tar.Header, error) {
+	missing := int64(0)
+	if !overwrite {
+		var err error
+		missing, err = o.getMissingTail()
+		if err != nil {
+			return []*tar.Header{}, err
+		}
+	}
 
 	writer, err := o.backend.GetWriter()
 	if err != nil {
@@ -55,7 +63,7 @@ func (o *Operations) archive(
 	}()
 
 	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
+	tw, cleanup, err := tarext.NewTapeWriter(&completingWriter{writer.Drive, missing}, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
diff --git a/pkg/operations/delete.go b/pkg/operations/delete.go
index daf1c7b..ca5af4d 100644
--- a/pkg/operations/delete.go
+++ b/pkg/operations/delete.go
@@ -21,6 +21,11 @@ func (o *Operations) Delete(name string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
+	missing, err := o.getMissingTail()
+	if err != nil {
+		return err
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return err
@@ -33,7 +38,7 @@ func (o *Operations) Delete(name string) error {
 	}()
 
 	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
+	tw, cleanup, err := tarext.NewTapeWriter(&completingWriter{writer.Drive, missing}, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/operations/move.go b/pkg/operations/move.go
index 07c3094..5b3a871 100644
--- a/pkg/operations/move.go
+++ b/pkg/operations/move.go
@@ -28,6 +28,11 @@ func (o *Operations) Move(from string, to string) error {
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
+	missing, err := o.getMissingTail()
+	if err != nil {
+		return err
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return err
@@ -40,7 +45,7 @@ func (o *Operations) Move(from string, to string) error {
 	}()
 
 	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
+	tw, cleanup, err := tarext.NewTapeWriter(&completingWriter{writer.Drive, missing}, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/operations/tail.go b/pkg/operations/tail.go
new file mode 100644
index 0000000..59f1f26
--- /dev/null
+++ b/pkg/operations/tail.go
@@ -0,0 +1,84 @@
+package operations
+
+import (
+	"archive/tar"
+	"context"
+	"errors"
+	"io"
+	"os"
+
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// completingWriter writes `missing` zeros before the first write
+type completingWriter struct {
+	drive   io.Writer
+	missing int64
+}
+
+func (w *completingWriter) Write(p []byte) (int, error) {
+	if w.missing > 0 {
+		n, err := io.CopyN(w.drive, zeroReader{}, w.missing)
+		w.missing -= n
+		if err != nil {
+			return 0, err
+		}
+	}
+
+	return w.drive.Write(p)
+}
+
+// getMissingTail returns how many bytes, starting from the next block, the content of the last indexed member
+// lacks because writing it has been interrupted. Without completing it first, everything which is appended would
+// become a part of it.
+func (o *Operations) getMissingTail() (int64, error) {
+	reader, err := o.backend.GetReader()
+	if err != nil {
+		// There is no tape yet
+		if errors.Is(err, os.ErrNotExist) {
+			return 0, nil
+		}
+
+		return 0, err
+	}
+	defer o.backend.CloseReader()
+
+	if !reader.DriveIsRegular {
+		return 0, nil
+	}
+
+	record, block, err := o.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), o.pipes.RecordSize)
+	if err != nil {
+		return 0, err
+	}
+
+	if _, err := reader.Drive.Seek((int64(o.pipes.RecordSize)*record+block)*config.MagneticTapeBlockSize, io.SeekStart); err != nil {
+		return 0, err
+	}
+
+	hdr, err := tar.NewReader(reader.Drive).Next()
+	if err != nil {
+		// There is no such member, i.e. because the tape is empty
+		return 0, nil
+	}
+
+	start, err := reader.Drive.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+
+	end, err := reader.Drive.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+
+	blocks := func(size int64) int64 {
+		return (size + config.MagneticTapeBlockSize - 1) / config.MagneticTapeBlockSize
+	}
+
+	if missing := blocks(start+hdr.Size) - blocks(end); missing > 0 {
+		return missing * config.MagneticTapeBlockSize, nil
+	}
+
+	return 0, nil
+}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 6cda5fd..472d32b 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -28,6 +28,11 @@ func (o *Operations) Update(
 	o.diskOperationLock.Lock()
 	defer o.diskOperationLock.Unlock()
 
+	missing, err := o.getMissingTail()
+	if err != nil {
+		return []*tar.Header{}, err
+	}
+
 	writer, err := o.backend.GetWriter()
 	if err != nil {
 		return []*tar.Header{}, err
@@ -40,7 +45,7 @@ func (o *Operations) Update(
 	}()
 
 	dirty := false
-	tw, cleanup, err := tarext.NewTapeWriter(writer.Drive, writer.DriveIsRegular, o.pipes.RecordSize)
+	tw, cleanup, err := tarext.NewTapeWriter(&completingWriter{writer.Drive, missing}, writer.DriveIsRegular, o.pipes.RecordSize)
 	if err != nil {
 		return []*tar.Header{}, err
 	}
-- 
2.43.0


From e81082c6858ac467bff43c961579d5237f64a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 20/24] fix: index what has been appended to the tape when
 opening it with a stale index

---
 pkg/fs/filesystem.go | 117 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 92 insertions(+), 25 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index 027389c..f6b428f 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -213,6 +213,83 @@ func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, ove
 	return nil
 }
 
+// indexWithoutLocking indexes the tape starting from `record` and `block` while skipping `offset` members
+func (f *STFS) indexWithoutLocking(reader config.DriveReaderConfig, record, block int, overwrite bool, offset int, onRecord func()) error {
+	return recovery.Index(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetMetadata(),
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		record,
+		block,
+		overwrite,
+		false,
+		offset,
+
+		func(hdr *tar.Header, i int) error {
+			onRecord()
+
+			return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
+		},
+		func(hdr *tar.Header, isRegular bool) error {
+			return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
+		},
+
+		f.onHeader,
+	)
+}
+
+// catchUpWithoutLocking indexes what has been appended to the tape since it has been indexed. If what has been
+// indexed last isn't on the tape (anymore), it reports that the index has to be rebuilt.
+func (f *STFS) catchUpWithoutLocking() (rebuild bool, err error) {
+	reader, err := f.readOps.GetBackend().GetReader()
+	if err != nil {
+		// There is no tape yet
+		if errors.Is(err, os.ErrNotExist) {
+			return false, nil
+		}
+
+		return false, err
+	}
+	defer func() {
+		if closeErr := f.readOps.GetBackend().CloseReader(); err == nil {
+			err = closeErr
+		}
+	}()
+
+	record, block, err := f.metadata.Metadata.GetLastIndexedRecordAndBlock(context.Background(), f.readOps.GetPipes().RecordSize)
+	if err != nil {
+		return false, err
+	}
+
+	if err := recovery.Fetch(
+		reader,
+		f.readOps.GetBackend().MagneticTapeIO,
+		f.readOps.GetPipes(),
+		f.readOps.GetCrypto(),
+
+		nil, // Not required as only the header is being read
+		nil,
+
+		int(record),
+		int(block),
+		"",
+		true,
+
+		nil,
+	); err != nil {
+		if err == io.EOF || err == io.ErrUnexpectedEOF || err == tar.ErrHeader || err == tar.ErrFieldTooLong || !reader.DriveIsRegular {
+			return true, nil
+		}
+
+		return false, err
+	}
+
+	return false, f.indexWithoutLocking(reader, int(record), int(block), false, 1, func() {})
+}
+
 func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root string, err error) {
 	f.log.Debug("FileSystem.InitializeIfEmpty", map[string]interface{}{
 		"rootProposal": rootProposal,
@@ -223,7 +300,20 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 	defer f.ioLock.Unlock()
 
 	existingRoot, err := f.metadata.Metadata.GetRootPath(context.Background())
-	if err == config.ErrNoRootDirectory {
+	rebuild := err == config.ErrNoRootDirectory
+	if err == nil && !f.readOnly {
+		rebuild, err = f.catchUpWithoutLocking()
+		if err != nil {
+			return "", err
+		}
+
+		if !rebuild {
+			existingRoot, err = f.metadata.Metadata.GetRootPath(context.Background())
+			rebuild = err == config.ErrNoRootDirectory
+		}
+	}
+
+	if rebuild {
 		mkdirRoot := func(overwrite bool) (string, error) {
 			if f.readOnly {
 				return "", os.ErrPermission
@@ -248,30 +338,7 @@ func (f *STFS) Initialize(rootProposal string, rootPerm os.FileMode) (root strin
 		}
 
 		sawRecord := false
-		err = recovery.Index(
-			reader,
-			f.readOps.GetBackend().MagneticTapeIO,
-			f.readOps.GetMetadata(),
-			f.readOps.GetPipes(),
-			f.readOps.GetCrypto(),
-
-			0,
-			0,
-			true,
-			false,
-			0,
-
-			func(hdr *tar.Header, i int) error {
-				sawRecord = true
-
-				return encryption.DecryptHeader(hdr, f.readOps.GetPipes().Encryption, f.readOps.GetCrypto().Identity)
-			},
-			func(hdr *tar.Header, isRegular bool) error {
-				return signature.VerifyHeader(hdr, isRegular, f.readOps.GetPipes().Signature, f.readOps.GetCrypto().Recipient)
-			},
-
-			f.onHeader,
-		)
+		err = f.indexWithoutLocking(reader, 0, 0, true, 0, func() { sawRecord = true })
 
 		if closeErr := f.readOps.GetBackend().CloseReader(); err == nil {
 			err = closeErr
-- 
2.43.0


From 757524e451834bb28bf5c79074ad401d55711ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 21/24] fix: don't complete a torn header by aligning the end
 of the tape

---
 pkg/tape/manager.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pkg/tape/manager.go b/pkg/tape/manager.go
index d92fcfa..36198f3 100644
--- a/pkg/tape/manager.go
+++ b/pkg/tape/manager.go
@@ -1,6 +1,7 @@
 package tape
 
 import (
+	"bytes"
 	"io"
 	"os"
 	"sync"
@@ -147,7 +148,12 @@ func (w *aligningWriter) Write(p []byte) (int, error) {
 		}
 
 		if partial := stat.Size() % config.MagneticTapeBlockSize; partial != 0 {
-			if _, err := w.file.Write(make([]byte, config.MagneticTapeBlockSize-partial)); err != nil {
+			padding, err := w.getPadding(stat.Size()-partial, partial)
+			if err != nil {
+				return 0, err
+			}
+
+			if _, err := w.file.Write(padding); err != nil {
 				return 0, err
 			}
 		}
@@ -157,3 +163,27 @@ func (w *aligningWriter) Write(p []byte) (int, error) {
 
 	return w.file.Write(p)
 }
+
+// getPadding returns what the partial block at `offset` has to be filled up with. Headers end with zeros, so if a
+// partial block was always filled up with zeros then it might become a valid header after it has been discarded.
+func (w *aligningWriter) getPadding(offset, partial int64) ([]byte, error) {
+	file, err := os.Open(w.file.Name())
+	if err != nil {
+		return nil, err
+	}
+	defer file.Close()
+
+	block := make([]byte, partial)
+	if _, err := file.ReadAt(block, offset); err != nil {
+		return nil, err
+	}
+
+	padding := make([]byte, config.MagneticTapeBlockSize-partial)
+	for _, b := range block {
+		if b != 0 {
+			return bytes.Repeat([]byte{0xff}, len(padding)), nil
+		}
+	}
+
+	return padding, nil
+}
-- 
2.43.0


From 514947ae5dde69b51741e62f3fdc438e1c3e6661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 22/24] fix: compress content the same way when measuring and
 when writing it

---
 pkg/operations/archive.go | 22 ++++------------------
 pkg/operations/copy.go    | 34 ++++++++++++++++++++++++++++++++++
 pkg/operations/update.go  | 22 ++++------------------
 3 files changed, 42 insertions(+), 36 deletions(-)
 create mode 100644 pkg/operations/copy.go

diff --git a/pkg/operations/archive.go b/pkg/operations/archive.go
index 50f1975..0b9fb7d 100644
--- a/pkg/operations/archive.go
+++ b/pkg/operations/archive.go
@@ -140,15 +140,8 @@ func (o *Operations) archive(
 				return []*tar.Header{}, err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
-				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
-				}
+			if err := copyContent(compressor, signer, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+				return []*tar.Header{}, err
 			}
 
 			if err := compressor.Flush(); err != nil {
@@ -244,15 +237,8 @@ func (o *Operations) archive(
 			return []*tar.Header{}, err
 		}
 
-		if writer.DriveIsRegular {
-			if _, err := io.Copy(compressor, f); err != nil {
-				return []*tar.Header{}, err
-			}
-		} else {
-			buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-			if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
-				return []*tar.Header{}, err
-			}
+		if err := copyContent(compressor, f, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+			return []*tar.Header{}, err
 		}
 
 		if err := compressor.Flush(); err != nil {
diff --git a/pkg/operations/copy.go b/pkg/operations/copy.go
new file mode 100644
index 0000000..d29c5a6
--- /dev/null
+++ b/pkg/operations/copy.go
@@ -0,0 +1,34 @@
+package operations
+
+import (
+	"io"
+
+	"github.com/pojntfx/stfs/pkg/config"
+)
+
+// copyContent copies `src` to `dst` in writes of the same length, no matter how `src` hands out its content. What
+// some compression formats write depends on it, and the size of a member has to be known before it is written.
+func copyContent(dst io.Writer, src io.Reader, isRegular bool, recordSize int) error {
+	bufSize := 32 * 1024
+	if !isRegular {
+		bufSize = config.MagneticTapeBlockSize * recordSize
+	}
+
+	buf := make([]byte, bufSize)
+	for {
+		n, err := io.ReadFull(src, buf)
+		if n > 0 {
+			if _, err := dst.Write(buf[:n]); err != nil {
+				return err
+			}
+		}
+
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			return nil
+		}
+
+		if err != nil {
+			return err
+		}
+	}
+}
diff --git a/pkg/operations/update.go b/pkg/operations/update.go
index 472d32b..7aa754c 100644
--- a/pkg/operations/update.go
+++ b/pkg/operations/update.go
@@ -129,15 +129,8 @@ func (o *Operations) Update(
 				return []*tar.Header{}, err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, signer); err != nil {
-					return []*tar.Header{}, err
-				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, signer, buf); err != nil {
-					return []*tar.Header{}, err
-				}
+			if err := copyContent(compressor, signer, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+				return []*tar.Header{}, err
 			}
 
 			if err := compressor.Flush(); err != nil {
@@ -236,15 +229,8 @@ func (o *Operations) Update(
 				return []*tar.Header{}, err
 			}
 
-			if writer.DriveIsRegular {
-				if _, err := io.Copy(compressor, f); err != nil {
-					return []*tar.Header{}, err
-				}
-			} else {
-				buf := make([]byte, config.MagneticTapeBlockSize*o.pipes.RecordSize)
-				if _, err := io.CopyBuffer(compressor, f, buf); err != nil {
-					return []*tar.Header{}, err
-				}
+			if err := copyContent(compressor, f, writer.DriveIsRegular, o.pipes.RecordSize); err != nil {
+				return []*tar.Header{}, err
 			}
 
 			if err := compressor.Flush(); err != nil {
-- 
2.43.0


From e9a31fa0f3d5f1aa195f3531c522aeebbbbce08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 23/24] fix: list links with the kind and size of what they
 refer to

Select the name and the link name for links, too: without the name they have
all been resolved to the root directory.
---
 pkg/persisters/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/persisters/metadata.go b/pkg/persisters/metadata.go
index b1be555..e1556c6 100644
--- a/pkg/persisters/metadata.go
+++ b/pkg/persisters/metadata.go
@@ -344,8 +344,8 @@ where substr(%v, 1, length(?)) = ?
 			models.HeaderColumns.Lastknownblock,
 			models.HeaderColumns.Deleted,
 			models.HeaderColumns.Typeflag,
-			pk,
-			exclude,
+			models.HeaderColumns.Name,
+			models.HeaderColumns.Linkname,
 			models.HeaderColumns.Size,
 			models.HeaderColumns.Mode,
 			models.HeaderColumns.UID,
-- 
2.43.0


From 77dfaa6e1497f6cc8a5e6def8ef4b877b499d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 24/24] fix: keep setuid, setgid and sticky bits of new entries
 and in Chmod

---
 pkg/fs/filesystem.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/filesystem.go b/pkg/fs/filesystem.go
index f6b428f..9fc8ec5 100644
--- a/pkg/fs/filesystem.go
+++ b/pkg/fs/filesystem.go
@@ -178,7 +178,7 @@ func (f *STFS) mknodeWithoutLocking(dir bool, name string, perm os.FileMode, ove
 		Name:     name,
 		Linkname: linkname,
 
-		Mode:  int64(perm),
+		Mode:  headerMode(perm),
 		Uid:   uid,
 		Gid:   gid,
 		Uname: usr.Username,
@@ -1029,6 +1029,22 @@ func (f *STFS) updateMetadata(hdr *tar.Header) error {
 	return nil
 }
 
+// headerMode returns the mode for a header, which has other bits than `os.FileMode` for setuid, setgid and sticky
+func headerMode(mode os.FileMode) int64 {
+	m := int64(mode.Perm())
+	if mode&os.ModeSetuid != 0 {
+		m += 0o4000
+	}
+	if mode&os.ModeSetgid != 0 {
+		m += 0o2000
+	}
+	if mode&os.ModeSticky != 0 {
+		m += 0o1000
+	}
+
+	return m
+}
+
 func (f *STFS) Chmod(name string, mode os.FileMode) error {
 	f.log.Debug("FileSystem.Chmod", map[string]interface{}{
 		"name": name,
@@ -1094,7 +1110,7 @@ func (f *STFS) Chmod(name string, mode os.FileMode) error {
 		}
 	}
 
-	hdr.Mode = int64(mode)
+	hdr.Mode = headerMode(mode)
 
 	return f.updateMetadata(hdr)
 }
-- 
2.43.0

