From eb0fbb490b75484cdd936e6ea43c1adb36dbc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 01/24] fix: read id sets through partial reads, count
 transferred bytes, refuse overlong sets

Set8/Set16.ReadFrom ignored how many bytes a Read delivered, so any reader
splitting data (or returning the last bytes together with io.EOF) produced
zero-filled sets reported as success. Byte counters missed partially
transferred values and WriteTo wrapped the length of sets the format can't hold.
---
 pkg/common/full_reader.go | 21 +++++++++++++++++++++
 pkg/storage/set16.go      | 28 +++++++++++++---------------
 pkg/storage/set8.go       | 28 +++++++++++++---------------
 3 files changed, 47 insertions(+), 30 deletions(-)
 create mode 100644 pkg/common/full_reader.go

diff --git a/pkg/common/full_reader.go b/pkg/common/full_reader.go
new file mode 100644
index 0000000..309e959
--- /dev/null
+++ b/pkg/common/full_reader.go
@@ -0,0 +1,21 @@
+package common
+
+import "io"
+
+// fullReader implements io.Reader filling requested buffers completely.
+type fullReader struct {
+	source io.Reader
+}
+
+// FullReader wraps source with a reader which either fills a whole requested buffer or fails.
+// Usual io.Reader is free to deliver less bytes than requested or to deliver last bytes together with io.EOF,
+// so readers expecting exact amount of bytes should use it.
+// Returns io.EOF if nothing was delivered at all or io.ErrUnexpectedEOF if buffer filled partially.
+func FullReader(source io.Reader) io.Reader {
+	return fullReader{source: source}
+}
+
+// Read fills p using underlying reader. Implements io.Reader.
+func (r fullReader) Read(p []byte) (n int, err error) {
+	return io.ReadFull(r.source, p)
+}
diff --git a/pkg/storage/set16.go b/pkg/storage/set16.go
index 4fc7ef8..24a312d 100644
--- a/pkg/storage/set16.go
+++ b/pkg/storage/set16.go
@@ -3,9 +3,12 @@ package storage //nolint:godupl
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet16 identifies Set16 related errors.
@@ -56,24 +59,22 @@ func (set16 Set16) EqualTo(another Set16) bool {
 // Returns written bytes count and error if occurs.
 // Implements io.WriterTo.
 func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
-	var written int
+	if len(set16) > math.MaxUint16 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d exceeds %d", ErrSet16, len(set16), math.MaxUint16)
+	}
 
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint16(uint16(len(set16))); err != nil {
-		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
+		return int64(writer.BytesWritten()), fmt.Errorf("%w: writeTo: len: %v", ErrSet16, err)
 	}
 
-	written += binutils.Uint16size
-
 	for idx, item := range set16 {
 		if err = writer.WriteUint16(uint16(item)); err != nil {
-			return int64(written), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet16, idx, err)
+			return int64(writer.BytesWritten()), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet16, idx, err)
 		}
-
-		written += binutils.Uint16size
 	}
 
-	return int64(written), nil
+	return int64(writer.BytesWritten()), nil
 }
 
 // ReadFrom loads Set16 data from provided io.Reader until all data loaded or any error including EOF.
@@ -81,27 +82,24 @@ func (set16 Set16) WriteTo(w io.Writer) (n int64, err error) {
 // Implements io.ReaderFrom.
 func (set16 *Set16) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 	var (
-		bytesTaken  int
 		expectedLen uint16
 		nextUint16  uint16
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint16(); err != nil {
-		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
+		return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: len: %w", ErrSet16, err)
 	}
 
-	bytesTaken += binutils.Uint16size
 	*set16 = make(Set16, expectedLen)
 
 	for i := 0; uint16(i) < expectedLen; i++ {
 		if nextUint16, err = reader.ReadUint16(); err != nil {
-			return int64(bytesTaken), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet16, i, err)
+			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet16, i, err)
 		}
 
-		bytesTaken += binutils.Uint16size
 		(*set16)[i] = ID16(nextUint16)
 	}
 
-	return int64(bytesTaken), err
+	return int64(reader.BytesTaken()), err
 }
diff --git a/pkg/storage/set8.go b/pkg/storage/set8.go
index 31ba515..c1f5dc5 100644
--- a/pkg/storage/set8.go
+++ b/pkg/storage/set8.go
@@ -3,9 +3,12 @@ package storage
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // ErrSet8 identifies Set8 related errors.
@@ -56,24 +59,22 @@ func (set8 Set8) EqualTo(another Set8) bool {
 // Returns written bytes count and error if occurs.
 // Implements io.WriterTo.
 func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
-	var written int
+	if len(set8) > math.MaxUint8 {
+		return 0, fmt.Errorf("%w: writeTo: len: %d exceeds %d", ErrSet8, len(set8), math.MaxUint8)
+	}
 
 	writer := binutils.NewBinaryWriter(w)
 	if err = writer.WriteUint8(uint8(len(set8))); err != nil {
-		return 0, fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
+		return int64(writer.BytesWritten()), fmt.Errorf("%w: writeTo: len: %v", ErrSet8, err)
 	}
 
-	written += binutils.Uint8size
-
 	for idx, item := range set8 {
 		if err = writer.WriteUint8(uint8(item)); err != nil {
-			return int64(written), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet8, idx, err)
+			return int64(writer.BytesWritten()), fmt.Errorf("%v: writeTo: data[%d]: %w", ErrSet8, idx, err)
 		}
-
-		written += binutils.Uint8size
 	}
 
-	return int64(written), nil
+	return int64(writer.BytesWritten()), nil
 }
 
 // ReadFrom loads Set8 data from provided io.Reader until all data loaded or any error including EOF.
@@ -81,27 +82,24 @@ func (set8 Set8) WriteTo(w io.Writer) (n int64, err error) {
 // Implements io.ReaderFrom.
 func (set8 *Set8) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
 	var (
-		bytesTaken  int
 		expectedLen uint8
 		nextUint8   uint8
 	)
 
-	reader := binutils.NewBinaryReader(r)
+	reader := binutils.NewBinaryReader(common.FullReader(r))
 	if expectedLen, err = reader.ReadUint8(); err != nil {
-		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
+		return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: len: %w", ErrSet8, err)
 	}
 
-	bytesTaken += binutils.Uint8size
 	*set8 = make(Set8, expectedLen)
 
 	for i := 0; uint8(i) < expectedLen; i++ {
 		if nextUint8, err = reader.ReadUint8(); err != nil {
-			return int64(bytesTaken), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet8, i, err)
+			return int64(reader.BytesTaken()), fmt.Errorf("%v: readFrom: data[%v]: %w", ErrSet8, i, err)
 		}
 
-		bytesTaken += binutils.Uint8size
 		(*set8)[i] = ID8(nextUint8)
 	}
 
-	return int64(bytesTaken), err
+	return int64(reader.BytesTaken()), err
 }
-- 
2.43.0


From 9a7a0ef1dac214f9ae65cb5e3b8a3a7b9fa7b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 02/24] fix: look up sets longer than any stored one without
 panic

Collection8x8.Find and Collection16.Find indexed the columns list by the
length of requested set, which is out of range until such a set was stored.
---
 pkg/storage/collection16.go | 4 ++++
 pkg/storage/collection8.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/storage/collection16.go b/pkg/storage/collection16.go
index 48314ca..a51f51c 100644
--- a/pkg/storage/collection16.go
+++ b/pkg/storage/collection16.go
@@ -16,6 +16,10 @@ func (collection8x8 Collection16) Find(item Set16) (foundIdx ID32, found bool) {
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such length stored yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(item); !found {
 		return 0, false
 	}
diff --git a/pkg/storage/collection8.go b/pkg/storage/collection8.go
index 14077d7..91b3b6d 100644
--- a/pkg/storage/collection8.go
+++ b/pkg/storage/collection8.go
@@ -15,6 +15,10 @@ func (collection8x8 Collection8x8) Find(setItem Set8) (foundIdx ID16, found bool
 		return 0, false // always return not found for empty sets
 	}
 
+	if columnIdx >= len(collection8x8) {
+		return 0, false // no sets of such length stored yet
+	}
+
 	if itemIdx, found = collection8x8[columnIdx].Find(setItem); !found {
 		return 0, false
 	}
-- 
2.43.0


From 5e2ce7ae1d630f69441e4a0d03514315c89da140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 03/24] fix: read tags through partial reads, refuse catalogues
 longer than its length byte

TagName and Idx ignored how many bytes a Read delivered: a split or truncated
stream produced NUL padded names reported as success. Idx.BinaryWriteTo wrapped
the length of indexes having more than 255 tags.
---
 pkg/dag/idx.go  | 14 ++++++++++----
 pkg/dag/name.go |  5 +++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/dag/idx.go b/pkg/dag/idx.go
index d72d7bb..6a54bbf 100644
--- a/pkg/dag/idx.go
+++ b/pkg/dag/idx.go
@@ -6,6 +6,8 @@ Idx implements Tag ids, providing simple indexed ID in index.
 
 import (
 	"fmt"
+	"io"
+	"math"
 
 	"github.com/amarin/gomorphy/pkg/storage"
 
@@ -44,15 +46,15 @@ func NewIndex(knownTags ...Tag) Idx {
 // Returns error if happens or nil.
 // Implements binutils.BinaryReaderFrom.
 func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
-	var listLen uint8
+	listLen := make([]byte, binutils.Uint8size)
 
-	if listLen, err = reader.ReadUint8(); err != nil {
+	if _, err = io.ReadFull(reader, listLen); err != nil {
 		return fmt.Errorf("%w: read length byte: %v", common.ErrUnmarshal, err)
 	}
 
-	*tagsIndex = make(Idx, listLen) // allocate space
+	*tagsIndex = make(Idx, listLen[0]) // allocate space
 
-	for idx := 0; idx < int(listLen); idx++ {
+	for idx := 0; idx < int(listLen[0]); idx++ {
 		if err = (*tagsIndex)[idx].BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read %d indexed: %v", common.ErrUnmarshal, idx, err)
 		}
@@ -65,6 +67,10 @@ func (tagsIndex *Idx) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagsIndex Idx) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if tagsIndex.Len() > math.MaxUint8 {
+		return fmt.Errorf("%w: %v: %d tags", common.ErrMarshal, common.ErrIndexSize, tagsIndex.Len())
+	}
+
 	if err = writer.WriteUint8(uint8(tagsIndex.Len())); err != nil {
 		return fmt.Errorf("%w: cant write length byte: %v", common.ErrMarshal, err)
 	}
diff --git a/pkg/dag/name.go b/pkg/dag/name.go
index 980b022..f363b8e 100644
--- a/pkg/dag/name.go
+++ b/pkg/dag/name.go
@@ -5,6 +5,7 @@ package dag
 import (
 	"errors"
 	"fmt"
+	"io"
 
 	"github.com/amarin/binutils"
 )
@@ -28,8 +29,8 @@ var (
 type TagName string
 
 func (g *TagName) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
-	var tagNameBytes []byte
-	if tagNameBytes, err = reader.ReadBytesCount(tagNameLen); err != nil {
+	tagNameBytes := make([]byte, tagNameLen)
+	if _, err = io.ReadFull(reader, tagNameBytes); err != nil {
 		return fmt.Errorf("%w: tag name: read: %v", Error, err)
 	}
 
-- 
2.43.0


From 3aa75aad09621cd598483a6a84fe7dc586bb28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 04/24] fix: load index through partial reads

Index, tag sets, variants and items readers ignored how many bytes a Read
delivered: an index file cut in the middle of a value, or a reader splitting
data, was loaded as different index without an error.
---
 internal/index/idx.go           | 28 +++------------
 internal/index/item_def.go      |  8 ++---
 internal/index/items.go         |  2 +-
 internal/index/reader.go        | 60 +++++++++++++++++++++++++++++++++
 internal/index/tagset_def.go    | 28 +++------------
 internal/index/tagset_index.go  |  2 +-
 internal/index/tagset_table.go  |  2 +-
 internal/index/variant_def.go   |  4 +--
 internal/index/variant_idx.go   |  2 +-
 internal/index/variant_table.go |  2 +-
 10 files changed, 79 insertions(+), 59 deletions(-)
 create mode 100644 internal/index/reader.go

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cfeb72f..e1ca733 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -84,14 +84,9 @@ func (index *Index) writeTagsDefinitions(writer *binutils.BinaryWriter) (err err
 // A companion of writeTagsDefinitions.
 // Used from BinaryReadFrom.
 func (index *Index) readTagsDefinitions(reader *binutils.BinaryReader) (err error) {
-	var section string
-
-	if section, err = reader.ReadStringZ(); err != nil {
+	if err = readSection(reader, binaryTagsPrefix); err != nil {
 		return fmt.Errorf("%w: read: tags prefix: %v", Error, err)
 	}
-	if section != binaryTagsPrefix {
-		return fmt.Errorf("%w: read: expected section %v ", Error, binaryTagsPrefix)
-	}
 
 	if err = index.tags.BinaryReadFrom(reader); err != nil {
 		return fmt.Errorf("%w: read: tags index: %v", Error, err)
@@ -118,14 +113,9 @@ func (index *Index) writeTagSetsDefinitions(writer *binutils.BinaryWriter) (err
 // A companion of writeTagsDefinitions.
 // Used from BinaryReadFrom.
 func (index *Index) readTagSetsDefinitions(reader *binutils.BinaryReader) (err error) {
-	var section string
-
-	if section, err = reader.ReadStringZ(); err != nil {
+	if err = readSection(reader, binaryTagSetPrefix); err != nil {
 		return fmt.Errorf("%w: read: tags prefix: %v", Error, err)
 	}
-	if section != binaryTagSetPrefix {
-		return fmt.Errorf("%w: read: expected section %v ", Error, binaryTagSetPrefix)
-	}
 
 	if err = index.tagSets.BinaryReadFrom(reader); err != nil {
 		return fmt.Errorf("%w: write: tags sets index: %v", Error, err)
@@ -152,14 +142,9 @@ func (index *Index) writeCollectionsDefinitions(writer *binutils.BinaryWriter) (
 // A companion of writeTagsDefinitions.
 // Used from BinaryReadFrom.
 func (index *Index) readCollectionsDefinitions(reader *binutils.BinaryReader) (err error) {
-	var section string
-
-	if section, err = reader.ReadStringZ(); err != nil {
+	if err = readSection(reader, binaryColIdxPrefix); err != nil {
 		return fmt.Errorf("%w: read: tags prefix: %v", Error, err)
 	}
-	if section != binaryColIdxPrefix {
-		return fmt.Errorf("%w: read: expected section %v ", Error, binaryColIdxPrefix)
-	}
 
 	if err = index.collectionIdx.BinaryReadFrom(reader); err != nil {
 		return fmt.Errorf("%w: write: tags set collections index: %v", Error, err)
@@ -186,14 +171,9 @@ func (index *Index) writeItemsDefinitions(writer *binutils.BinaryWriter) (err er
 // A companion of writeTagsDefinitions.
 // Used from BinaryReadFrom.
 func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err error) {
-	var section string
-
-	if section, err = reader.ReadStringZ(); err != nil {
+	if err = readSection(reader, binaryItemsIdxPrefix); err != nil {
 		return fmt.Errorf("%w: read: tags prefix: %v", Error, err)
 	}
-	if section != binaryItemsIdxPrefix {
-		return fmt.Errorf("%w: read: expected section %v ", Error, binaryItemsIdxPrefix)
-	}
 
 	if err = index.items.BinaryReadFrom(reader); err != nil {
 		return fmt.Errorf("%w: read: node index: %v", Error, err)
diff --git a/internal/index/item_def.go b/internal/index/item_def.go
index 3515f27..84af0d2 100644
--- a/internal/index/item_def.go
+++ b/internal/index/item_def.go
@@ -25,22 +25,22 @@ type Item struct {
 func (i *Item) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var readUint32 uint32
 
-	if readUint32, err = reader.ReadUint32(); err != nil {
+	if readUint32, err = takeUint32(reader); err != nil {
 		return err
 	}
 	i.Parent = dag.ID(readUint32)
 
-	if readUint32, err = reader.ReadUint32(); err != nil {
+	if readUint32, err = takeUint32(reader); err != nil {
 		return err
 	}
 	i.ID = dag.ID(readUint32)
 
-	if readUint32, err = reader.ReadUint32(); err != nil {
+	if readUint32, err = takeUint32(reader); err != nil {
 		return err
 	}
 	i.Letter = rune(readUint32)
 
-	if readUint32, err = reader.ReadUint32(); err != nil {
+	if readUint32, err = takeUint32(reader); err != nil {
 		return err
 	}
 	i.Variants = VariantID(readUint32)
diff --git a/internal/index/items.go b/internal/index/items.go
index c8d786f..41eb4df 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -29,7 +29,7 @@ func NewItems() *Items {
 func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var itemListLen uint32
 
-	if itemListLen, err = reader.ReadUint32(); err != nil {
+	if itemListLen, err = takeUint32(reader); err != nil {
 		return err
 	}
 
diff --git a/internal/index/reader.go b/internal/index/reader.go
new file mode 100644
index 0000000..529a9bc
--- /dev/null
+++ b/internal/index/reader.go
@@ -0,0 +1,60 @@
+package index
+
+import (
+	"fmt"
+	"io"
+
+	"github.com/amarin/binutils"
+)
+
+// takeUint8 reads uint8 value using supplied binutils.BinaryReader.
+// In contrast to binutils.BinaryReader methods returns error if underlying reader delivers less data than required.
+func takeUint8(reader *binutils.BinaryReader) (uint8, error) {
+	var buffer [binutils.Uint8size]byte
+
+	if _, err := io.ReadFull(reader, buffer[:]); err != nil {
+		return 0, err
+	}
+
+	return binutils.Uint8(buffer[:])
+}
+
+// takeUint16 reads uint16 value using supplied binutils.BinaryReader.
+// In contrast to binutils.BinaryReader methods returns error if underlying reader delivers less data than required.
+func takeUint16(reader *binutils.BinaryReader) (uint16, error) {
+	var buffer [binutils.Uint16size]byte
+
+	if _, err := io.ReadFull(reader, buffer[:]); err != nil {
+		return 0, err
+	}
+
+	return binutils.Uint16(buffer[:])
+}
+
+// takeUint32 reads uint32 value using supplied binutils.BinaryReader.
+// In contrast to binutils.BinaryReader methods returns error if underlying reader delivers less data than required.
+func takeUint32(reader *binutils.BinaryReader) (uint32, error) {
+	var buffer [binutils.Uint32size]byte
+
+	if _, err := io.ReadFull(reader, buffer[:]); err != nil {
+		return 0, err
+	}
+
+	return binutils.Uint32(buffer[:])
+}
+
+// readSection reads zero-terminated section prefix using supplied binutils.BinaryReader.
+// Returns error if there is another section or not enough data.
+func readSection(reader *binutils.BinaryReader, section string) error {
+	buffer := make([]byte, len(section)+1)
+
+	if _, err := io.ReadFull(reader, buffer); err != nil {
+		return err
+	}
+
+	if string(buffer) != section+"\x00" {
+		return fmt.Errorf("%w: read: expected section %v ", Error, section)
+	}
+
+	return nil
+}
diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 486c465..3f7836e 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -37,13 +37,13 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 		currentTagID uint8
 	)
 
-	if tagSetLen, err = reader.ReadUint8(); err != nil {
+	if tagSetLen, err = takeUint8(reader); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
 	*tagSet = make(TagSet, tagSetLen)
 	for idx := 0; idx < int(tagSetLen); idx++ {
-		if currentTagID, err = reader.ReadUint8(); err != nil {
+		if currentTagID, err = takeUint8(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
 		(*tagSet)[idx] = dag.TagID(currentTagID)
@@ -119,28 +119,8 @@ func (tagSet TagSet) WriteTo(w io.Writer) (n int64, err error) {
 // Returns taken bytes count and error if occurs.
 // Implements io.ReaderFrom.
 func (tagSet *TagSet) ReadFrom(r io.Reader) (totalBytesTaken int64, err error) {
-	var (
-		bytesTaken  int
-		expectedLen uint8
-		nextUint8   uint8
-	)
-
 	reader := binutils.NewBinaryReader(r)
-	if expectedLen, err = reader.ReadUint8(); err != nil {
-		return int64(bytesTaken), fmt.Errorf("%v: readFrom: len: %w", Error, err)
-	}
-
-	bytesTaken += binutils.Uint8size
-	*tagSet = make(TagSet, expectedLen)
-
-	for i := 0; uint8(i) < expectedLen; i++ {
-		if nextUint8, err = reader.ReadUint8(); err != nil {
-			return int64(bytesTaken), fmt.Errorf("%v: readFrom: data[%v]: %w", Error, i, err)
-		}
-
-		bytesTaken += binutils.Uint8size
-		(*tagSet)[i] = dag.TagID(nextUint8)
-	}
+	err = tagSet.BinaryReadFrom(reader)
 
-	return int64(bytesTaken), err
+	return int64(reader.BytesTaken()), err
 }
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index de4d2e6..c5927f3 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -67,7 +67,7 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 
 	var tagSetIndexLen uint32
 
-	if tagSetIndexLen, err = reader.ReadUint32(); err != nil {
+	if tagSetIndexLen, err = takeUint32(reader); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 94cd256..567ec3c 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -36,7 +36,7 @@ func (tagSetTable *TagSetTable) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: reader nil", Error)
 	}
 
-	if tagSetLen, err = reader.ReadUint16(); err != nil {
+	if tagSetLen, err = takeUint16(reader); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 5e50ad5..256f38d 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -49,13 +49,13 @@ func (t *TagSetIDCollection) BinaryReadFrom(reader *binutils.BinaryReader) (err
 		currentUint32  uint32
 	)
 
-	if tagSetIndexLen, err = reader.ReadUint8(); err != nil {
+	if tagSetIndexLen, err = takeUint8(reader); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
 	*t = make(TagSetIDCollection, tagSetIndexLen)
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
-		if currentUint32, err = reader.ReadUint32(); err != nil {
+		if currentUint32, err = takeUint32(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
 		(*t)[idx] = TagSetID(currentUint32)
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 901b17d..bfcefff 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -33,7 +33,7 @@ func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (e
 func (tagSetIndex *VariantsIndex) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagSetIndexLen uint8
 
-	if tagSetIndexLen, err = reader.ReadUint8(); err != nil {
+	if tagSetIndexLen, err = takeUint8(reader); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index f51e053..a35aa84 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -33,7 +33,7 @@ func (variantsTable VariantsTable) BinaryWriteTo(writer *binutils.BinaryWriter)
 func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 	var tagSetIndexLen uint32
 
-	if tagSetIndexLen, err = reader.ReadUint32(); err != nil {
+	if tagSetIndexLen, err = takeUint32(reader); err != nil {
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-- 
2.43.0


From 885c87b35d690854bf8b8df9b0f0cd6cc2cc62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 05/24] fix: do not allocate memory by list lengths of damaged
 index file

---
 internal/index/items.go         | 10 +++++++---
 internal/index/tagset_index.go  |  4 +++-
 internal/index/variant_table.go |  4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/index/items.go b/internal/index/items.go
index 41eb4df..e35d82e 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -33,14 +33,18 @@ func (items *Items) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
-	items.nextID = dag.ID(itemListLen)
-	items.items = make([]Item, int(itemListLen))
+	// list length is not trusted until its items really read, so grow list gradually
+	loaded := make([]Item, 0)
 	for idx := 0; idx < int(itemListLen); idx++ {
-		if err = items.items[idx].BinaryReadFrom(reader); err != nil {
+		loaded = append(loaded, Item{})
+		if err = loaded[idx].BinaryReadFrom(reader); err != nil {
 			return err
 		}
 	}
 
+	items.nextID = dag.ID(itemListLen)
+	items.items = loaded
+
 	return nil
 }
 
diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index c5927f3..eac1789 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -71,8 +71,10 @@ func (tagSetIndex *TagSetIndex) BinaryReadFrom(reader *binutils.BinaryReader) (e
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*tagSetIndex = make(TagSetIndex, tagSetIndexLen)
+	// list length is not trusted until its tables really read, so grow list gradually
+	*tagSetIndex = make(TagSetIndex, 0)
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
+		*tagSetIndex = append(*tagSetIndex, nil)
 		if err = (*tagSetIndex)[idx].BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index a35aa84..8e8bc32 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -37,8 +37,10 @@ func (variantsTable *VariantsTable) BinaryReadFrom(reader *binutils.BinaryReader
 		return fmt.Errorf("%w: read: tagset: %v", Error, err)
 	}
 
-	*variantsTable = make(VariantsTable, tagSetIndexLen)
+	// list length is not trusted until its items really read, so grow list gradually
+	*variantsTable = make(VariantsTable, 0)
 	for idx := 0; idx < int(tagSetIndexLen); idx++ {
+		*variantsTable = append(*variantsTable, nil)
 		if err = (*variantsTable)[idx].BinaryReadFrom(reader); err != nil {
 			return fmt.Errorf("%w: read: tagset: %v", Error, err)
 		}
-- 
2.43.0


From cff9324512f96ebef990b780166e665b5579b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 06/24] fix: refuse to write index parts exceeding its length
 fields

Tag sets, variants and its tables longer than the length field can hold were
written having wrapped length, producing unreadable or different index.
---
 internal/index/tagset_def.go    | 6 ++++++
 internal/index/tagset_table.go  | 8 ++++++++
 internal/index/variant_def.go   | 6 ++++++
 internal/index/variant_idx.go   | 7 +++++++
 internal/index/variant_table.go | 7 +++++++
 5 files changed, 34 insertions(+)

diff --git a/internal/index/tagset_def.go b/internal/index/tagset_def.go
index 3f7836e..be35c2b 100644
--- a/internal/index/tagset_def.go
+++ b/internal/index/tagset_def.go
@@ -3,12 +3,14 @@ package index
 import (
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/dag"
 )
 
@@ -56,6 +58,10 @@ func (tagSet *TagSet) BinaryReadFrom(reader *binutils.BinaryReader) (err error)
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSet TagSet) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSet) > math.MaxUint8 {
+		return fmt.Errorf("%w: %v: %d tags in set", Error, common.ErrIndexSize, len(tagSet))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSet))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/tagset_table.go b/internal/index/tagset_table.go
index 567ec3c..3966505 100644
--- a/internal/index/tagset_table.go
+++ b/internal/index/tagset_table.go
@@ -2,10 +2,13 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 const prefixTagSetTable = "TT"
@@ -57,6 +60,11 @@ func (tagSetTable TagSetTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err
 	if writer == nil {
 		return fmt.Errorf("%w: writer nil", Error)
 	}
+
+	if tagSetTable.Len() > math.MaxUint16 {
+		return fmt.Errorf("%w: %v: %d tag sets in table", Error, common.ErrIndexSize, tagSetTable.Len())
+	}
+
 	if err = writer.WriteUint16(uint16(tagSetTable.Len())); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_def.go b/internal/index/variant_def.go
index 256f38d..3fe280e 100644
--- a/internal/index/variant_def.go
+++ b/internal/index/variant_def.go
@@ -2,12 +2,14 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
 
 	"github.com/amarin/binutils"
 
+	"github.com/amarin/gomorphy/pkg/common"
 	"github.com/amarin/gomorphy/pkg/storage"
 )
 
@@ -27,6 +29,10 @@ func (t TagSetIDCollection) GoString() string {
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (t TagSetIDCollection) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(t) > math.MaxUint8 {
+		return fmt.Errorf("%w: %v: %d tag sets in variant", Error, common.ErrIndexSize, len(t))
+	}
+
 	if err = writer.WriteUint8(uint8(len(t))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index bfcefff..6dcc456 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -2,9 +2,12 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // VariantsIndex stores index of all possible TagSetIDCollection.
@@ -14,6 +17,10 @@ type VariantsIndex []VariantsTable
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (tagSetIndex VariantsIndex) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(tagSetIndex) > math.MaxUint8 {
+		return fmt.Errorf("%w: %v: %d variants tables", Error, common.ErrIndexSize, len(tagSetIndex))
+	}
+
 	if err = writer.WriteUint8(uint8(len(tagSetIndex))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index 8e8bc32..bfd5e15 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -2,9 +2,12 @@ package index
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/amarin/binutils"
+
+	"github.com/amarin/gomorphy/pkg/common"
 )
 
 // VariantsTable stores a list of TagSetID.
@@ -14,6 +17,10 @@ type VariantsTable []TagSetIDCollection
 // Returns error if happens or nil.
 // Implements binutils.BinaryWriterTo.
 func (variantsTable VariantsTable) BinaryWriteTo(writer *binutils.BinaryWriter) (err error) {
+	if len(variantsTable) > math.MaxUint16+1 { // the rest is not addressable by VariantSubID
+		return fmt.Errorf("%w: %v: %d variants in table", Error, common.ErrIndexSize, len(variantsTable))
+	}
+
 	if err = writer.WriteUint32(uint32(len(variantsTable))); err != nil {
 		return fmt.Errorf("%w: %v", Error, err)
 	}
-- 
2.43.0


From 0ab42fa2d6b51ead636ebd6aa00cfd5cb2003161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 07/24] fix: do not panic getting unknown variants

VariantsIndex.Get and VariantsTable.Get indexed internal tables by any
requested ID, Index.Variants never returned its error.
---
 internal/index/idx.go           |  8 ++++++--
 internal/index/variant_idx.go   | 22 ++++++++++++++++------
 internal/index/variant_table.go |  6 +++++-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index e1ca733..94e0220 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -553,7 +553,11 @@ func (index *Index) Optimize() {
 	logger.Infof("has %d possible tag sets", len(knownTagSets))
 }
 
-// Variants returns TagSet collection
+// Variants returns TagSet collection by its ID or error if there is no such collection.
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
-	return index.collectionIdx.Get(id), err
+	if !index.collectionIdx.Has(id) {
+		return nil, fmt.Errorf("%w: no such variants: %#x", Error, uint32(id))
+	}
+
+	return index.collectionIdx.Get(id), nil
 }
diff --git a/internal/index/variant_idx.go b/internal/index/variant_idx.go
index 6dcc456..3f3b5ed 100644
--- a/internal/index/variant_idx.go
+++ b/internal/index/variant_idx.go
@@ -98,22 +98,32 @@ func (tagSetIndex *VariantsIndex) Index(item TagSetIDCollection) (storageIdx Var
 	return tableNumber.Add(1).VariantID(itemIdx)
 }
 
-// Get returns set by index.
-func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
+// Has returns true if there is a set with such index. Zero index stands for empty set and always known.
+func (tagSetIndex VariantsIndex) Has(storageIdx VariantID) bool {
 	if storageIdx == 0 {
-		return make(TagSetIDCollection, 0)
+		return true
 	}
 
-	tableNumber := storageIdx.TableNum()
-	if tableNumber < 1 {
+	return int(storageIdx.CollectionTableID()) < len(tagSetIndex.Table(storageIdx.TableNum()))
+}
+
+// Get returns set by index. If no such set known returns empty set.
+func (tagSetIndex VariantsIndex) Get(storageIdx VariantID) TagSetIDCollection {
+	if storageIdx == 0 || !tagSetIndex.Has(storageIdx) {
 		return make(TagSetIDCollection, 0)
 	}
 
+	tableNumber := storageIdx.TableNum()
+
 	return tagSetIndex[tableNumber.Add(-1)].Get(storageIdx.CollectionTableID())
 }
 
-// Table returns internal CollectionTable by its index.
+// Table returns internal CollectionTable by its index. If no such table known returns empty table.
 func (tagSetIndex VariantsIndex) Table(tableID CollectionTableNumber) VariantsTable {
+	if tableID < 1 || int(tableID) > len(tagSetIndex) {
+		return make(VariantsTable, 0)
+	}
+
 	return tagSetIndex[tableID.Add(-1)]
 }
 
diff --git a/internal/index/variant_table.go b/internal/index/variant_table.go
index bfd5e15..8b02009 100644
--- a/internal/index/variant_table.go
+++ b/internal/index/variant_table.go
@@ -91,8 +91,12 @@ func (variantsTable *VariantsTable) Index(item TagSetIDCollection) (storageIdx V
 	return storageIdx
 }
 
-// Get returns TagSetIDCollection by its VariantSubID.
+// Get returns TagSetIDCollection by its VariantSubID. If no such collection known returns empty one.
 func (variantsTable VariantsTable) Get(storageIdx VariantSubID) TagSetIDCollection {
+	if int(storageIdx) >= len(variantsTable) {
+		return make(TagSetIDCollection, 0)
+	}
+
 	return variantsTable[storageIdx]
 }
 
-- 
2.43.0


From c4d7d03e2bb4ca8201f5838d83b363c03eff96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 08/24] fix: load index into clean state, reject damaged
 references

- root item was registered as own child by zero rune, so words having such a
  rune were found at root and lookups could loop;
- reading into used index kept its children and words counter;
- failed read left index half loaded;
- references to missed parents, variants, tag sets or tags caused panic or
  endless recursion later, when index used.
---
 internal/index/idx.go | 80 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 1 deletion(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index 94e0220..cd9b8e7 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -182,9 +182,64 @@ func (index *Index) readItemsDefinitions(reader *binutils.BinaryReader) (err err
 	return nil
 }
 
+// validate checks if loaded parts refers only each other.
+// Returns error if there are any reference to missed element as it means index data damaged.
+func (index *Index) validate() error {
+	for tableIdx, table := range index.tagSets {
+		for _, tagSet := range table {
+			if tagSet.Len() != tableIdx+1 {
+				return fmt.Errorf("%w: read: tag set len %d in table %d", Error, tagSet.Len(), tableIdx)
+			}
+
+			for _, tagID := range tagSet {
+				if _, found := index.tags.Get(tagID); !found {
+					return fmt.Errorf("%w: read: tag set: no such tag: %d", Error, tagID)
+				}
+			}
+		}
+	}
+
+	for tableIdx, table := range index.collectionIdx {
+		for _, collection := range table {
+			if collection.Len() != tableIdx+1 {
+				return fmt.Errorf("%w: read: variants len %d in table %d", Error, collection.Len(), tableIdx)
+			}
+
+			for _, tagSetID := range collection {
+				if _, found := index.tagSets.Get(tagSetID); !found {
+					return fmt.Errorf("%w: read: variants: no such tag set: %#x", Error, uint32(tagSetID))
+				}
+			}
+		}
+	}
+
+	if len(index.items.items) == 0 || index.items.items[0] != (Item{}) { //nolint:exhaustivestruct
+		return fmt.Errorf("%w: read: no root item", Error)
+	}
+
+	for idx, item := range index.items.items[1:] {
+		nodeID := dag.ID(idx + 1)
+
+		switch {
+		case item.ID != nodeID:
+			return fmt.Errorf("%w: read: item %d: unexpected id: %d", Error, nodeID, item.ID)
+		case item.Parent >= nodeID:
+			return fmt.Errorf("%w: read: item %d: unexpected parent: %d", Error, nodeID, item.Parent)
+		case !index.collectionIdx.Has(item.Variants):
+			return fmt.Errorf("%w: read: item %d: no such variants: %#x", Error, nodeID, uint32(item.Variants))
+		}
+	}
+
+	return nil
+}
+
 func (index *Index) rebuildChildrenIndex() {
 	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
+		if idx == 0 {
+			continue // item 0 is a root itself, it is nobody's child
+		}
+
 		nodeID := dag.ID(idx)
 		index.GetChildrenIDMap(item.Parent)
 		index.GetChildrenIDMap(nodeID)
@@ -195,12 +250,31 @@ func (index *Index) rebuildChildrenIndex() {
 	}
 }
 
-// BinaryReadFrom reads index data from specified binutils.BinaryReader.
+// BinaryReadFrom reads index data from specified binutils.BinaryReader replacing current index data.
+// If failed, current index data stays intact.
 // Implements binutils.BinaryReaderFrom.
 func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
+	loaded := New()
+
+	if err = loaded.readFrom(reader); err != nil {
+		return err
+	}
+
 	index.mu.Lock()
 	defer index.mu.Unlock()
 
+	index.tags = loaded.tags
+	index.tagSets = loaded.tagSets
+	index.collectionIdx = loaded.collectionIdx
+	index.items = loaded.items
+	index.childrenMap = loaded.childrenMap
+	index.wordsCount = loaded.wordsCount
+
+	return nil
+}
+
+// readFrom reads data from specified binutils.BinaryReader into fresh index.
+func (index *Index) readFrom(reader *binutils.BinaryReader) (err error) {
 	if err = index.readTagsDefinitions(reader); err != nil {
 		return fmt.Errorf("%w: read: tags: %v", Error, err)
 	}
@@ -214,6 +288,10 @@ func (index *Index) BinaryReadFrom(reader *binutils.BinaryReader) (err error) {
 		return err
 	}
 
+	if err = index.validate(); err != nil {
+		return err
+	}
+
 	index.rebuildChildrenIndex()
 
 	return nil
-- 
2.43.0


From e8618f53321c69d34ad7f2da29e88cf5532f8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:38 +0000
Subject: [PATCH 09/24] fix: lock index in every method reading or changing its
 data

---
 internal/index/idx.go   | 147 +++++++++++++++++++++++++++-------------
 internal/index/items.go |   2 +-
 internal/index/node.go  |  53 ++++++++++-----
 3 files changed, 135 insertions(+), 67 deletions(-)

diff --git a/internal/index/idx.go b/internal/index/idx.go
index cd9b8e7..abc89a9 100644
--- a/internal/index/idx.go
+++ b/internal/index/idx.go
@@ -29,8 +29,11 @@ type Index struct {
 }
 
 // Tags returns internal tags index.
-func (index Index) Tags() dag.Idx {
-	return index.tags
+func (index *Index) Tags() dag.Idx {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
+	return index.tags[:len(index.tags):len(index.tags)]
 }
 
 // New creates new empty list.
@@ -234,16 +237,13 @@ func (index *Index) validate() error {
 }
 
 func (index *Index) rebuildChildrenIndex() {
-	index.GetChildrenIDMap(0)
 	for idx, item := range index.items.items {
 		if idx == 0 {
 			continue // item 0 is a root itself, it is nobody's child
 		}
 
 		nodeID := dag.ID(idx)
-		index.GetChildrenIDMap(item.Parent)
-		index.GetChildrenIDMap(nodeID)
-		index.childrenMap[item.Parent][item.Letter] = nodeID
+		index.addChildID(item.Parent, item.Letter, nodeID)
 		if item.Variants != 0 {
 			index.wordsCount++
 		}
@@ -330,12 +330,16 @@ func (index *Index) Children() dag.NodeMap {
 }
 
 // getItem returns node by its index or error if no such node found. Implements dag.Index.
+// Requires index lock taken by caller both to get item and to use it.
 func (index *Index) getItem(nodeIdx dag.ID) *Item {
 	return index.items.Get(nodeIdx)
 }
 
 // Get returns node by its index or error if no such node found. Implements dag.Index.
 func (index *Index) Get(nodeIdx dag.ID) (node dag.Node, err error) {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	if nodeIdx >= index.items.NextID() {
 		return nil, fmt.Errorf("%w: no such node: %d", Error, nodeIdx)
 	}
@@ -370,19 +374,52 @@ func (index *Index) rootNode(letter rune) (root dag.Node) {
 
 // GetChildrenIDMap generates children nodes for Node specified by its ID.
 func (index *Index) GetChildrenIDMap(id dag.ID) (res dag.IdMap) {
-	var ok bool
+	index.mu.Lock()
+	defer index.mu.Unlock()
 
-	if res, ok = index.childrenMap[id]; !ok {
-		index.childrenMap[id] = make(dag.IdMap)
+	res = make(dag.IdMap)
+	for letter, childID := range index.childrenMap[id] {
+		res[letter] = childID
 	}
-	return index.childrenMap[id]
+
+	return res
+}
+
+// addChildID adds childID into children map of specified parent.
+// Requires index lock taken by caller.
+func (index *Index) addChildID(parentID dag.ID, letter rune, childID dag.ID) {
+	if _, ok := index.childrenMap[parentID]; !ok {
+		index.childrenMap[parentID] = make(dag.IdMap)
+	}
+
+	index.childrenMap[parentID][letter] = childID
 }
 
 func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, error) {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
+	return index.fetchNode(parentID, runes)
+}
+
+func (index *Index) FetchFromItem(parentID dag.ID, runes []rune) (dag.Node, error) {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
+	node, err := index.fetchNode(parentID, runes)
+	if err != nil {
+		return nil, err
+	}
+
+	return node, nil
+}
+
+// fetchNode lookups runes sequence starting from specified parent.
+// Requires index lock taken by caller.
+func (index *Index) fetchNode(parentID dag.ID, runes []rune) (*Node, error) {
 	var (
 		nextItemID      dag.ID
 		ok              bool
-		node            *Node
 		currentParentID = parentID
 		currentIndex    = 0
 	)
@@ -393,14 +430,9 @@ func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, e
 
 	for {
 		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.childrenMap[currentParentID]
 		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
-			node = index.GetItem(currentParentID)
-			if node == nil {
-				return nil, fmt.Errorf("%w: fetch: no node: `%s[%s]`", Error, string(runes[:currentIndex]), string(firstRune))
-			}
-
-			return nil, fmt.Errorf("%w: fetch: not found: `%s[%s]`", Error, node.Word(), string(firstRune))
+			return nil, fmt.Errorf("%w: fetch: not found: `%s[%s]`", Error, index.word(currentParentID), string(firstRune))
 		}
 
 		if currentIndex == len(runes)-1 {
@@ -412,37 +444,26 @@ func (index *Index) FetchItemFromParent(parentID dag.ID, runes []rune) (*Node, e
 	}
 }
 
-func (index *Index) FetchFromItem(parentID dag.ID, runes []rune) (dag.Node, error) {
-	var (
-		nextItemID      dag.ID
-		ok              bool
-		currentParentID = parentID
-		currentIndex    = 0
-	)
-
-	if len(runes) == 0 {
-		return nil, fmt.Errorf("%w: empty runes", Error)
-	}
-
-	for {
-		firstRune := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
-		if nextItemID, ok = childrenIDMap[firstRune]; !ok {
-			node := index.GetItem(currentParentID)
-			if node == nil {
-				return nil, fmt.Errorf("%w: fetch: no node: `%s[%s]`", Error, string(runes[:currentIndex]), string(firstRune))
-			}
+// word returns sequence of characters from root upto specified node wrapped into string.
+// Requires index lock taken by caller.
+func (index *Index) word(id dag.ID) string {
+	letters := make([]rune, 0)
 
-			return nil, fmt.Errorf("%w: fetch: not found: `%s[%s]`", Error, node.Word(), string(firstRune))
+	for id != 0 {
+		item := index.getItem(id)
+		if item == nil {
+			return fmt.Sprintf("no item: %v", id)
 		}
 
-		if currentIndex == len(runes)-1 {
-			return index.Get(nextItemID)
-		}
+		letters = append(letters, item.Letter)
+		id = item.Parent
+	}
 
-		currentParentID = nextItemID
-		currentIndex += 1
+	for i, j := 0, len(letters)-1; i < j; i, j = i+1, j-1 {
+		letters[i], letters[j] = letters[j], letters[i]
 	}
+
+	return string(letters)
 }
 
 func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
@@ -457,6 +478,9 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 		return nil, fmt.Errorf("%w: add: empty runes", Error)
 	}
 
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	for {
 		if currentParentID != 0 { // prevent adding to not existed parent
 			if parent := index.items.Get(currentParentID); parent == nil {
@@ -465,15 +489,15 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 		}
 
 		rootLetter := runes[currentIndex]
-		childrenIDMap := index.GetChildrenIDMap(currentParentID)
+		childrenIDMap := index.childrenMap[currentParentID]
 		if nextItemID, ok = childrenIDMap[rootLetter]; !ok {
 			newRootItem := index.items.NewChild(currentParentID, rootLetter)
 			nextItemID = newRootItem.ID
-			index.childrenMap[currentParentID][rootLetter] = newRootItem.ID
+			index.addChildID(currentParentID, rootLetter, newRootItem.ID)
 		}
 
 		if currentIndex == len(runes)-1 {
-			return index.Get(nextItemID)
+			return index.GetItem(nextItemID), nil
 		}
 
 		currentParentID = nextItemID
@@ -483,11 +507,17 @@ func (index *Index) AddToNode(parentID dag.ID, runes []rune) (dag.Node, error) {
 
 // WordsCount returns count of indexed words.
 func (index *Index) WordsCount() int {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	return index.wordsCount
 }
 
 // NodesCount returns count of indexed nodes.
 func (index *Index) NodesCount() int {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	return int(index.items.NextID() - 1)
 }
 
@@ -498,6 +528,9 @@ func (index *Index) GetItem(id dag.ID) *Node {
 
 // GetChildrenMap generates children nodes for Node specified by its ID.
 func (index *Index) GetChildrenMap(id dag.ID) dag.NodeMap {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	childrenItems := index.childrenMap[id]
 
 	res := make(dag.NodeMap)
@@ -510,6 +543,9 @@ func (index *Index) GetChildrenMap(id dag.ID) dag.NodeMap {
 
 // getChildren generates children nodes for Node specified by its ID.
 func (index *Index) getChild(id dag.ID, letter rune) *Node {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	childrenItems := index.childrenMap[id]
 
 	if len(childrenItems) == 0 {
@@ -521,10 +557,16 @@ func (index *Index) getChild(id dag.ID, letter rune) *Node {
 
 // TagID gets or creates tag in internal tag index and returns its ID.
 func (index *Index) TagID(name dag.TagName, parent dag.TagName) dag.TagID {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	return index.tags.Index(name, parent)
 }
 
 func (index *Index) TagSet(tagSet TagSet) (res dag.TagSet, err error) {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	res = make(dag.TagSet, len(tagSet))
 	for idx, tagID := range tagSet {
 		tag, found := index.tags.Get(tagID)
@@ -539,11 +581,17 @@ func (index *Index) TagSet(tagSet TagSet) (res dag.TagSet, err error) {
 
 // TagSetIndex returns internal TagSetIndex.
 func (index *Index) TagSetIndex() TagSetIndex {
-	return index.tagSets
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
+	return append(TagSetIndex{}, index.tagSets...)
 }
 
 // Optimize reduces index deleting unused tag set's and collections;
 func (index *Index) Optimize() {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	logger := logging.NewNamedLogger("optimize").WithLevel(logging.LevelDebug)
 	usedCollectionID := make(map[VariantID][]dag.ID)
 	knownCollections := index.collectionIdx.KnownID()
@@ -633,6 +681,9 @@ func (index *Index) Optimize() {
 
 // Variants returns TagSet collection by its ID or error if there is no such collection.
 func (index *Index) Variants(id VariantID) (tagSetCollection TagSetIDCollection, err error) {
+	index.mu.Lock()
+	defer index.mu.Unlock()
+
 	if !index.collectionIdx.Has(id) {
 		return nil, fmt.Errorf("%w: no such variants: %#x", Error, uint32(id))
 	}
diff --git a/internal/index/items.go b/internal/index/items.go
index e35d82e..e32bc09 100644
--- a/internal/index/items.go
+++ b/internal/index/items.go
@@ -77,6 +77,7 @@ func (items *Items) Extend(count int) {
 
 func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
 	items.mu.Lock() // lock items to ensure nextID will not be taken by another goroutine
+	defer items.mu.Unlock()
 
 	nextID := items.NextID()
 	currentLen := len(items.items)
@@ -98,7 +99,6 @@ func (items *Items) NewChild(parentID dag.ID, letter rune) Item {
 	}
 
 	items.nextID += 1
-	items.mu.Unlock() // free items as nextID successfully acquired and list extended
 
 	items.items[nextID].ID = nextID
 	items.items[nextID].Parent = parentID
diff --git a/internal/index/node.go b/internal/index/node.go
index 0d4ca69..1910fa8 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -2,6 +2,7 @@ package index
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/amarin/gomorphy/pkg/dag"
 )
@@ -17,7 +18,14 @@ func (node *Node) Id() dag.ID {
 }
 
 func (node Node) Item() Item {
-	return node.index.items.items[node.id]
+	node.index.mu.Lock()
+	defer node.index.mu.Unlock()
+
+	if item := node.index.getItem(node.id); item != nil {
+		return *item
+	}
+
+	return Item{} //nolint:exhaustivestruct
 }
 
 // TagSets returns list of dag.TagSet. Implements dag.Node.
@@ -30,7 +38,13 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 		tag        dag.Tag
 	)
 
-	item = node.index.getItem(node.id)
+	node.index.mu.Lock()
+	defer node.index.mu.Unlock()
+
+	if item = node.index.getItem(node.id); item == nil {
+		return make([]dag.TagSet, 0) // there are no data in root
+	}
+
 	collection = node.index.collectionIdx.Get(item.Variants)
 	res = make([]dag.TagSet, collection.Len())
 
@@ -51,6 +65,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
+
+	node.index.mu.Lock()
+	defer node.index.mu.Unlock()
+
 	tagSet := make(TagSet, len(newTagSet))
 	for idx, tagName := range newTagSet {
 		tagSet[idx], found = node.index.tags.Find(tagName)
@@ -60,6 +78,10 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	}
 
 	item := node.index.getItem(node.id)
+	if item == nil {
+		return fmt.Errorf("%w: add tag set: no item: %v", Error, node.id)
+	}
+
 	collection := append(node.index.collectionIdx.Get(item.Variants).Add(node.index.tagSets.Index(tagSet)))
 	if item.Variants == 0 {
 		node.index.wordsCount++
@@ -71,29 +93,24 @@ func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 
 // Word returns sequence of characters from root upto current node wrapped into string.
 func (node *Node) Word() string {
-	prefix := ""
-	if node.id == 0 {
-		return ""
-	}
-	item := node.index.getItem(node.id)
-
-	if item == nil {
-		return fmt.Sprintf("no item: %v", node.id)
-	}
+	node.index.mu.Lock()
+	defer node.index.mu.Unlock()
 
-	if item.Parent != 0 {
-		prefix = node.index.GetItem(item.Parent).Word()
-	}
-
-	return prefix + string(item.Letter)
+	return node.index.word(node.id)
 }
 
 // String returns string representation of node. Implements fmt.Stringer.
 func (node *Node) String() string {
+	node.index.mu.Lock()
+	defer node.index.mu.Unlock()
+
 	item := node.index.getItem(node.id)
-	w := node.Word()
+	if item == nil {
+		return "Node(" + node.index.word(node.id) + ")"
+	}
 
-	return "Node(" + w[:len(w)-1] + "[" + string(item.Letter) + "]" + item.String()[1:] + ")"
+	return "Node(" + node.index.word(item.Parent) + "[" + string(item.Letter) + "]" +
+		strings.TrimPrefix(item.String(), string(item.Letter)) + ")"
 }
 
 func newNode(index *Index, id dag.ID) *Node {
-- 
2.43.0


From 2a7bd043594752ab91a9e0e40f41e3b5709f2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:39 +0000
Subject: [PATCH 10/24] fix: do not attach the first known tag set when adding
 empty one

---
 internal/index/node.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/index/node.go b/internal/index/node.go
index 1910fa8..ab15022 100644
--- a/internal/index/node.go
+++ b/internal/index/node.go
@@ -66,6 +66,10 @@ func (node *Node) TagSets() (res []dag.TagSet) {
 func (node *Node) AddTagSet(newTagSet ...dag.TagName) error {
 	var found bool
 
+	if len(newTagSet) == 0 {
+		return nil // no tags, nothing to add
+	}
+
 	node.index.mu.Lock()
 	defer node.index.mu.Unlock()
 
-- 
2.43.0


From 6922d9438702e4d3b7f4faade401fe86504bb902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 11/24] fix: replace compiled index only when new one
 completely stored

---
 pkg/opencorpora/file.go   | 58 +++++++++++++++++++++++++++++++++++++++
 pkg/opencorpora/loader.go | 23 ++++------------
 2 files changed, 64 insertions(+), 17 deletions(-)
 create mode 100644 pkg/opencorpora/file.go

diff --git a/pkg/opencorpora/file.go b/pkg/opencorpora/file.go
new file mode 100644
index 0000000..8dba74d
--- /dev/null
+++ b/pkg/opencorpora/file.go
@@ -0,0 +1,58 @@
+package opencorpora
+
+import (
+	"os"
+	"time"
+)
+
+// tempFileSuffix added to the name of file being written until its data completely stored.
+const tempFileSuffix = ".tmp"
+
+// replaceFile replaces content of the file at specified path with the data stored by supplied fill function.
+// Data goes into temporary file which takes its place only when completely stored,
+// so there is either previous or complete new data at the path at any moment.
+// If not zero modTime specified it becomes the file modification time.
+func replaceFile(filePath string, modTime time.Time, fill func(file *os.File) error) (err error) {
+	var file *os.File
+
+	tempPath := filePath + tempFileSuffix
+
+	if file, err = os.Create(tempPath); err != nil {
+		return err
+	}
+
+	stored := false
+
+	defer func() {
+		if !stored {
+			_ = file.Close() // no matter if already closed
+			_ = os.Remove(tempPath)
+		}
+	}()
+
+	if err = fill(file); err != nil {
+		return err
+	}
+
+	if err = file.Sync(); err != nil {
+		return err
+	}
+
+	if err = file.Close(); err != nil {
+		return err
+	}
+
+	if !modTime.IsZero() {
+		if err = os.Chtimes(tempPath, modTime, modTime); err != nil {
+			return err
+		}
+	}
+
+	if err = os.Rename(tempPath, filePath); err != nil {
+		return err
+	}
+
+	stored = true
+
+	return nil
+}
diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 9ed9735..e4db4af 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -247,7 +247,7 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 
 	defer func() {
 		loader.Debugf("loading finished %v", fromFile)
-		if closeErr := reader.Close(); err != nil {
+		if closeErr := reader.Close(); closeErr != nil {
 			loader.Warnf("close index: %v", closeErr)
 		}
 
@@ -270,26 +270,11 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
-	var writer *binutils.BinaryWriter
-
 	loader.Info("save compiled index")
 
-	if writer, err = binutils.CreateFile(toFile); err != nil {
-		return fmt.Errorf("%w: create index: %v", Error, err)
-	}
-
 	defer func() {
-		loader.Debugf("finishing %v", toFile)
-		if closeErr := writer.Close(); err != nil {
-			loader.Warnf("close index: %v", closeErr)
-		}
-
 		if err != nil {
 			loader.Error(err.Error())
-
-			if removeErr := os.Remove(toFile); removeErr != nil {
-				loader.Warnf("remove incomplete index: %v", removeErr)
-			}
 		} else {
 			loader.Infof("compiled index saved at %v", toFile)
 		}
@@ -299,7 +284,11 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 	loader.Info("optimize index")
 	mainIndex.Optimize()
 	loader.Info("saving index")
-	if err = mainIndex.BinaryWriteTo(writer); err != nil {
+
+	err = replaceFile(toFile, time.Time{}, func(file *os.File) error {
+		return mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(file))
+	})
+	if err != nil {
 		return fmt.Errorf("%w: save index: %v", Error, err)
 	}
 
-- 
2.43.0


From 66cd751f2f1b819600988e094daec775d64dbd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 12/24] fix: report error when downloaded file state is unknown

---
 pkg/opencorpora/loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index e4db4af..bf291d6 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -129,6 +129,10 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return true, nil // no file, update required
 	}
 
+	if err != nil {
+		return false, fmt.Errorf("%w: check downloaded: %v", Error, err)
+	}
+
 	loader.Debugf("check remote %v", RemoteURL)
 	response, err := http.Head(RemoteURL)
 	if err != nil {
@@ -136,6 +140,8 @@ func (loader Loader) IsUpdateRequired() (bool, error) {
 		return false, err
 	}
 
+	defer func() { _ = response.Body.Close() }()
+
 	if response.StatusCode != 200 {
 		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
 		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
-- 
2.43.0


From f244aad6fd6021a2aeb56dd09bf7c68406fb3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 13/24] fix: keep downloaded archive complete and stamped with
 remote modification time

---
 pkg/opencorpora/loader.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index bf291d6..1da0df1 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -174,7 +174,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return false, err
 	}
 
@@ -190,19 +190,24 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		}
 	}()
 
-	// Create a empty file
-	file, err := os.Create(loader.downloadedFilePath())
+	if response.StatusCode != 200 {
+		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
+		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
+	}
+
+	// Keep remote modification time with downloaded data as local clock has no relation to the remote one.
+	// If there is no such time, any known remote modification should be treated as more recent.
+	modTime, err := time.Parse(time.RFC1123, response.Header.Get(common.HTTPHeaderLastModified))
 	if err != nil {
-		return false, err
+		modTime = time.Unix(0, 0)
 	}
 
-	defer func() {
-		if file != nil {
-			_ = file.Close()
-		}
-	}()
+	err = replaceFile(loader.downloadedFilePath(), modTime, func(file *os.File) error {
+		_, copyErr := io.Copy(file, response.Body)
 
-	if _, err = io.Copy(file, response.Body); err != nil {
+		return copyErr
+	})
+	if err != nil {
 		return false, err
 	}
 
-- 
2.43.0


From 0b7b854eb2382fa2cb632c5b7caffed9b776135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 14/24] fix: replace unpacked dictionary only when archive
 completely unpacked

---
 pkg/opencorpora/loader.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 1da0df1..c3c75e3 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -215,13 +215,9 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 }
 
 func (loader Loader) UnpackUpdate() (err error) {
-	var (
-		source     io.ReadCloser
-		bzipSource io.Reader
-		target     io.WriteCloser
-	)
+	var source io.ReadCloser
 
-	if err := common.MakeDomainDataPath(DomainName); err != nil {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
 	}
 
@@ -231,19 +227,11 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	defer func() { _ = source.Close() }()
 
-	bzipSource = bzip2.NewReader(source)
-
-	if target, err = os.Create(loader.unpackedFilePath()); err != nil {
-		return err
-	}
-
-	defer func() { _ = target.Close() }()
+	return replaceFile(loader.unpackedFilePath(), time.Time{}, func(file *os.File) error {
+		_, copyErr := io.Copy(file, bzip2.NewReader(source)) // nolint:gosec
 
-	if _, err = io.Copy(target, bzipSource); err != nil { // nolint:gosec
-		return err
-	}
-
-	return nil
+		return copyErr
+	})
 }
 
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
-- 
2.43.0


From 16dda2e01ee1fa022dd7a5883b146530a0083e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 15/24] fix: force update from the downloaded archive, download
 damaged one again

---
 pkg/opencorpora/loader.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index c3c75e3..203320b 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -234,6 +234,13 @@ func (loader Loader) UnpackUpdate() (err error) {
 	})
 }
 
+// isArchiveDamaged returns true if specified error means the archive data itself cannot be unpacked.
+func isArchiveDamaged(err error) bool {
+	var structuralError bzip2.StructuralError
+
+	return errors.As(err, &structuralError) || errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 	var reader *binutils.BinaryReader
 
@@ -339,7 +346,7 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 
 		if forceRecompile {
 			loader.Info("do recompile as force update required")
-			goto compile
+			goto unpack
 		}
 
 		return nil
@@ -348,12 +355,15 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 		loader.Info("update required, downloading")
 	}
 
+download:
 	updated, err = loader.DownloadUpdate()
 
 	switch {
 	case err != nil:
 		loader.Errorf("download: %v", err)
 		return err
+	case !updated && forceRecompile:
+		loader.Info("files not updated, do recompile as force update required")
 	case !updated:
 		loader.Warn("files not updated, no errors")
 		return nil
@@ -364,6 +374,19 @@ unpack:
 	err = loader.UnpackUpdate()
 
 	switch {
+	case isArchiveDamaged(err):
+		loader.Errorf("unpack: %v, remove damaged archive", err)
+
+		if removeErr := os.Remove(loader.downloadedFilePath()); removeErr != nil {
+			loader.Warnf("remove damaged archive: %v", removeErr)
+			return err
+		}
+
+		if !updated { // archive was downloaded some time before, try a fresh one
+			goto download
+		}
+
+		return err
 	case err != nil:
 		loader.Errorf("unpack: %v", err)
 		return err
-- 
2.43.0


From 3decdf8196447fbbe4d52f89c8a71707516b0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 16/24] fix: do not compile incomplete dictionary

---
 pkg/opencorpora/loader.go | 4 ++++
 pkg/opencorpora/parser.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 203320b..b1cd03b 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -319,6 +319,10 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("parse: %w", err)
 	}
 
+	if err == nil && !parser.finished {
+		return fmt.Errorf("%w: parse: incomplete dictionary", Error)
+	}
+
 	return loader.SaveIndex(mainIndex, toFile)
 }
 
diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index b1f917a..9aacdd3 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -45,6 +45,7 @@ type Parser struct {
 	reportAfter     time.Time
 	parsedLemmas    int // parsed lemma's items
 	parsedForms     int // parsed lemma forms
+	finished        bool
 	logAverageSpeed int // report average parse speed each logAverageSpeed seconds
 
 	// max forms to parse.
@@ -186,7 +187,10 @@ func (parser *Parser) onDictionary() *elementProcessor {
 			return parser.dictionary.processElem(parser, element)
 		},
 		processData: ignoreElementData,
-		processEnd:  nil,
+		processEnd: func(element xml.EndElement) error {
+			parser.finished = true
+			return nil
+		},
 	}
 }
 
-- 
2.43.0


From e4069b53486b098ad1e124c4a14fa07f7657baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 17/24] fix: join parts of grammeme name

---
 pkg/opencorpora/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/opencorpora/parser.go b/pkg/opencorpora/parser.go
index 9aacdd3..625d41e 100644
--- a/pkg/opencorpora/parser.go
+++ b/pkg/opencorpora/parser.go
@@ -220,7 +220,7 @@ func (parser *Parser) onGrammemeName() *elementProcessor {
 	return &elementProcessor{
 		processStart: ignoreElementStart,
 		processData: func(data string) error {
-			parser.currentGrammeme.Name = dag.TagName(data)
+			parser.currentGrammeme.Name += dag.TagName(data) // data may come by parts
 			return nil
 		},
 		processEnd: ignoreElementEnd,
-- 
2.43.0


From b86a701557261d7b87b6961a99956e371159f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 18/24] fix: list tag set ids as they are given

---
 internal/index/tagset_index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/index/tagset_index.go b/internal/index/tagset_index.go
index eac1789..8e8b5c7 100644
--- a/internal/index/tagset_index.go
+++ b/internal/index/tagset_index.go
@@ -130,7 +130,7 @@ func (tagSetIndex TagSetIndex) TableIDs() (res []TagSetID) {
 	res = make([]TagSetID, 0)
 	for tableIDx, table := range tagSetIndex {
 		for idxInTable := range table {
-			tableID := TagSetTableNumber(tableIDx).Add(1).TagSetID(TagSetSubID(idxInTable))
+			tableID := TagSetTableNumber(tableIDx).TagSetID(TagSetSubID(idxInTable))
 			res = append(res, tableID)
 		}
 	}
-- 
2.43.0


From 5592ca35bc445ad6de6343e43bbffd0e5726cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 19/24] fix: forced update downloads again if stored archive
 holds incomplete dictionary

A connection closed between parts of the archive leaves data which unpacks
without an error but holds only a part of the dictionary. Every later forced
update found the archive up to date and failed to compile it again.
---
 pkg/opencorpora/loader.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index b1cd03b..96949dd 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -174,14 +174,23 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		return false, nil
 	}
 
-	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
+	if err = loader.fetchUpdate(); err != nil {
 		return false, err
 	}
 
+	return true, nil
+}
+
+// fetchUpdate downloads remote data unconditionally.
+func (loader Loader) fetchUpdate() (err error) {
+	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
+		return err
+	}
+
 	// Get the response bytes from the url
 	response, err := http.Get(RemoteURL)
 	if err != nil {
-		return false, err
+		return err
 	}
 
 	defer func() {
@@ -192,7 +201,7 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 
 	if response.StatusCode != 200 {
 		loader.Warnf("remote %v: status: %v", RemoteURL, response.StatusCode)
-		return false, fmt.Errorf("unexpected response code %v", response.StatusCode)
+		return fmt.Errorf("unexpected response code %v", response.StatusCode)
 	}
 
 	// Keep remote modification time with downloaded data as local clock has no relation to the remote one.
@@ -202,16 +211,11 @@ func (loader Loader) DownloadUpdate() (updated bool, err error) {
 		modTime = time.Unix(0, 0)
 	}
 
-	err = replaceFile(loader.downloadedFilePath(), modTime, func(file *os.File) error {
+	return replaceFile(loader.downloadedFilePath(), modTime, func(file *os.File) error {
 		_, copyErr := io.Copy(file, response.Body)
 
 		return copyErr
 	})
-	if err != nil {
-		return false, err
-	}
-
-	return true, nil
 }
 
 func (loader Loader) UnpackUpdate() (err error) {
@@ -401,7 +405,20 @@ unpack:
 compile:
 	if err = loader.ParseUpdate(loader.unpackedFilePath(), loader.compiledFilePath()); err != nil {
 		loader.Errorf("compile: %v", err)
-		return err
+
+		if !forceRecompile || updated {
+			return err
+		}
+
+		// the data was downloaded some time before and may be incomplete, try a fresh one
+		if err = loader.fetchUpdate(); err != nil {
+			loader.Errorf("download: %v", err)
+			return err
+		}
+
+		updated = true
+
+		goto unpack
 	}
 
 	return nil
-- 
2.43.0


From c4b4096c8d7304703f078f341c8c6235f290ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 20/24] fix: resume interrupted update instead of reporting it
 up to date

An update interrupted after the download left the archive up to date and the
compiled index missing or outdated, every later not forced update reported
success without compiling it. Keep the archive modification time with the data
made from it and go on with the update if the compiled index is another one.
---
 pkg/opencorpora/loader.go | 50 +++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index 96949dd..fc1041b 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -219,7 +219,10 @@ func (loader Loader) fetchUpdate() (err error) {
 }
 
 func (loader Loader) UnpackUpdate() (err error) {
-	var source io.ReadCloser
+	var (
+		source     *os.File
+		sourceStat os.FileInfo
+	)
 
 	if err := os.MkdirAll(loader.DataPath(), os.ModePerm); err != nil {
 		return err
@@ -231,7 +234,12 @@ func (loader Loader) UnpackUpdate() (err error) {
 
 	defer func() { _ = source.Close() }()
 
-	return replaceFile(loader.unpackedFilePath(), time.Time{}, func(file *os.File) error {
+	// Keep archive modification time with unpacked data to know which archive it was taken from.
+	if sourceStat, err = source.Stat(); err != nil {
+		return err
+	}
+
+	return replaceFile(loader.unpackedFilePath(), sourceStat.ModTime(), func(file *os.File) error {
 		_, copyErr := io.Copy(file, bzip2.NewReader(source)) // nolint:gosec
 
 		return copyErr
@@ -280,6 +288,12 @@ func (loader *Loader) LoadIndex() (mainIndex *index.Index, err error) {
 }
 
 func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err error) {
+	return loader.saveIndex(mainIndex, toFile, time.Time{})
+}
+
+// saveIndex saves compiled index into specified file.
+// If not zero modTime specified it becomes the file modification time.
+func (loader *Loader) saveIndex(mainIndex *index.Index, toFile string, modTime time.Time) (err error) {
 	loader.Info("save compiled index")
 
 	defer func() {
@@ -295,7 +309,7 @@ func (loader *Loader) SaveIndex(mainIndex *index.Index, toFile string) (err erro
 	mainIndex.Optimize()
 	loader.Info("saving index")
 
-	err = replaceFile(toFile, time.Time{}, func(file *os.File) error {
+	err = replaceFile(toFile, modTime, func(file *os.File) error {
 		return mainIndex.BinaryWriteTo(binutils.NewBinaryWriter(file))
 	})
 	if err != nil {
@@ -318,6 +332,12 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		}
 	}()
 
+	// Keep source modification time with compiled index to know which data it was compiled from.
+	sourceStat, err := os.Stat(fromFile)
+	if err != nil {
+		return fmt.Errorf("parse: %w", err)
+	}
+
 	err = libxml.ParseXMLFile(fromFile, parser)
 	if err != nil && !errors.Is(err, ErrControlledStop) {
 		return fmt.Errorf("parse: %w", err)
@@ -327,7 +347,22 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("%w: parse: incomplete dictionary", Error)
 	}
 
-	return loader.SaveIndex(mainIndex, toFile)
+	return loader.saveIndex(mainIndex, toFile, sourceStat.ModTime())
+}
+
+// isCompiledActual returns true if compiled index was made from the data downloaded last.
+func (loader Loader) isCompiledActual() bool {
+	downloadedStat, err := os.Stat(loader.downloadedFilePath())
+	if err != nil {
+		return false
+	}
+
+	compiledStat, err := os.Stat(loader.compiledFilePath())
+	if err != nil {
+		return false
+	}
+
+	return compiledStat.ModTime().Equal(downloadedStat.ModTime())
 }
 
 func (loader Loader) Update(forceRecompile bool) (err error) {
@@ -357,6 +392,11 @@ func (loader Loader) Update(forceRecompile bool) (err error) {
 			goto unpack
 		}
 
+		if !loader.isCompiledActual() { // previous update was interrupted
+			loader.Info("compiled index is out of date, do recompile")
+			goto unpack
+		}
+
 		return nil
 
 	default:
@@ -372,6 +412,8 @@ download:
 		return err
 	case !updated && forceRecompile:
 		loader.Info("files not updated, do recompile as force update required")
+	case !updated && !loader.isCompiledActual():
+		loader.Info("files not updated, do recompile as compiled index is out of date")
 	case !updated:
 		loader.Warn("files not updated, no errors")
 		return nil
-- 
2.43.0


From e8c1f20983a73c749ea57b59cbc839cc11d4aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 21/24] fix: keep the shell session alive on negative ids and
 failed reload

Negative tag, set table and node ids crashed the session or gave another
item, numbers of more than 32 bits gave another tag set, the last node could
not be shown, and a failed reload ended the session.
---
 cmd/opencorpora_test/main.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 612221d..251c94d 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -94,7 +94,7 @@ func processTag(logger logging.Logger, items ...string) error {
 			return fmt.Errorf("%w: expected int id: `%v`", ErrTag, arg)
 		}
 
-		if tagId >= tags.Len() {
+		if tagId < 0 || tagId >= tags.Len() {
 			return fmt.Errorf("%w: no such tag id: `%v`", ErrTag, arg)
 		}
 
@@ -137,7 +137,7 @@ func processSet(logger logging.Logger, items ...string) error {
 		if err != nil {
 			return fmt.Errorf("%w.%v: `%v`: int ID required", ErrSet, subCmdTable, items[2])
 		}
-		if tableID >= len(sets) {
+		if tableID < 0 || tableID >= len(sets) {
 			return fmt.Errorf("%w.%v: `%v`: no such set table", ErrSet, subCmdTable, tableID)
 		}
 		table := sets[tableID]
@@ -151,7 +151,7 @@ func processSet(logger logging.Logger, items ...string) error {
 
 	default:
 		logger.Infof("%v.%v: looking tag set %v", cmdSet, subCmd, subCmd)
-		tsNumber, err := strconv.ParseInt(subCmd, 0, 0)
+		tsNumber, err := strconv.ParseUint(subCmd, 0, 32)
 		if err != nil {
 			return fmt.Errorf("%w.%v: expected int or hex set number", ErrSet, subCmd)
 		}
@@ -273,7 +273,7 @@ func processNode(logger logging.Logger, items ...string) error {
 			}
 			strNodeId = strconv.Itoa(int(node.Id()))
 		} else {
-			if nodeID >= idx.NodesCount() {
+			if nodeID < 0 || nodeID > idx.NodesCount() {
 				return fmt.Errorf("%w.%v: `%v`: no such node", ErrNode, subCmdInfo, strNodeId)
 			}
 
@@ -333,11 +333,14 @@ func processNode(logger logging.Logger, items ...string) error {
 func processReload(logger logging.Logger) (err error) {
 	logger.Infof("reloading index")
 	loader := opencorpora.NewLoader("")
-	if idx, err = loader.LoadIndex(); err != nil {
-		logger.Error("load index: %v", err)
-		os.Exit(1)
+
+	reloaded, err := loader.LoadIndex()
+	if err != nil {
+		return fmt.Errorf("load index: %w", err) // keep using index loaded before
 	}
 
+	idx = reloaded
+
 	return nil
 }
 
-- 
2.43.0


From 640029a07e730d747517a9c9e36571f5974d68bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 22/24] Revert "fix: keep the shell session alive on negative
 ids and failed reload"

This reverts commit e8c1f20983a73c749ea57b59cbc839cc11d4aa7c.
---
 cmd/opencorpora_test/main.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/cmd/opencorpora_test/main.go b/cmd/opencorpora_test/main.go
index 251c94d..612221d 100644
--- a/cmd/opencorpora_test/main.go
+++ b/cmd/opencorpora_test/main.go
@@ -94,7 +94,7 @@ func processTag(logger logging.Logger, items ...string) error {
 			return fmt.Errorf("%w: expected int id: `%v`", ErrTag, arg)
 		}
 
-		if tagId < 0 || tagId >= tags.Len() {
+		if tagId >= tags.Len() {
 			return fmt.Errorf("%w: no such tag id: `%v`", ErrTag, arg)
 		}
 
@@ -137,7 +137,7 @@ func processSet(logger logging.Logger, items ...string) error {
 		if err != nil {
 			return fmt.Errorf("%w.%v: `%v`: int ID required", ErrSet, subCmdTable, items[2])
 		}
-		if tableID < 0 || tableID >= len(sets) {
+		if tableID >= len(sets) {
 			return fmt.Errorf("%w.%v: `%v`: no such set table", ErrSet, subCmdTable, tableID)
 		}
 		table := sets[tableID]
@@ -151,7 +151,7 @@ func processSet(logger logging.Logger, items ...string) error {
 
 	default:
 		logger.Infof("%v.%v: looking tag set %v", cmdSet, subCmd, subCmd)
-		tsNumber, err := strconv.ParseUint(subCmd, 0, 32)
+		tsNumber, err := strconv.ParseInt(subCmd, 0, 0)
 		if err != nil {
 			return fmt.Errorf("%w.%v: expected int or hex set number", ErrSet, subCmd)
 		}
@@ -273,7 +273,7 @@ func processNode(logger logging.Logger, items ...string) error {
 			}
 			strNodeId = strconv.Itoa(int(node.Id()))
 		} else {
-			if nodeID < 0 || nodeID > idx.NodesCount() {
+			if nodeID >= idx.NodesCount() {
 				return fmt.Errorf("%w.%v: `%v`: no such node", ErrNode, subCmdInfo, strNodeId)
 			}
 
@@ -333,14 +333,11 @@ func processNode(logger logging.Logger, items ...string) error {
 func processReload(logger logging.Logger) (err error) {
 	logger.Infof("reloading index")
 	loader := opencorpora.NewLoader("")
-
-	reloaded, err := loader.LoadIndex()
-	if err != nil {
-		return fmt.Errorf("load index: %w", err) // keep using index loaded before
+	if idx, err = loader.LoadIndex(); err != nil {
+		logger.Error("load index: %v", err)
+		os.Exit(1)
 	}
 
-	idx = reloaded
-
 	return nil
 }
 
-- 
2.43.0


From cbb8eb9c6437974b4cf856ab4a9701d7713ad9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 23/24] fix: do not mix data of processes replacing the same
 file at once

---
 pkg/opencorpora/file.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/opencorpora/file.go b/pkg/opencorpora/file.go
index 8dba74d..2cc7a9d 100644
--- a/pkg/opencorpora/file.go
+++ b/pkg/opencorpora/file.go
@@ -1,6 +1,8 @@
 package opencorpora
 
 import (
+	"errors"
+	"fmt"
 	"os"
 	"time"
 )
@@ -8,6 +10,19 @@ import (
 // tempFileSuffix added to the name of file being written until its data completely stored.
 const tempFileSuffix = ".tmp"
 
+// createTemp creates new temporary file next to the file at specified path.
+// Its name is not used by anyone else, so those who replace the same file at the same time do not mix their data.
+func createTemp(filePath string) (file *os.File, err error) {
+	for n := 0; ; n++ {
+		tempPath := fmt.Sprintf("%s.%d%s", filePath, n, tempFileSuffix)
+
+		file, err = os.OpenFile(tempPath, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o666) // nolint:gomnd,gosec
+		if !errors.Is(err, os.ErrExist) {
+			return file, err
+		}
+	}
+}
+
 // replaceFile replaces content of the file at specified path with the data stored by supplied fill function.
 // Data goes into temporary file which takes its place only when completely stored,
 // so there is either previous or complete new data at the path at any moment.
@@ -15,12 +30,11 @@ const tempFileSuffix = ".tmp"
 func replaceFile(filePath string, modTime time.Time, fill func(file *os.File) error) (err error) {
 	var file *os.File
 
-	tempPath := filePath + tempFileSuffix
-
-	if file, err = os.Create(tempPath); err != nil {
+	if file, err = createTemp(filePath); err != nil {
 		return err
 	}
 
+	tempPath := file.Name()
 	stored := false
 
 	defer func() {
-- 
2.43.0


From c5674f4077a97449c833e2d6cc10352ea6672f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 24/24] fix: keep modification time of the data really compiled

---
 pkg/opencorpora/loader.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/opencorpora/loader.go b/pkg/opencorpora/loader.go
index fc1041b..d7e4caa 100644
--- a/pkg/opencorpora/loader.go
+++ b/pkg/opencorpora/loader.go
@@ -332,8 +332,15 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		}
 	}()
 
+	source, err := os.Open(fromFile)
+	if err != nil {
+		return fmt.Errorf("parse: %w", err)
+	}
+
+	defer func() { _ = source.Close() }()
+
 	// Keep source modification time with compiled index to know which data it was compiled from.
-	sourceStat, err := os.Stat(fromFile)
+	sourceStat, err := source.Stat()
 	if err != nil {
 		return fmt.Errorf("parse: %w", err)
 	}
@@ -347,6 +354,18 @@ func (loader *Loader) ParseUpdate(fromFile string, toFile string) (err error) {
 		return fmt.Errorf("%w: parse: incomplete dictionary", Error)
 	}
 
+	// Parser opens the source by its name, so modification time is of the same data only if it was not replaced.
+	currentStat, err := os.Stat(fromFile)
+	if err != nil {
+		return fmt.Errorf("parse: %w", err)
+	}
+
+	if !os.SameFile(sourceStat, currentStat) {
+		loader.Warnf("%v replaced while parsing, parse again", fromFile)
+
+		return loader.ParseUpdate(fromFile, toFile)
+	}
+
 	return loader.saveIndex(mainIndex, toFile, sourceStat.ModTime())
 }
 
-- 
2.43.0

