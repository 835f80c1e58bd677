From 0f3b4e129ab05753d22fff2fc948a97ab691eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 01/26] fix: LRUCache.Get reorders the page list under a shared
 lock

Get called MoveToFront while holding only the read lock, so concurrent
lookups (index.Search runs five at a time) corrupted the recency list, and
the returned pointer aliased a page that a later Put overwrites. Take the
exclusive lock and return a pointer to a copy of the value.
---
 cache/LRU.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cache/LRU.go b/cache/LRU.go
index 93b5b53..b764622 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -26,11 +26,13 @@ func NewLRUCache[T any](capacity int) *LRUCache[T] {
 }
 
 func (l *LRUCache[T]) Get(key string) (*T, bool) {
-	l.RLock()
-	defer l.RUnlock()
+	//MoveToFront changes the list, so a shared lock is not enough
+	l.Lock()
+	defer l.Unlock()
 	if elem, ok := l.cache[key]; ok {
 		l.pages.MoveToFront(elem)
-		return &elem.Value.(*Page[T]).value, true
+		value := elem.Value.(*Page[T]).value
+		return &value, true
 	}
 	return nil, false
 }
-- 
2.43.0


From 99f83fc9a3f79489975ba22eadbc3277011df0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 02/26] fix: LRUCache.Put panics when the capacity is zero

With no room for any page Put evicted from an empty list and dereferenced
nil. A cache without capacity now stores nothing.
---
 cache/LRU.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/LRU.go b/cache/LRU.go
index b764622..35f901d 100644
--- a/cache/LRU.go
+++ b/cache/LRU.go
@@ -46,6 +46,10 @@ func (l *LRUCache[T]) Put(key string, value T) {
 		return
 	}
 
+	if l.capacity <= 0 {
+		return
+	}
+
 	if l.pages.Len() >= l.capacity {
 		delete(l.cache, l.pages.Back().Value.(*Page[T]).key)
 		l.pages.Remove(l.pages.Back())
-- 
2.43.0


From 12ab1e18c9acf71d5e2b4e0b5e9ca72967ccb91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 03/26] fix: SyncMap never publishes what is Put into it

The writer goroutine was not started, so no Put became visible and the
1001st Put blocked forever. The merge also copied the published data over
the buffered values, so an update of an existing key was lost, and read
len(i.Data) without the lock.
---
 cache/Map.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cache/Map.go b/cache/Map.go
index 1406c05..16f0a62 100644
--- a/cache/Map.go
+++ b/cache/Map.go
@@ -29,7 +29,7 @@ func NewSyncMap[T any]() *SyncMap[T] {
 		Ch:   make(chan TransferData[T], 1000),
 	}
 
-	//go i.writer()
+	go i.writer()
 	return i
 }
 
@@ -53,20 +53,21 @@ func (i *SyncMap[T]) writer() {
 			m.Unlock()
 		case <-ticker.C:
 
+			i.RLock()
+			bufferCopy := make(map[string]T, len(i.Data))
+			for key, value := range i.Data {
+				bufferCopy[key] = value
+			}
+			i.RUnlock()
+
+			//The buffered values are newer than the published ones
 			m.Lock()
-			bufferCopy := make(map[string]T, len(i.Data)+len(buffer))
 			for key, value := range buffer {
 				bufferCopy[key] = value
 			}
 			buffer = make(map[string]T)
 			m.Unlock()
 
-			i.RLock()
-			for key, value := range i.Data {
-				bufferCopy[key] = value
-			}
-			i.RUnlock()
-
 			i.Lock()
 			i.Data = bufferCopy
 			i.Unlock()
-- 
2.43.0


From 9f61bed60d967d8052fcc23a49f7bbbacba83b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 04/26] fix: shard id is negative on 32-bit platforms

int(hash) of a checksum above MaxInt32 is negative where int has 32 bits,
so Get panicked with 'Shard not found'. Reduce before converting.
---
 cache/Shard.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/Shard.go b/cache/Shard.go
index ae8800a..76bb6e3 100644
--- a/cache/Shard.go
+++ b/cache/Shard.go
@@ -40,5 +40,5 @@ func (m *Shard[T]) Get(key string) (*LocalMap[T], bool) {
 
 func (m *Shard[T]) getShardId(key string) int {
 	hash := crc32.ChecksumIEEE([]byte(key))
-	return int(hash) % m.Fragments
+	return int(hash % uint32(m.Fragments))
 }
-- 
2.43.0


From dbfdae703d5e2c4a2dc64eb9176ea948e0ad5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 05/26] fix: Lowercase overwrites the caller's tokens

Every other filter leaves its input alone; Lowercase wrote the lowered
words into the slice it was given.
---
 filter/Lowercase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter/Lowercase.go b/filter/Lowercase.go
index cb77fc9..c54503b 100644
--- a/filter/Lowercase.go
+++ b/filter/Lowercase.go
@@ -10,8 +10,9 @@ func NewLowercase() Filter {
 }
 
 func (l Lowercase) Process(text []string) []string {
+	temp := make([]string, len(text))
 	for i, t := range text {
-		text[i] = strings.ToLower(t)
+		temp[i] = strings.ToLower(t)
 	}
-	return text
+	return temp
 }
-- 
2.43.0


From db581b10aa19eca06a29da69a3296dac8dc860af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 06/26] fix: ids and fields that are not strings are formatted
 with %s

{"Id": 5} got the id '%!s(float64=5)', and numeric fields were indexed
under the tokens of that error text.
---
 field/FieldProcess.go | 2 +-
 main.go               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 628c3a7..405c93e 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -19,7 +19,7 @@ func StringToObject(document string) map[string]interface{} {
 func GetID(input map[string]interface{}) string {
 	for k, v := range input {
 		if k == ID {
-			return fmt.Sprintf("%s", v)
+			return fmt.Sprintf("%v", v)
 		}
 	}
 	return ""
diff --git a/main.go b/main.go
index aded6c2..80872ae 100644
--- a/main.go
+++ b/main.go
@@ -247,7 +247,7 @@ func mainxcrt() {
 
 		var fields []model.Field
 		for k, v := range flatted {
-			r := Preprocessing(fmt.Sprintf("%s", v))
+			r := Preprocessing(fmt.Sprintf("%v", v))
 			fields = append(fields, model.Field{
 				Name:   k,
 				Length: len(r),
-- 
2.43.0


From c00dfc6c231f167bc37224d53e674dc30d2e278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 07/26] fix: Memory.UpdateIndex counts the field,
 Disk.UpdateIndex does not

Through the same Storage interface the two backends left different field
sizes and lengths behind. UpdateIndex now only touches the postings in
both; SaveOrUpdate counts.
---
 storage/Memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/Memory.go b/storage/Memory.go
index 3310ee5..3765033 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -13,9 +13,6 @@ type Memory struct {
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
-	m.FieldSize[field.Name] += 1
-	m.FieldLength[field.Name] += field.Length
-
 	indexField := m.Index[field.Name]
 
 	if indexField == nil {
@@ -94,6 +91,9 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.FieldSize[field.Name] += 1
+	m.FieldLength[field.Name] += field.Length
+
 	m.createFieldDocument(documentId, field)
 
 	m.UpdateIndex(documentId, field)
-- 
2.43.0


From 0e295964204cc6dae5da675958f6220dd299359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 08/26] fix: the disk store is read and written by concurrent
 requests without its lock

main serves POST and GET from the same store, but no method of Disk took
mu, so a search during an indexing request read maps that were being
written (fatal error: concurrent map read and map write). Every method now
holds mu, and GetDocuments and GetIndex return copies of the postings
instead of the maps the store goes on changing.
---
 model/Set.go           |  8 ++++++++
 storage/DiskStorage.go | 24 ++++++++++++++++++++++--
 storage/Storage.go     | 14 ++++++++++++++
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/model/Set.go b/model/Set.go
index 2f0a176..dec735d 100644
--- a/model/Set.go
+++ b/model/Set.go
@@ -14,6 +14,14 @@ func (s *Set) GetData() map[string]bool {
 	return s.data
 }
 
+func (s *Set) Clone() Set {
+	data := make(map[string]bool, len(s.data))
+	for element := range s.data {
+		data[element] = true
+	}
+	return Set{data: data}
+}
+
 func (s *Set) Add(element string) {
 	s.data[element] = true
 }
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index ce8fdc1..47ba7ba 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -87,6 +87,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 }
 
 func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = d.numberFieldTerm[fieldName][term]
@@ -95,27 +97,37 @@ func (d *Disk) GetNumberFieldTerm(fieldName string, terms []string) map[string]i
 }
 
 func (d *Disk) GetFieldLength(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldLength[fieldName]
 }
 
 func (d *Disk) GetFieldSize(fieldName string) int {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	return d.fieldSize[fieldName]
 }
 
 func (d *Disk) GetIndex(fieldName string) map[string]*model.Set {
-	return d.index[fieldName]
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+	return cloneIndexField(d.index[fieldName])
 }
 
 func (d *Disk) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 	if indexField, ok := d.index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return set.Clone(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -139,6 +151,8 @@ func (d *Disk) GetFields(documentId []string, fieldName string) map[string]model
 }
 
 func (d *Disk) UpdateFieldSizeLength(field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	d.fieldSize[field.Name] += 1
 	d.fieldLength[field.Name] += field.Length
 
@@ -150,6 +164,8 @@ func (d *Disk) UpdateFieldSizeLength(field model.Field) {
 }
 
 func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	fieldTerm := d.numberFieldTerm[field.Name]
 	if fieldTerm == nil {
 		fieldTerm = make(map[string]int)
@@ -169,6 +185,8 @@ func (d *Disk) UpdateNumberFieldTerm(field model.Field) {
 }
 
 func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
 	var fieldIndex map[string]model.Field
 
@@ -189,6 +207,8 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 }
 
 func (d *Disk) UpdateIndex(documentId string, field model.Field) {
+	d.mu.Lock()
+	defer d.mu.Unlock()
 
 	indexField := d.index[field.Name]
 	if indexField == nil {
diff --git a/storage/Storage.go b/storage/Storage.go
index 795eb20..2379f4f 100644
--- a/storage/Storage.go
+++ b/storage/Storage.go
@@ -20,3 +20,17 @@ type Storage interface {
 	//sds
 	UpdateIndex(documentId string, field model.Field)
 }
+
+// cloneIndexField copies the postings of a field, so that they can be read without holding the lock of the store
+func cloneIndexField(indexField map[string]*model.Set) map[string]*model.Set {
+	if indexField == nil {
+		return nil
+	}
+
+	temp := make(map[string]*model.Set, len(indexField))
+	for term, set := range indexField {
+		clone := set.Clone()
+		temp[term] = &clone
+	}
+	return temp
+}
-- 
2.43.0


From f09066f16149b78aa09efe889768f711fae766b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 09/26] fix: a document's fields are changed while the writer
 serializes them

UpdateFieldDocument sent the cached map to SaveDocumentFieldOnDisk and went
on adding fields to it, so the flush iterated a map under concurrent
writes (fatal error). Every update now builds a new map.
---
 storage/DiskStorage.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index 47ba7ba..f39cbdc 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -188,12 +188,13 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
-	var fieldIndex map[string]model.Field
+	//The map that is in the cache belongs to the writer goroutine too, it can't be changed
+	fieldIndex := make(map[string]model.Field)
 
 	if fieldIndexPtr, ok := d.fieldDocumentCache.Get(documentId); ok {
-		fieldIndex = *fieldIndexPtr
-	} else {
-		fieldIndex = make(map[string]model.Field)
+		for name, f := range *fieldIndexPtr {
+			fieldIndex[name] = f
+		}
 	}
 
 	fieldIndex[field.Name] = field
-- 
2.43.0


From cf55e6332ff463ebcb379e32ea1ef7b4f0b5d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 10/26] fix: updating one field of an uncached document erases
 its other fields

When the document was not in the LRU (evicted, or the store was reopened)
UpdateFieldDocument started from an empty map, and the writer replaced the
file of the document with that one field. Start from the stored fields,
and merge in the writer instead of replacing.
---
 storage/DiskIO.go      | 18 +++++++++++++++++-
 storage/DiskStorage.go |  4 ++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index ab565ca..102b885 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -199,7 +199,14 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 		select {
 		case fieldDocument := <-data:
 			localBuffer.Lock()
-			localBuffer.data[fieldDocument.DocumentId] = fieldDocument.Field
+			fieldMap, ok := localBuffer.data[fieldDocument.DocumentId]
+			if !ok {
+				fieldMap = make(map[string]model.Field)
+				localBuffer.data[fieldDocument.DocumentId] = fieldMap
+			}
+			for name, field := range fieldDocument.Field {
+				fieldMap[name] = field
+			}
 			localBuffer.Unlock()
 		case <-ticker.C:
 			localBuffer.Lock()
@@ -207,6 +214,15 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 				path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics)
 				file.CreteDirIfNotExist(path)
 
+				//The document may have been evicted from the cache, its other fields are only in the file
+				if stored, ok := d.LoadFieldDocumentOnHD(documentId); ok {
+					for name, field := range stored {
+						if _, ok := fieldMap[name]; !ok {
+							fieldMap[name] = field
+						}
+					}
+				}
+
 				buf := SerializeFieldMap(fieldMap)
 				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
 				if err != nil {
diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index f39cbdc..f5ea9e3 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -195,6 +195,10 @@ func (d *Disk) UpdateFieldDocument(documentId string, field model.Field) {
 		for name, f := range *fieldIndexPtr {
 			fieldIndex[name] = f
 		}
+	} else if stored, ok := d.diskIO.LoadFieldDocumentOnHD(documentId); ok {
+		for name, f := range stored {
+			fieldIndex[name] = f
+		}
 	}
 
 	fieldIndex[field.Name] = field
-- 
2.43.0


From e7b986b99549d3086dee106e428a9c5a0a0c0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 11/26] fix: every flush of the term counts erases the counts
 of the other terms

The buffer only holds the terms that changed since the last flush, but the
flush replaced the whole nfterm file with it, so after a restart the
document frequency of all earlier terms was zero. Merge the changed counts
into the stored ones.
---
 storage/DiskIO.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 102b885..31619dc 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -24,19 +24,27 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	numberFieldTerm := make(map[string]map[string]int)
 	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
-		if !file.Exists(path) {
-			continue
-		}
-		buf, err := file.ReadFileOnDisk(path)
+		termSize, err := d.loadNumberFieldTerm(field)
 		if err != nil {
 			return nil, err
 		}
-		numberFieldTerm[field] = DeserializeNumberFieldTerm(file.DecompressData(buf))
+		numberFieldTerm[field] = termSize
 	}
 	return numberFieldTerm, nil
 }
 
+func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
+	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	if !file.Exists(path) {
+		return make(map[string]int), nil
+	}
+	buf, err := file.ReadFileOnDisk(path)
+	if err != nil {
+		return nil, err
+	}
+	return DeserializeNumberFieldTerm(file.DecompressData(buf)), nil
+}
+
 func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	fieldSize := make(map[string]int)
@@ -265,8 +273,17 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 				path := filepath.Join(d.RootFolder, fieldName)
 				file.CreteDirIfNotExist(path)
 
-				buf := SerializeNumberFieldTerm(termSize)
-				err := file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
+				//termSize has only the terms that changed since the last time
+				stored, err := d.loadNumberFieldTerm(fieldName)
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				for term, size := range termSize {
+					stored[term] = size
+				}
+
+				buf := SerializeNumberFieldTerm(stored)
+				err = file.SecureSaveFile(path, file.NumberFieldTerm, file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From da923d104070ff8d8b642c9a970b6a9d21fd932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 12/26] fix: a crash inside SecureSaveFile loses the file it
 replaces

The current file was renamed away before the new one was renamed in place.
After a crash in between, loading found no file, took the index or metrics
for empty, and the next save deleted the _old copy. Rename the new file
over the current one, which replaces it atomically.
---
 file/File.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/file/File.go b/file/File.go
index 131a7b8..878574d 100644
--- a/file/File.go
+++ b/file/File.go
@@ -136,31 +136,17 @@ func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
 	tempPath := filepath.Join(path, fileName+"_temp")
-	oldPath := filepath.Join(path, fileName+"_old")
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
 		return fmt.Errorf("failed to create temp file: %w", err)
 	}
 
-	if Exists(currentPath) {
-		err = RenameFile(currentPath, oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to rename current file to old file: %w", err)
-		}
-	}
-
+	//Rename replaces the current file atomically, there is always a complete one in place
 	err = RenameFile(tempPath, currentPath)
 	if err != nil {
 		return fmt.Errorf("failed to rename temp file to current file: %w", err)
 	}
 
-	if Exists(oldPath) {
-		err = Delete(oldPath)
-		if err != nil {
-			return fmt.Errorf("failed to delete old file: %w", err)
-		}
-	}
-
 	return nil
 }
-- 
2.43.0


From 209c0633693181afefdde54b5dde10badf42b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 13/26] fix: the merge can read an index fragment that is still
 being written

SaveIndexOnDisk wrote fragments straight into the temp folder that the
merge goroutine lists, so it could decompress a partial file and panic.
Write the fragment next to the folder and rename it in.
---
 storage/DiskIO.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 31619dc..06c6828 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -385,13 +385,18 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				path := filepath.Join(d.RootFolder, fieldName, file.Temp)
+				fieldPath := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(fieldPath, file.Temp)
 				file.CreteDirIfNotExist(path)
 
+				//The merge reads every file that it finds in temp, only complete ones can get there
 				tempFile := uuid.New().String()
-				path = filepath.Join(path, tempFile)
-				err := file.SaveFileOnDisk(path, file.CompressData(buffer))
-				//err := file.SecureSaveFile(path, tempFile, file.CompressData(buffer))
+				stagedPath := filepath.Join(fieldPath, tempFile)
+				err := file.SaveFileOnDisk(stagedPath, file.CompressData(buffer))
+				if err != nil {
+					log.Fatalf(err.Error())
+				}
+				err = file.RenameFile(stagedPath, filepath.Join(path, tempFile))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
-- 
2.43.0


From 26cc080931a48db1b79c8819d9ef7e402b285780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 14/26] fix: one failed merge silently stops all later merges

The merge goroutine dropped the error and returned, and index fragments
piled up until the next start. Log the error and try again.
---
 storage/DiskStorage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storage/DiskStorage.go b/storage/DiskStorage.go
index f5ea9e3..7caf627 100644
--- a/storage/DiskStorage.go
+++ b/storage/DiskStorage.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/sira-serverless-ir-arch/goirlib/cache"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"log"
 	"sync"
 	"time"
 )
@@ -77,7 +78,8 @@ func NewDiskStore(rootFolder string, cacheSize int) (Storage, error) {
 			time.Sleep(15 * time.Second)
 			_, err := diskIO.LoadIndexOnHD()
 			if err != nil {
-				return
+				log.Printf("Error merge index: %v", err)
+				continue
 			}
 			fmt.Println("Merge documents")
 		}
-- 
2.43.0


From 4bb142d93698e34481631e8ab958bda1562ea645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 15/26] fix: GET /nir panics when fewer than ten documents
 match

The handler sliced the results to [0:10] whatever their number, and always
reported a total of 10.
---
 main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 80872ae..387fb9d 100644
--- a/main.go
+++ b/main.go
@@ -202,12 +202,16 @@ func main() {
 			}
 		}
 
+		if len(queryResults) > 10 {
+			queryResults = queryResults[0:10]
+		}
+
 		body := Result{
 			Duration:       duration.String(),
-			Total:          10,
+			Total:          len(queryResults),
 			Algorithm:      "BM25",
 			SemanticSearch: false,
-			QueryResults:   queryResults[0:10],
+			QueryResults:   queryResults,
 		}
 		c.JSON(http.StatusOK, body)
 	})
-- 
2.43.0


From ed6f26ff8aeb845ba7f98197e50670683af76e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 16/26] fix: concurrent requests race on the global query
 counter

Every GET incremented a package variable without synchronization. Nothing
reads it; remove it.
---
 main.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/main.go b/main.go
index 387fb9d..d2040c0 100644
--- a/main.go
+++ b/main.go
@@ -46,8 +46,6 @@ func isNotDocumentComplete(doc Document) bool {
 	return false
 }
 
-var id = 0
-
 func maincc() {
 	lru := cache.NewSyncMap[float64]()
 
@@ -179,8 +177,6 @@ func main() {
 		})
 
 		duration := time.Since(start)
-		id += 1
-		//fmt.Println("Qid:", id, len(rs))
 		if len(rs) == 0 {
 			body := Result{
 				Duration:       duration.String(),
-- 
2.43.0


From 91cae3c94b90d25585abcff51294476c6183c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 17/26] fix: the same search returns its documents in a
 different order each time

Documents with equal scores came out in map order, and the fields were
summed in the order in which their goroutines finished, so ranks and the
first page changed between identical requests. Sum in query order and
break ties by id.
---
 search/Standard.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/search/Standard.go b/search/Standard.go
index 16fc904..03d02bc 100644
--- a/search/Standard.go
+++ b/search/Standard.go
@@ -20,12 +20,12 @@ func NewStandard(index index.Index) Search {
 
 func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 
-	scoresCh := make(chan []model.DocumentScore, len(query))
+	scores := make([][]model.DocumentScore, len(query))
 	var wg sync.WaitGroup
 	wg.Add(len(query))
 
-	for _, q := range query {
-		go func(terms []string, fieldName string, boost float64) {
+	for i, q := range query {
+		go func(position int, terms []string, fieldName string, boost float64) {
 			defer wg.Done()
 			r := s.Index.Search(terms, fieldName)
 			documentsScores := make([]model.DocumentScore, len(r.FieldDocuments))
@@ -38,17 +38,15 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 
 				i += 1
 			}
-			scoresCh <- documentsScores
-		}(q.Terms, q.FieldName, q.Boost)
+			scores[position] = documentsScores
+		}(i, q.Terms, q.FieldName, q.Boost)
 	}
 
-	go func() {
-		wg.Wait()
-		close(scoresCh)
-	}()
+	wg.Wait()
 
+	//Always in the order of the query, a float sum depends on its order
 	tempScores := make(map[string]float64)
-	for documentScores := range scoresCh {
+	for _, documentScores := range scores {
 		for _, document := range documentScores {
 			tempScores[document.Id] += document.Score
 		}
@@ -65,7 +63,10 @@ func (s *Standard) Search(query []model.Query) []model.DocumentScore {
 	}
 
 	sort.Slice(documentsScores, func(i, j int) bool {
-		return documentsScores[i].Score > documentsScores[j].Score
+		if documentsScores[i].Score != documentsScores[j].Score {
+			return documentsScores[i].Score > documentsScores[j].Score
+		}
+		return documentsScores[i].Id < documentsScores[j].Id
 	})
 
 	return documentsScores
-- 
2.43.0


From 0f37ca55c3953fbc3c0ad6ea21bd4c0577a67b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 18/26] fix: the average length of a field without documents is
 NaN

Searching a field that was never indexed divided zero by zero.
---
 index/InvertedIndex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index/InvertedIndex.go b/index/InvertedIndex.go
index cf4c37d..cffc6d2 100644
--- a/index/InvertedIndex.go
+++ b/index/InvertedIndex.go
@@ -115,7 +115,9 @@ func (i *InvertedIndex) Search(terms []string, fieldName string) model.SearchRes
 
 	result.FieldDocuments = fieldDocuments
 	result.TotalDocuments = fieldSize
-	result.AvgDocLength = fieldLength / fieldSize
+	if fieldSize > 0 {
+		result.AvgDocLength = fieldLength / fieldSize
+	}
 
 	return result
 }
-- 
2.43.0


From ba1c40270573d7a9c2328b88bc1ca40d3ec0c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 19/26] fix: document ids and field names reach file paths
 unescaped

A document posted with the id '../../x' was written outside the store, the
id 'x_temp' shared its file with the temp file of 'x', a field called
'docs' was never loaded again, and ids such as '' or '.' ended the process.
Escape names before they become path components, undo it when folders are
listed, and give temp files a suffix no escaped name has.
---
 file/File.go      | 25 ++++++++++++++++++++++++-
 storage/DiskIO.go | 24 +++++++++++++-----------
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/file/File.go b/file/File.go
index 878574d..66401cb 100644
--- a/file/File.go
+++ b/file/File.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 const (
@@ -20,6 +21,28 @@ const (
 	DocumentsRaw     = "raw"
 )
 
+var nameEscaper = strings.NewReplacer("%", "%25", "/", "%2F", "\\", "%5C", "\x00", "%00")
+var nameUnescaper = strings.NewReplacer("%25", "%", "%2F", "/", "%5C", "\\", "%00", "\x00")
+
+// SafeName turns a field name or a document id into a file name. Different names have different file names,
+// none leaves the folder it is joined to, and none is the documents folder or ends like a temp file.
+func SafeName(name string) string {
+	switch name {
+	case "", ".", "..", Documents:
+		return "%" + name
+	}
+	return nameEscaper.Replace(name)
+}
+
+// OriginalName is the inverse of SafeName
+func OriginalName(fileName string) string {
+	switch fileName {
+	case "%", "%.", "%..", "%" + Documents:
+		return fileName[1:]
+	}
+	return nameUnescaper.Replace(fileName)
+}
+
 func CompressData(buf []byte) []byte {
 	var b bytes.Buffer
 	gz := gzip.NewWriter(&b)
@@ -135,7 +158,7 @@ func ListDirectories(path string) []string {
 func SecureSaveFile(path, fileName string, buff []byte) error {
 
 	currentPath := filepath.Join(path, fileName)
-	tempPath := filepath.Join(path, fileName+"_temp")
+	tempPath := filepath.Join(path, fileName+"%temp")
 
 	err := SaveFileOnDisk(tempPath, buff)
 	if err != nil {
diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 06c6828..75313a2 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -23,7 +23,8 @@ func NewDiskIO(rootFolder string) DiskIO {
 func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	numberFieldTerm := make(map[string]map[string]int)
-	for _, field := range fields {
+	for _, fieldFolder := range fields {
+		field := file.OriginalName(fieldFolder)
 		termSize, err := d.loadNumberFieldTerm(field)
 		if err != nil {
 			return nil, err
@@ -34,7 +35,7 @@ func (d *DiskIO) LoadNumberFieldTermOnHD() (map[string]map[string]int, error) {
 }
 
 func (d *DiskIO) loadNumberFieldTerm(field string) (map[string]int, error) {
-	path := filepath.Join(d.RootFolder, field, file.NumberFieldTerm)
+	path := filepath.Join(d.RootFolder, file.SafeName(field), file.NumberFieldTerm)
 	if !file.Exists(path) {
 		return make(map[string]int), nil
 	}
@@ -68,7 +69,7 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 }
 
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
-	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, documentId)
+	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.SafeName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
 	if err != nil {
 		return nil, false
@@ -78,7 +79,7 @@ func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Fiel
 
 func LoadTermDocumentsFromIndex(field string, rootFolder string) (map[string]*model.Set, error) {
 	termDocuments := make(map[string]*model.Set)
-	path := filepath.Join(rootFolder, field, file.IndexFile)
+	path := filepath.Join(rootFolder, file.SafeName(field), file.IndexFile)
 	if !file.Exists(path) {
 		return termDocuments, nil
 	}
@@ -101,8 +102,9 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 	fields := file.ListDirectories(d.RootFolder)
 	index := make(map[string]map[string]*model.Set)
 
-	for _, field := range fields {
-		path := filepath.Join(d.RootFolder, field, file.Temp)
+	for _, fieldFolder := range fields {
+		field := file.OriginalName(fieldFolder)
+		path := filepath.Join(d.RootFolder, file.SafeName(field), file.Temp)
 		file.CreteDirIfNotExist(path)
 		files := file.ListFiles(path)
 
@@ -138,7 +140,7 @@ func (d *DiskIO) LoadIndexOnHD() (map[string]map[string]*model.Set, error) {
 		}
 
 		buffer := SerializeIndex(tempTermDocuments)
-		indexPath := filepath.Join(d.RootFolder, field)
+		indexPath := filepath.Join(d.RootFolder, file.SafeName(field))
 		file.CreteDirIfNotExist(indexPath)
 
 		err = file.SecureSaveFile(indexPath, file.IndexFile, file.CompressData(buffer))
@@ -232,7 +234,7 @@ func (d *DiskIO) SaveDocumentFieldOnDisk(data chan DocumentFieldTransferData) {
 				}
 
 				buf := SerializeFieldMap(fieldMap)
-				err := file.SecureSaveFile(path, documentId, file.CompressData(buf))
+				err := file.SecureSaveFile(path, file.SafeName(documentId), file.CompressData(buf))
 				if err != nil {
 					log.Fatalf(err.Error())
 				}
@@ -270,7 +272,7 @@ func (d *DiskIO) SaveNumberFieldTermOnDisk(data chan NumberFieldTermTransferData
 			buffer.Lock()
 			for fieldName, termSize := range buffer.data {
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.SafeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				//termSize has only the terms that changed since the last time
@@ -318,7 +320,7 @@ func (d *DiskIO) SaveFieldSizeLengthOnDisc(data chan FieldSizeLengthTransferData
 				length := buffer.Length[fieldName]
 				size := buffer.Size[fieldName]
 
-				path := filepath.Join(d.RootFolder, fieldName)
+				path := filepath.Join(d.RootFolder, file.SafeName(fieldName))
 				file.CreteDirIfNotExist(path)
 
 				buf := SerializeFieldSizeLength(fieldName, int32(size), int32(length))
@@ -385,7 +387,7 @@ func (d *DiskIO) SaveIndexOnDisk(indexCh chan IndexTransferData) {
 			bufferData.Lock()
 			for fieldName, terms := range bufferData.buffer {
 				buffer := SerializeIndex(terms)
-				fieldPath := filepath.Join(d.RootFolder, fieldName)
+				fieldPath := filepath.Join(d.RootFolder, file.SafeName(fieldName))
 				path := filepath.Join(fieldPath, file.Temp)
 				file.CreteDirIfNotExist(path)
 
-- 
2.43.0


From aab7513326efcc780f78ae3f1c9530223771c6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 20/26] fix: a failed download of the test collection
 dereferences a nil response

GetArvixData printed the error and went on to close resp.Body, and
CriarArquivo went on with a file it could not create.
---
 testecolection/Teste.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/testecolection/Teste.go b/testecolection/Teste.go
index 38a7e72..dd5a197 100644
--- a/testecolection/Teste.go
+++ b/testecolection/Teste.go
@@ -40,6 +40,7 @@ func GetArvixData() string {
 	resp, err := http.Get(url)
 	if err != nil {
 		fmt.Println("Erro ao fazer a solicitação HTTP:", err)
+		return ""
 	}
 	defer func(Body io.ReadCloser) {
 		err := Body.Close()
@@ -77,6 +78,7 @@ func CriarArquivo() {
 	arquivo, err := os.Create("testecolection/arxiv.txt")
 	if err != nil {
 		fmt.Println(err)
+		return
 	}
 	defer func(arquivo *os.File) {
 		err := arquivo.Close()
-- 
2.43.0


From 95cd43570a6c46cc8a54ca5b567b8a4f8059102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 21/26] fix: the last line of the test collection is dropped
 without a newline

ReadString returns the rest of the file together with io.EOF; both readers
stopped at the error and lost that line.
---
 testecolection/Teste.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/testecolection/Teste.go b/testecolection/Teste.go
index dd5a197..9ac7fc5 100644
--- a/testecolection/Teste.go
+++ b/testecolection/Teste.go
@@ -134,13 +134,13 @@ func GetTextDocuments() []string {
 	var documents []string
 	for {
 		linha, err := leitor.ReadString('\n')
-		if err != nil {
-			// Verificar se é o fim do arquivo
-			if err.Error() == "EOF" {
-				break
-			}
+		if err != nil && err != io.EOF {
 			panic(err)
 		}
+		// A última linha pode não terminar com uma quebra de linha
+		if linha == "" {
+			break
+		}
 
 		documents = append(documents, linha)
 	}
@@ -167,13 +167,13 @@ func GetDocuments() []Document {
 	var documents []Document
 	for {
 		linha, err := leitor.ReadString('\n')
-		if err != nil {
-			// Verificar se é o fim do arquivo
-			if err.Error() == "EOF" {
-				break
-			}
+		if err != nil && err != io.EOF {
 			panic(err)
 		}
+		// A última linha pode não terminar com uma quebra de linha
+		if linha == "" {
+			break
+		}
 		document := Document{}
 		err = json.Unmarshal([]byte(linha), &document)
 		if err != nil {
-- 
2.43.0


From 0cd17dc7d850071d72a1241b8cadbde90bc4076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 22/26] fix: the memory store has no lock at all

Searching while another goroutine indexes is a fatal concurrent map access
with this backend as well. Hold a lock in every method and hand out copies
of the postings, as Disk does.
---
 storage/Memory.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/storage/Memory.go b/storage/Memory.go
index 3765033..7514d3c 100644
--- a/storage/Memory.go
+++ b/storage/Memory.go
@@ -2,6 +2,7 @@ package storage
 
 import (
 	"github.com/sira-serverless-ir-arch/goirlib/model"
+	"sync"
 )
 
 type Memory struct {
@@ -10,9 +11,16 @@ type Memory struct {
 	FieldLength     map[string]int
 	FieldSize       map[string]int
 	NumberFieldTerm map[string]map[string]int
+	mu              sync.RWMutex
 }
 
 func (m *Memory) UpdateIndex(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	m.updateIndex(documentId, field)
+}
+
+func (m *Memory) updateIndex(documentId string, field model.Field) {
 	indexField := m.Index[field.Name]
 
 	if indexField == nil {
@@ -43,6 +51,8 @@ func NewMemory() Storage {
 }
 
 func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string]int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	temp := make(map[string]int)
 	for _, term := range terms {
 		temp[term] = m.NumberFieldTerm[fieldName][term]
@@ -51,31 +61,48 @@ func (m *Memory) GetNumberFieldTerm(fieldName string, terms []string) map[string
 }
 
 func (m *Memory) GetFieldLength(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldLength[fieldName]
 }
 
 func (m *Memory) GetFieldSize(fieldName string) int {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	return m.FieldSize[fieldName]
 }
 
 func (m *Memory) GetFieldDocumentTest(documentId string) map[string]model.Field {
-	return m.FieldDocument[documentId]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
+	fields := make(map[string]model.Field)
+	for name, field := range m.FieldDocument[documentId] {
+		fields[name] = field
+	}
+	return fields
 }
 
 func (m *Memory) GetIndex(fieldName string) map[string]*model.Set {
-	return m.Index[fieldName]
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	return cloneIndexField(m.Index[fieldName])
 }
 
 func (m *Memory) GetDocuments(fieldName string, term string) (model.Set, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 	if indexField, ok := m.Index[fieldName]; ok {
 		if set, ok := indexField[term]; ok {
-			return *set, true
+			return set.Clone(), true
 		}
 	}
 	return model.Set{}, false
 }
 
 func (m *Memory) GetFields(documentId []string, fieldName string) map[string]model.Field {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
 
 	fields := make(map[string]model.Field)
 	for _, id := range documentId {
@@ -91,12 +118,14 @@ func (m *Memory) GetFields(documentId []string, fieldName string) map[string]mod
 }
 
 func (m *Memory) SaveOrUpdate(documentId string, field model.Field) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	m.FieldSize[field.Name] += 1
 	m.FieldLength[field.Name] += field.Length
 
 	m.createFieldDocument(documentId, field)
 
-	m.UpdateIndex(documentId, field)
+	m.updateIndex(documentId, field)
 
 	//numérico de campos que possui o termo
 	fieldTerm := m.NumberFieldTerm[field.Name]
-- 
2.43.0


From 644dc928394c1e4571f5b6f58cd9d254742436f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 23/26] fix: LocalMap.GetData hands out the map that Set
 changes

---
 cache/LocalMap.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cache/LocalMap.go b/cache/LocalMap.go
index b84c925..1ae2995 100644
--- a/cache/LocalMap.go
+++ b/cache/LocalMap.go
@@ -20,7 +20,14 @@ func (l *LocalMap[T]) Set(key string, value T) {
 }
 
 func (l *LocalMap[T]) GetData() map[string]*T {
-	return l.store
+	l.mu.RLock()
+	defer l.mu.RUnlock()
+	//A copy, the map itself changes while the caller reads it
+	data := make(map[string]*T, len(l.store))
+	for key, value := range l.store {
+		data[key] = value
+	}
+	return data
 }
 
 func (l *LocalMap[T]) Get(key string) (*T, bool) {
-- 
2.43.0


From d6cc8ded138a2836c5b0ac0944243c9ebe7b1d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 24/26] fix: flattening kept no path element for an empty key,
 so values of different paths could collide

---
 field/FieldProcess.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/field/FieldProcess.go b/field/FieldProcess.go
index 405c93e..46afc54 100644
--- a/field/FieldProcess.go
+++ b/field/FieldProcess.go
@@ -33,13 +33,10 @@ func Flatten(input map[string]interface{}) map[string]interface{} {
 
 func recFlatten(input map[string]interface{}, output map[string]interface{}, prefix string) {
 	for k, v := range input {
-		key := k
-		if prefix != "" {
-			key = prefix + "." + k
-		}
+		key := prefix + k
 		switch value := v.(type) {
 		case map[string]interface{}:
-			recFlatten(value, output, key)
+			recFlatten(value, output, key+".")
 		default:
 			output[key] = value
 		}
-- 
2.43.0


From eff02af3a35068dac503c062e3996574f30c814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 25/26] fix: a document whose file cannot be read was taken for
 a new one and its other fields were overwritten

---
 storage/DiskIO.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/DiskIO.go b/storage/DiskIO.go
index 75313a2..4c64590 100644
--- a/storage/DiskIO.go
+++ b/storage/DiskIO.go
@@ -6,6 +6,7 @@ import (
 	"github.com/sira-serverless-ir-arch/goirlib/file"
 	"github.com/sira-serverless-ir-arch/goirlib/model"
 	"log"
+	"os"
 	"path/filepath"
 	"sync"
 	"time"
@@ -71,9 +72,12 @@ func (d *DiskIO) LoadFieldSizeLengthOnHD() (map[string]int, map[string]int, erro
 func (d *DiskIO) LoadFieldDocumentOnHD(documentId string) (map[string]model.Field, bool) {
 	path := filepath.Join(d.RootFolder, file.Documents, file.DocumentsMetrics, file.SafeName(documentId))
 	buf, err := file.ReadFileOnDisk(path)
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil, false
 	}
+	if err != nil {
+		log.Fatalf("Failed to read the fields of a document: %v", err)
+	}
 	return DeserializeFieldMap(file.DecompressData(buf)), true
 }
 
-- 
2.43.0


From e88118260152cf8a9a4228af14c1decba2418545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 26/26] fix: do not use a response that could not be read to
 its end

---
 testecolection/Teste.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/testecolection/Teste.go b/testecolection/Teste.go
index 9ac7fc5..6f55924 100644
--- a/testecolection/Teste.go
+++ b/testecolection/Teste.go
@@ -49,7 +49,11 @@ func GetArvixData() string {
 		}
 	}(resp.Body)
 
-	body, _ := ioutil.ReadAll(resp.Body)
+	body, err := ioutil.ReadAll(resp.Body)
+	if err != nil {
+		fmt.Println("Erro ao ler a resposta HTTP:", err)
+		return ""
+	}
 
 	return string(body)
 }
-- 
2.43.0

