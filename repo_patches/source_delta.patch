From ce14f3e8923567be8c77ea354c92af79468fcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:25 +0000
Subject: [PATCH 01/18] fix: do not take the value of a leaf unit for a
 transition label

The label of a unit was truncated to 8 bits, dropping the leaf flag, so a
leaf whose value has a matching low byte could be followed as if it were a
transition. This gave phantom keys, wrong values or index panics.
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From bc494207d57f2ef59c94ba236a97602e55d75f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:27 +0000
Subject: [PATCH 02/18] fix: refuse keys with zero bytes and negative values on
 insertion

They were accepted (returning true) but can't be represented: the key was
cut or corrupted the builder, and the value lost its sign.
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..404af7a 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Negative values and zero bytes (they mark the end of a key) can't be stored.
+	if value < 0 {
+		return false
+	}
+	for i := 0; i < length; i++ {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From aae69281ed2f9c98560453808d6a409b4f068514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:28 +0000
Subject: [PATCH 03/18] fix: let a builder be used again after Finish

clear() left a hash table of length 1, so the builder was not initialized
again and the next insertion panicked.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 404af7a..e447c76 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = db.hashTable[:0]
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From 6f9329c5d348344eb98c3004a4c1d98657282207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:29 +0000
Subject: [PATCH 04/18] fix: no transitions from the root of an empty
 dictionary

The offset of the root was not marked as used, so unused units got the
very labels that make every byte followable from the root.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..1dc5726 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The root of an empty dictionary keeps its offset.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From ca316d8d6fac573dffda146d10d99ce2ca107448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:30 +0000
Subject: [PATCH 05/18] fix: completer repeated the empty key forever

The root index served as the 'not started' mark, but it is also the index
of the empty key.
---
 completer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 7099901..14e4357 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	isStarted  bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -53,6 +54,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 		c.indexStack = append(c.indexStack, index)
 		c.lastIndex = c.dict.Root()
 	}
+	c.isStarted = false
 }
 
 // Gets the next key.
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.isStarted {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -95,6 +97,8 @@ func (c *Completer) Next() bool {
 		}
 	}
 
+	c.isStarted = true
+
 	// Finds a terminal
 	return c.FindTerminal(index)
 }
-- 
2.43.0


From df21dc2fdc4350d24a0677a2e0a7f0302cc0bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:32 +0000
Subject: [PATCH 06/18] fix: keys from completers ended with a zero byte

The terminator of the C++ original was part of the returned string.
---
 completer.go        | 2 +-
 ranked_completer.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/completer.go b/completer.go
index 14e4357..cf3e491 100644
--- a/completer.go
+++ b/completer.go
@@ -29,7 +29,7 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	return string(c.path[:c.Length()])
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..ba6ef87 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -35,7 +35,7 @@ func (rc *RankedCompleter) Value() valueType {
 }
 
 func (rc *RankedCompleter) Length() sizeType {
-	return len(rc.path) - 1
+	return len(rc.path)
 }
 
 func (rc *RankedCompleter) Start(index baseType) {
@@ -99,7 +99,6 @@ func (rc *RankedCompleter) Next() bool {
 		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
 	}
 	reverseUCharSlice(rc.path[rc.prefixLength:])
-	rc.path = append(rc.path, 0)
 
 	rc.value = candidate.value
 	heap.Pop(&rc.candidateQueue)
-- 
2.43.0


From 518d07051cceb0da656e0f60a1302f9af8e1ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:06 +0000
Subject: [PATCH 07/18] fix: decode the first code point of a 21-bit UTF-C
 window

It is encoded as a single zero marker, but the decoder consumed the next
byte as well: "\u2601\u2600" panicked, and more text decoded wrongly.
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..db131c8 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker0 && zm != marker10 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From 9589075ad59a3a5f46eea47b8dafe2ca1f1453e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:07 +0000
Subject: [PATCH 08/18] fix: UtfcEncode results overwrote each other

Every call returned the same shared buffer, so an encoding was lost on the
next call; dawgtool -s -u compared each key with itself.
---
 utfc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index db131c8..6cc098e 100644
--- a/utfc.go
+++ b/utfc.go
@@ -302,7 +302,9 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 func UtfcEncode(str string) []byte {
 	sharedBuffer.buf = sharedBuffer.buf[:0]
 	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	buf := make([]byte, len(sharedBuffer.buf))
+	copy(buf, sharedBuffer.buf)
+	return buf
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From 671b777567d43ad2ae88f4261fc3ea6e54389f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:08 +0000
Subject: [PATCH 09/18] fix: keep the contents of an index when reading fails

As dictionaries and guides do.
---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From bae7f9e0102838b3c5acaf0bf00cbc7a9804b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:42 +0000
Subject: [PATCH 10/18] fix: build and use indices with ranked and empty guides

A ranked guide orders children by value and puts the terminal among them,
but the index assumed ascending labels ending with 0, so keys were lost or
got wrong numbers. The guide of an empty dictionary has no units at all,
which made the index panic.
---
 index_builder.go | 31 ++++++++++++++++++++++++++++---
 indexer.go       | 19 ++++++++-----------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/index_builder.go b/index_builder.go
index 752b717..b62f912 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -1,5 +1,7 @@
 package dawg
 
+import "sort"
+
 type IndexBuilder struct {
 	dict  *Dictionary
 	guide SomeGuide
@@ -32,8 +34,7 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 		ib.index.units[index]++
 	}
 
-	var child ucharType = ib.guide.Child(index)
-	for child != 0 {
+	for _, child := range childLabels(ib.dict, ib.guide, index) {
 		var childIndex baseType = index
 		if !ib.dict.Follow(child, &childIndex) {
 			return false
@@ -44,8 +45,32 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 			}
 		}
 		ib.index.units[index] += ib.index.units[childIndex]
-		child = ib.guide.Sibling(childIndex)
 	}
 
 	return true
 }
+
+// Lists labels of transitions from a given index in ascending order.
+func childLabels(dict *Dictionary, guide SomeGuide, index baseType) []ucharType {
+	// A guide of an empty dictionary has no units.
+	if guide.Size() == 0 {
+		return nil
+	}
+
+	var labels []ucharType
+	var hasTerminal bool = dict.HasValue(index)
+	for label := guide.Child(index); label != 0 || hasTerminal; {
+		var childIndex baseType = index ^ dictOffset(dict.units[index]) ^ baseType(label)
+		if label != 0 {
+			labels = append(labels, label)
+		} else {
+			// A ranked guide puts a terminal among the other children.
+			hasTerminal = false
+		}
+		label = guide.Sibling(childIndex)
+	}
+	sort.Slice(labels, func(i int, j int) bool {
+		return labels[i] < labels[j]
+	})
+	return labels
+}
diff --git a/indexer.go b/indexer.go
index 1fd698a..dc9e295 100644
--- a/indexer.go
+++ b/indexer.go
@@ -37,18 +37,15 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 			result++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel < bytes[i] && childLabel != 0 {
+		for _, childLabel := range childLabels(idx.dict, idx.guide, index) {
+			if childLabel >= bytes[i] {
+				break
+			}
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return Failed
 			}
 			result += idx.index.ChildCount(childIndex)
-			childLabel = idx.guide.Sibling(childIndex)
-		}
-
-		if childLabel == 0 {
-			return NotFound
 		}
 
 		var childIndex baseType = index
@@ -77,8 +74,8 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 			cur++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel != 0 {
+		var isFound bool = false
+		for _, childLabel := range childLabels(idx.dict, idx.guide, index) {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return nil
@@ -87,14 +84,14 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 			if i < cur+count {
 				buf = append(buf, childLabel)
 				index = childIndex
+				isFound = true
 				break
 			} else {
 				cur += count
-				childLabel = idx.guide.Sibling(childIndex)
 			}
 		}
 
-		if childLabel == 0 {
+		if !isFound {
 			return nil
 		}
 	}
-- 
2.43.0


From defa6c2a994fa51d8d5c39732f88fcd97d83cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:43 +0000
Subject: [PATCH 11/18] fix: dawgtool -s -t sorts by keys, not by whole lines

The tab and value took part in the comparison, so keys that extend another
key by a byte below the tab (or, with -u, by almost anything) came out in
the wrong order and the build failed; repeated keys were ordered by their
values' text.
---
 cmd/dawgtool/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..7094c96 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -70,6 +70,14 @@ func processLine(line string) bool {
 	return true
 }
 
+// Extracts the part of a line that is used for sorting.
+func sortKey(line string) string {
+	if optTab {
+		return strings.Split(line, "\t")[0]
+	}
+	return line
+}
+
 func handleBuildDict() {
 	builder = dawg.NewDawgBuilder()
 
@@ -81,10 +89,10 @@ func handleBuildDict() {
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
 			if !optUtfc {
-				return buffer[i] < buffer[j]
+				return sortKey(buffer[i]) < sortKey(buffer[j])
 			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
+			bytes1 := dawg.UtfcEncode(sortKey(buffer[i]))
+			bytes2 := dawg.UtfcEncode(sortKey(buffer[j]))
 			length := len(bytes1)
 			if len(bytes2) < length {
 				length = len(bytes2)
-- 
2.43.0


From 7d33d697602c6d32c914f674c9e1aeb27f1640f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:43 +0000
Subject: [PATCH 12/18] fix: dawgtool -i without a guide crashed after the
 queries

---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 7094c96..0e0a936 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -274,7 +274,7 @@ func handleLoadDict() {
 		fmt.Println()
 	}
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0


From 191dfe92fb7e36bbb8b6b2c1cea9a26a73372c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:44 +0000
Subject: [PATCH 13/18] fix: dawgtool dropped the rest of a lexicon after a
 long line

Lines over 64 KB and read errors ended the input silently, and an
incomplete dictionary was written with exit status 0.
---
 cmd/dawgtool/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 0e0a936..115fdf7 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -130,6 +130,10 @@ func handleBuildDict() {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
+
 	d := dawg.NewDawg()
 	builder.Finish(d)
 
@@ -273,6 +277,9 @@ func handleLoadDict() {
 		}
 		fmt.Println()
 	}
+	if err := scanner.Err(); err != nil {
+		log.Fatal(err)
+	}
 
 	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
@@ -311,6 +318,7 @@ func main() {
 	}
 	defer fileLexicon.Close()
 	scanner = bufio.NewScanner(fileLexicon)
+	scanner.Buffer(nil, dawg.MaxValue)
 
 	if optBuild {
 		fileDictionary, err = os.Create(optDictionary)
-- 
2.43.0


From 0dc77c541e249d5e93f731a4a8d14c16b3869e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:45 +0000
Subject: [PATCH 14/18] fix: dawgtool -u had no effect on queries

Keys are stored in UTF-C, but queries were looked up as plain bytes, so
only ASCII keys could be found.
---
 cmd/dawgtool/main.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 115fdf7..7f1a5eb 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -207,6 +207,22 @@ func handleBuildDict() {
 	}
 }
 
+// Converts a query to the encoding of keys.
+func encodeKey(key string) string {
+	if optUtfc {
+		return string(dawg.UtfcEncode(key))
+	}
+	return key
+}
+
+// Converts a key back to text.
+func decodeKey(key string) string {
+	if optUtfc {
+		return dawg.UtfcDecode([]uint8(key))
+	}
+	return key
+}
+
 func handleLoadDict() {
 	dict := dawg.ReadDictionary(fileDictionary)
 	if dict == nil {
@@ -244,6 +260,7 @@ func handleLoadDict() {
 		var key string = scanner.Text()
 
 		fmt.Printf("%s:", key)
+		key = encodeKey(key)
 		var index uint32 = dict.Root()
 
 		if optRanked || optGuide {
@@ -260,7 +277,7 @@ func handleLoadDict() {
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Printf(" %s%s = %d;", key, completer.Key(), completer.Value())
+					fmt.Printf(" %s = %d;", decodeKey(key+completer.Key()), completer.Value())
 				}
 			}
 		} else {
@@ -271,7 +288,7 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
+					fmt.Printf(" %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
 				}
 			}
 		}
@@ -285,7 +302,7 @@ func handleLoadDict() {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Printf("%d: %s\n", i, indexer.IndexToString(uint32(i)))
+			fmt.Printf("%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
 		}
 	}
 }
-- 
2.43.0


From f535afffab42ef9b1936b1b3c2341f1bed469e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:38 +0000
Subject: [PATCH 15/18] fix: reading allocates memory for the units present,
 not for the announced number

A stream that is short or not a dictionary at all may announce up to 2^32-1
units: Read allocated them (twice) before reading and exhausted the memory
instead of reporting failure.
---
 dictionary.go   |  3 +--
 guide.go        |  3 +--
 index.go        |  3 +--
 ranked_guide.go |  3 +--
 read_units.go   | 27 +++++++++++++++++++++++++++
 5 files changed, 31 insertions(+), 8 deletions(-)
 create mode 100644 read_units.go

diff --git a/dictionary.go b/dictionary.go
index e68ec7e..6f13766 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -63,8 +63,7 @@ func (dict *Dictionary) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	var unitsBuf = make([]DictionaryUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
+	unitsBuf, err := readUnits[DictionaryUnit](r, size)
 	if err != nil {
 		return false
 	}
diff --git a/guide.go b/guide.go
index 5cce10b..dbf79ec 100644
--- a/guide.go
+++ b/guide.go
@@ -74,8 +74,7 @@ func (guide *Guide) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	var unitsBuf = make([]GuideUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
+	unitsBuf, err := readUnits[GuideUnit](r, size)
 	if err != nil {
 		return false
 	}
diff --git a/index.go b/index.go
index 40d10b2..de22c6e 100644
--- a/index.go
+++ b/index.go
@@ -59,8 +59,7 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	var unitsBuf = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
+	unitsBuf, err := readUnits[IndexUnit](r, size)
 	if err != nil {
 		return false
 	}
diff --git a/ranked_guide.go b/ranked_guide.go
index 5655fe2..39f01eb 100644
--- a/ranked_guide.go
+++ b/ranked_guide.go
@@ -60,8 +60,7 @@ func (rg *RankedGuide) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	var unitsBuf = make([]GuideUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
+	unitsBuf, err := readUnits[GuideUnit](r, size)
 	if err != nil {
 		return false
 	}
diff --git a/read_units.go b/read_units.go
new file mode 100644
index 0000000..b4dd991
--- /dev/null
+++ b/read_units.go
@@ -0,0 +1,27 @@
+package dawg
+
+import (
+	"encoding/binary"
+	"io"
+)
+
+// Number of units read at once.
+const readChunkSize = 1 << 16
+
+// Reads a given number of units.
+// Memory grows with the units actually present, not with their announced number.
+func readUnits[T any](r io.Reader, size sizeType) ([]T, error) {
+	var units []T = []T{}
+	for len(units) < size {
+		var chunkSize sizeType = size - len(units)
+		if chunkSize > readChunkSize {
+			chunkSize = readChunkSize
+		}
+		var chunk []T = make([]T, chunkSize)
+		if err := binary.Read(r, binary.LittleEndian, chunk); err != nil {
+			return nil, err
+		}
+		units = append(units, chunk...)
+	}
+	return units, nil
+}
-- 
2.43.0


From b349e68768a73ea97b1c8828fd53ea6a430be1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:35 +0000
Subject: [PATCH 16/18] fix: building the guide of an empty automaton into a
 used guide replaces its contents

---
 guide_builder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/guide_builder.go b/guide_builder.go
index f60be21..76bb4f0 100644
--- a/guide_builder.go
+++ b/guide_builder.go
@@ -31,6 +31,7 @@ func (gb *GuideBuilder) Build() bool {
 	gb.isFixedTable = make([]ucharType, gb.dict.size/8)
 
 	if gb.dawg.Size() <= 1 {
+		gb.guide.Clear()
 		return true
 	}
 
-- 
2.43.0


From 4c1d08c9c8f45b958b16c94f0993f8069dd3bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:36 +0000
Subject: [PATCH 17/18] fix: a dictionary builder can build more than once

---
 dictionary_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index 1dc5726..62a547a 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -63,6 +63,12 @@ func (db *DictionaryBuilder) extra(index baseType) *DictionaryExtraUnit {
 
 // Builds a dictionary from a list-form dawg.
 func (db *DictionaryBuilder) BuildDictionary() bool {
+	// Forgets an earlier build.
+	db.units = nil
+	db.extras = nil
+	db.unfixedIndex = 0
+	db.numOfUnusedUnits = 0
+
 	db.linkTable = NewLinkTable(db.dawg.numOfMergingStates + (db.dawg.numOfMergingStates >> 1))
 	db.reserveUnit(0)
 	db.extra(0).setIsUsed()
-- 
2.43.0


From 7edc444e349c0e01832563b21cebcf5849783882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:58 +0000
Subject: [PATCH 18/18] fix: a follower can encode other strings while it is
 being called

---
 utfc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utfc.go b/utfc.go
index 6cc098e..dde76c7 100644
--- a/utfc.go
+++ b/utfc.go
@@ -124,7 +124,6 @@ func getAuxOffset(offs int) int {
 }
 
 // Note: thread-unsafe
-var sharedState UtfcState
 var sharedBuffer = &byteBuffer{
 	buf: make([]byte, 0, 1024),
 }
@@ -289,9 +288,10 @@ func (st *UtfcState) Follow(ch rune, f UtfcFollower) bool {
 // Returns true if process was completed successfully, false otherwise
 // Allows to abort encoding early and prevent unneeded memory allocations
 func UtfcFollow(str string, f UtfcFollower) bool {
-	sharedState.Clear()
+	// The follower may encode other strings, so the state can't be shared.
+	state := NewUtfcState()
 	for _, ch := range str {
-		if !sharedState.Follow(ch, f) {
+		if !state.Follow(ch, f) {
 			return false
 		}
 	}
-- 
2.43.0

