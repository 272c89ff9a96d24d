From adada8f2607dde89e94d06a99aaecca8d0d153a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 01/33] fix: reject out-of-range offsets and lengths in the
 wildcard index stream

---
 pkg/index/wildcard/stream.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/index/wildcard/stream.go b/pkg/index/wildcard/stream.go
index 33856e1..e5f7725 100644
--- a/pkg/index/wildcard/stream.go
+++ b/pkg/index/wildcard/stream.go
@@ -30,6 +30,11 @@ func NewStream(
 	}
 }
 
+// Offset following the last byte (either written or buffered)
+func (stream *Stream) end() int64 {
+	return stream.bufferOffset + int64(len(stream.buffer))
+}
+
 // Forces the internal buffer to be written to the file
 func (stream *Stream) Flush() error {
 	if len(stream.buffer) == 0 {
@@ -51,6 +56,10 @@ func (stream *Stream) Flush() error {
 }
 
 func (stream *Stream) Get(offset int64, bytesCount int) ([]byte, error) {
+	if offset < 0 || bytesCount < 0 || offset > stream.end()-int64(bytesCount) {
+		return nil, fmt.Errorf("Cannot read %v bytes at offset %v: the size of the stream is %v", bytesCount, offset, stream.end())
+	}
+
 	bytes := make([]byte, 0, bytesCount)
 	remainingBytesCount := bytesCount
 	currentOffset := offset
@@ -117,6 +126,10 @@ func (stream *Stream) Add(bytes []byte) (offset int64, err error) {
 }
 
 func (stream *Stream) Replace(offset int64, bytes []byte) error {
+	if offset < 0 || offset > stream.end() {
+		return fmt.Errorf("Cannot write at offset %v: the size of the stream is %v", offset, stream.end())
+	}
+
 	currentOffset := offset
 	remainingBytes := bytes
 
-- 
2.43.0


From 2cb241f49b5a30369b1ba4e512b28207665e8a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:17 +0000
Subject: [PATCH 02/33] fix: let the wildcard index accept list values

---
 pkg/index/wildcard.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..e3f4532 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -119,7 +119,7 @@ func (wildcard *Wildcard) createIndex() error {
 			}
 
 			if err := wildcard.addValueToIndex(index, property, value, record.Position()); err != nil {
-				return fmt.Errorf("Cannot index the property '%v': ", property)
+				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
 			}
 		}
 	}
@@ -199,6 +199,7 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From b20cea1ec278271102aef194c81988c720a3a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 03/33] fix: let the map index accept list values and refuse
 unhashable filters

---
 pkg/index/map.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..ec188fc 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -82,8 +82,8 @@ func (mapIndex *Map) reindex() error {
 				value = reflect.ValueOf(value).Interface()
 			}
 
-			if err := mapIndex.addValueToIndex(index, property, value, record.Position()); err != nil {
-				return fmt.Errorf("Cannot index the property '%v': ", property)
+			if err := mapIndex.addValueToIndex(index, property, value, record.Position(), false); err != nil {
+				return fmt.Errorf("Cannot index the property '%v': %w", property, err)
 			}
 		}
 	}
@@ -99,13 +99,15 @@ func (mapIndex *Map) addValueToIndex(
 	property string,
 	value interface{},
 	position record.Position,
+	isArrayElement bool,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
 		for _, valueArrayValue := range valueArray {
-			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
+			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position, true); err != nil {
 				return err
 			}
 		}
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
@@ -115,6 +117,10 @@ func (mapIndex *Map) addValueToIndex(
 	propertyIndex := index[property]
 	valueIndexes, valueIndexesExists := propertyIndex[value]
 	if valueIndexesExists {
+		if isArrayElement && valueIndexes[len(valueIndexes)-1] == position {
+			// The same value is repeated in the array of this record
+			return nil
+		}
 		propertyIndex[value] = append(valueIndexes, position)
 	} else {
 		propertyIndex[value] = record.PositionList{position}
@@ -146,6 +152,10 @@ func (mapIndex *Map) GetRecordPositions(
 			return record.EmptyIterator, nil
 		}
 
+		if filter != nil && !reflect.TypeOf(filter).Comparable() {
+			return nil, fmt.Errorf("Cannot filter the value '%v' from property '%v'.", filter, propertyName)
+		}
+
 		indexedResults, foundIndexedResults := indexedValues[filter]
 		if !foundIndexedResults {
 			return record.EmptyIterator, nil
-- 
2.43.0


From 51d7a68069a2f819d7a01b61fbce52a445838e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 04/33] fix: flush the wildcard index before flagging it as
 completed

---
 pkg/index/wildcard.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index e3f4532..fb7c9ca 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,11 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// The data must be entirely written before it gets flagged as completed
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
-- 
2.43.0


From d919d38be3aa81ca2ea8f7983cbc5105985b96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 05/33] fix: report corrupted wildcard index files as errors
 instead of crashing or looping

---
 pkg/index/wildcard.go          |  3 +++
 pkg/index/wildcard/metadata.go | 11 +++++++++--
 pkg/index/wildcard/node.go     | 10 +++++++++-
 pkg/index/wildcard/position.go |  7 +++++++
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index fb7c9ca..7e41ffb 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -183,6 +183,9 @@ func (wildcard *Wildcard) loadIndex() error {
 		if err != nil {
 			return err
 		}
+		if index[property] == nil {
+			return fmt.Errorf("The index file is corrupted: the property '%v' has no root node.", property)
+		}
 	}
 
 	wildcard.index = index
diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..9ed68cf 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -156,11 +156,18 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+	if rootNodeOffsetCount < 0 {
+		return fmt.Errorf("Invalid number of root nodes: %v", rootNodeOffsetCount)
+	}
+
+	// Not allocating everything at once, because this number cannot be trusted
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var rootNodeOffset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &rootNodeOffset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, rootNodeOffset)
 	}
 
 	return nil
diff --git a/pkg/index/wildcard/node.go b/pkg/index/wildcard/node.go
index 1041f40..886b9a1 100644
--- a/pkg/index/wildcard/node.go
+++ b/pkg/index/wildcard/node.go
@@ -2,6 +2,7 @@ package wildcard
 
 import (
 	"encoding/binary"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/input/record"
 )
 
@@ -11,6 +12,9 @@ type TreeNodeValueOffset int64
 
 const TreeNodeSize int = 56
 
+// The children of a node always start with different bytes
+const maxChildren = 256
+
 type TreeNode struct {
 	stream              *Stream
 	offset              TreeNodeOffset
@@ -154,7 +158,11 @@ func (node *TreeNode) FindChildByPrefix(
 		return nil, 0, err
 	}
 
-	for child != nil {
+	for childIndex := 0; child != nil; childIndex++ {
+		if childIndex >= maxChildren {
+			return nil, 0, fmt.Errorf("The index is corrupted: the node %v has too many children.", node.offset)
+		}
+
 		childValue, err := child.Value()
 		if err != nil {
 			return nil, 0, err
diff --git a/pkg/index/wildcard/position.go b/pkg/index/wildcard/position.go
index 294b572..899082a 100644
--- a/pkg/index/wildcard/position.go
+++ b/pkg/index/wildcard/position.go
@@ -2,6 +2,7 @@ package wildcard
 
 import (
 	"encoding/binary"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/input/record"
 )
 
@@ -17,6 +18,12 @@ type PositionLinkedList struct {
 }
 
 func (list *PositionLinkedList) NextPosition() (*PositionLinkedList, error) {
+	// Positions are always created one after another. Anything else
+	// could make an endless loop.
+	if list.nextPositionOffset != 0 && list.nextPositionOffset <= list.offset {
+		return nil, fmt.Errorf("The index is corrupted: unexpected offset of the position following %v: %v", list.offset, list.nextPositionOffset)
+	}
+
 	return GetPositionLinkedList(list.stream, list.nextPositionOffset)
 }
 
-- 
2.43.0


From 086c86ba2adf53bd4bb219248d390b03b115c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 06/33] fix: let the noop index compare lists and objects
 without crashing

---
 pkg/index/noop.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..a34bd15 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -69,6 +69,15 @@ func (noop *Noop) GetRecordPositions(
 					}
 				}
 
+				// Arrays and objects can't be compared with the operators
+				if !reflect.TypeOf(value).Comparable() {
+					if !reflect.DeepEqual(value, filter) {
+						matches = false
+						break
+					}
+					continue
+				}
+
 				value = reflect.ValueOf(value).Interface()
 				if value != filter {
 					matches = false
-- 
2.43.0


From 4e529a22bffaf01af118997cd786fc2374a8d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 07/33] fix: give null instead of crashing for negative array
 indexes in paths

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..c9021ba 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -225,7 +225,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From 3022c4ad7440eb83d87ec56666836d1428bc175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 08/33] fix: sort missing, mixed and NaN values consistently

---
 pkg/input/record/sort.go | 30 ++++++++++++++++++++++++++++++
 pkg/parser/parser.go     | 17 +++++++++++++++--
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/pkg/input/record/sort.go b/pkg/input/record/sort.go
index 4ff1408..db62fa1 100644
--- a/pkg/input/record/sort.go
+++ b/pkg/input/record/sort.go
@@ -37,6 +37,7 @@ func (sorter *recordListSorter) Less(i int, j int) bool {
 		result, err := parser.Compare(iValue, jValue)
 		if err != nil {
 			sort.Logger.Errorf("Unhandlable error during sort operation on property '%v': %v", sort.Property, err)
+			result = compareTypes(iValue, jValue)
 		}
 
 		if result == nil {
@@ -58,3 +59,32 @@ func (sorter *recordListSorter) Swap(i int, j int) {
 	iRecord, jRecord := sorter.records[i], sorter.records[j]
 	sorter.records[i], sorter.records[j] = jRecord, iRecord
 }
+
+// The values of different types cannot be compared, but
+// they still need to have a consistent order
+func compareTypes(a interface{}, b interface{}) *bool {
+	aRank, bRank := typeRank(a), typeRank(b)
+	if aRank == bRank {
+		return nil
+	}
+
+	result := aRank < bRank
+	return &result
+}
+
+func typeRank(value interface{}) int {
+	switch value.(type) {
+	case nil:
+		return 0
+	case bool:
+		return 1
+	case int64:
+		return 2
+	case float64:
+		return 3
+	case string:
+		return 4
+	default:
+		return 5
+	}
+}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 14a1507..5a80223 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"github.com/sirupsen/logrus"
+	"math"
 )
 
 type Parser interface {
@@ -63,7 +64,16 @@ func Close(parsers List) error {
 
 // Compares two values outputted by the parsers
 // returns nil if a = b, true if a < b, false if a > b
+// A missing value (nil) is lower than any other one
 func Compare(a interface{}, b interface{}) (*bool, error) {
+	if a == nil || b == nil {
+		if a == nil && b == nil {
+			return nil, nil
+		}
+		result := a == nil
+		return &result, nil
+	}
+
 	switch a.(type) {
 	case string:
 		aString := a.(string)
@@ -96,10 +106,13 @@ func Compare(a interface{}, b interface{}) (*bool, error) {
 			return nil, fmt.Errorf("Cannot compare a float with '%#v'", b)
 		}
 
-		if aFloat == bFloat {
+		// NaN is considered equal to itself and lower than any other
+		// number, because the order would otherwise be inconsistent
+		aIsNaN, bIsNaN := math.IsNaN(aFloat), math.IsNaN(bFloat)
+		if aFloat == bFloat || (aIsNaN && bIsNaN) {
 			return nil, nil
 		}
-		result := aFloat < bFloat
+		result := aFloat < bFloat || aIsNaN
 		return &result, nil
 	case bool:
 		aBool := a.(bool)
-- 
2.43.0


From 866457fbe06dabedcffda6f074c113af5e3cb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 09/33] fix: escape the characters of the integer, float and
 boolean route patterns

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 4 ++--
 pkg/parser/integer.go | 3 +--
 pkg/util/utils.go     | 7 +++++++
 4 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..0a93372 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -29,12 +29,12 @@ func (float *Float) Primitive() bool {
 
 func (float *Float) GetRegexpPattern() string {
 	separator := regexp.QuoteMeta(float.config.DecimalSeparator)
-	ignore := regexp.QuoteMeta(float.config.IgnoreCharacters)
+	ignore := util.QuoteCharacterClass(float.config.IgnoreCharacters)
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:" + separator + "[0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/integer.go b/pkg/parser/integer.go
index b202783..e1f5eac 100644
--- a/pkg/parser/integer.go
+++ b/pkg/parser/integer.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/rodb-io/rodb/pkg/util"
-	"regexp"
 	"strconv"
 )
 
@@ -27,7 +26,7 @@ func (integer *Integer) Primitive() bool {
 }
 
 func (integer *Integer) GetRegexpPattern() string {
-	ignore := regexp.QuoteMeta(integer.config.IgnoreCharacters)
+	ignore := util.QuoteCharacterClass(integer.config.IgnoreCharacters)
 	ignoreBegin := ""
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
diff --git a/pkg/util/utils.go b/pkg/util/utils.go
index c297829..62a92d9 100644
--- a/pkg/util/utils.go
+++ b/pkg/util/utils.go
@@ -2,6 +2,7 @@ package util
 
 import (
 	"net"
+	"regexp"
 	"strings"
 )
 
@@ -13,6 +14,12 @@ func RemoveCharacters(value string, charactersToRemove string) string {
 	return value
 }
 
+// Escapes the given characters in order to use them inside
+// the brackets of a regular expression
+func QuoteCharacterClass(characters string) string {
+	return strings.ReplaceAll(regexp.QuoteMeta(characters), "-", "\\-")
+}
+
 func IsInArray(value string, array []string) bool {
 	for _, arrayElement := range array {
 		if arrayElement == value {
-- 
2.43.0


From 55e130636c4d10187d1d31602f2c0482811172fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 10/33] fix: match the characters of the http route paths
 literally

---
 pkg/service/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From 6780c42cbc0eeb553d23f744402197b00fff95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 11/33] fix: accept any csv header row with ignoreFirstRow and
 any valid csv delimiter

---
 pkg/input/csv.go        | 6 ++++--
 pkg/input/csv_config.go | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 3e92cf3..06e6408 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -182,9 +182,11 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 	}
 
 	if csvInput.config.IgnoreFirstRow {
+		// The header row may have any number of columns, and the file may be empty
 		_, err = csvReader.Read()
-		if err != nil {
-			return nil, nil, err
+		if err != nil && err != io.EOF && !errors.Is(err, csv.ErrFieldCount) {
+			file.Close()
+			return nil, nil, fmt.Errorf("Cannot read csv data: %w", err)
 		}
 	}
 
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..273aad0 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -6,6 +6,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"unicode/utf8"
 )
 
 type CsvConfig struct {
@@ -77,9 +78,13 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 		config.Delimiter = ","
 	}
 
-	if len(config.Delimiter) > 1 {
+	if utf8.RuneCountInString(config.Delimiter) > 1 {
 		return errors.New("csv.delimiter must be a single character")
 	}
+	delimiter, _ := utf8.DecodeRuneInString(config.Delimiter)
+	if delimiter == 0 || delimiter == '"' || delimiter == '\r' || delimiter == '\n' || delimiter == utf8.RuneError {
+		return fmt.Errorf("csv.delimiter: the character %q cannot be used as a delimiter", config.Delimiter)
+	}
 
 	config.ColumnIndexByName = make(map[string]int)
 	for columnIndex, column := range config.Columns {
-- 
2.43.0


From a996a870cb9b0d38bac6ac3b8fd24d2f0f4ff922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 12/33] fix: find the csv columns whose name contains dots

---
 pkg/input/csv_record.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/input/csv_record.go b/pkg/input/csv_record.go
index 53d90f0..8472dea 100644
--- a/pkg/input/csv_record.go
+++ b/pkg/input/csv_record.go
@@ -69,12 +69,21 @@ func (record *CsvRecord) Get(path string) (interface{}, error) {
 
 	pathArray := strings.Split(path, ".")
 
-	value, err := record.getColumn(pathArray[0])
+	// The column names may contain dots: the longest matching name is used
+	columnLength := 1
+	for length := len(pathArray); length > 1; length-- {
+		if _, exists := record.config.ColumnIndexByName[strings.Join(pathArray[:length], ".")]; exists {
+			columnLength = length
+			break
+		}
+	}
+
+	value, err := record.getColumn(strings.Join(pathArray[:columnLength], "."))
 	if err != nil {
 		return nil, err
 	}
 
-	return recordPackage.GetSubValue(value, pathArray[1:])
+	return recordPackage.GetSubValue(value, pathArray[columnLength:])
 }
 
 func (record *CsvRecord) Position() recordPackage.Position {
-- 
2.43.0


From 4c8f1bdaa938537cf6aa69f593f24f3d9fee1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 13/33] fix: report misplaced delimiters in json inputs instead
 of ending the scan, accept null documents

---
 pkg/input/json.go        | 7 ++++---
 pkg/input/json_record.go | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json.go b/pkg/input/json.go
index 58e1fa2..8091523 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -127,9 +127,10 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 	jsonDecoder := json.NewDecoder(reader)
 
 	iterator := func() (record.Record, error) {
-		if !jsonDecoder.More() {
-			return nil, nil
-		}
+		// This only moves the offset to the beginning of the next document. The
+		// result is not used because it is also false when the next character is
+		// a misplaced ']' or '}', which must be reported as an error by Decode.
+		jsonDecoder.More()
 
 		position := jsonDecoder.InputOffset()
 
diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index 77f4c00..94df414 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -20,6 +20,11 @@ func NewJsonRecord(
 	data map[string]interface{},
 	position record.Position,
 ) *JsonRecord {
+	// A 'null' document is a record without any property
+	if data == nil {
+		data = make(map[string]interface{})
+	}
+
 	return &JsonRecord{
 		config:   config,
 		data:     data,
-- 
2.43.0


From 4f655438c9285af082f80ef8d4f041213d2e9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 14/33] fix: handle page and relationship limits above the
 largest signed integer

---
 pkg/output/json_array.go  |  2 +-
 pkg/output/json_common.go | 13 +++++--------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..7dec6f5 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -108,7 +108,7 @@ func (jsonArray *JsonArray) Handle(
 	}
 
 	rowsData := make([]interface{}, 0)
-	for len(rowsData) < int(limit) {
+	for uint(len(rowsData)) < limit {
 		position, err := nextPosition()
 		if err != nil {
 			return sendError(err)
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..cdf10e6 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -150,16 +150,13 @@ func loadRelationships(
 			relationshipRecords = relationshipRecords.Sort(relationshipConfig.Sort)
 		}
 
-		count := 0
+		limit := uint(1)
 		if relationshipConfig.IsArray {
-			count = int(relationshipConfig.Limit)
-		} else {
-			count = 1
+			limit = relationshipConfig.Limit
 		}
-		if count == 0 {
-			count = len(relationshipRecords)
-		} else if len(relationshipRecords) < count {
-			count = len(relationshipRecords)
+		count := len(relationshipRecords)
+		if limit > 0 && limit < uint(count) {
+			count = int(limit)
 		}
 
 		relationshipItems := make([]map[string]interface{}, 0, count)
-- 
2.43.0


From 5dfa16d612a64d50af091c29378feaa73803d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 15/33] fix: encode the json outputs before announcing a
 success

---
 pkg/output/json_array.go  |  3 +--
 pkg/output/json_common.go | 19 +++++++++++++++++++
 pkg/output/json_object.go |  3 +--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 7dec6f5..17545dd 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -132,7 +131,7 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	return sendJson(rowsData, sendError, sendSucces)
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index cdf10e6..76d43ef 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -1,12 +1,15 @@
 package output
 
 import (
+	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"io"
 )
 
 func checkRelationshipMatches(
@@ -228,3 +231,19 @@ func getDataFromPosition(
 
 	return data, nil
 }
+
+// The data must be entirely encoded before announcing a success,
+// because some values (NaN for example) cannot be represented in JSON
+func sendJson(
+	data interface{},
+	sendError func(err error) error,
+	sendSucces func() io.Writer,
+) error {
+	buffer := &bytes.Buffer{}
+	if err := json.NewEncoder(buffer).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err := buffer.WriteTo(sendSucces())
+	return err
+}
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..2bd4071 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -115,7 +114,7 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	return sendJson(data, sendError, sendSucces)
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From c7739cf909497ab5c411aa8f97eae3680221c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 16/33] fix: load relationships independently of each other

---
 pkg/output/json_common.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 76d43ef..b6b13b6 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -99,6 +99,13 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// The relationships may have the name of a property that another one
+	// depends on, so the initial data must not change in the meantime
+	result := make(map[string]interface{}, len(data)+len(relationships))
+	for property, value := range data {
+		result[property] = value
+	}
+
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			data,
@@ -188,17 +195,17 @@ func loadRelationships(
 		}
 
 		if relationshipConfig.IsArray {
-			data[relationshipName] = relationshipItems
+			result[relationshipName] = relationshipItems
 		} else {
 			if len(relationshipItems) == 0 {
-				data[relationshipName] = nil
+				result[relationshipName] = nil
 			} else {
-				data[relationshipName] = relationshipItems[0]
+				result[relationshipName] = relationshipItems[0]
 			}
 		}
 	}
 
-	return data, nil
+	return result, nil
 }
 
 func getDataFromPosition(
-- 
2.43.0


From 21d2e270127869702fccb2b3360a0784d1e795be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 17/33] fix: refuse null items in the configuration instead of
 crashing

---
 pkg/config/config.go              | 16 ++++++++++++++++
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 50 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..9f21297 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -1,6 +1,7 @@
 package config
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -66,6 +67,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 	}
 
 	for _, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, errors.New("parsers: An item is null.")
+		}
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
@@ -73,6 +77,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Parsers[name] = parser.parser
 	}
 	for _, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, errors.New("inputs: An item is null.")
+		}
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
@@ -80,6 +87,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Inputs[name] = input.input
 	}
 	for _, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, errors.New("indexes: An item is null.")
+		}
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
@@ -87,6 +97,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Indexes[name] = index.index
 	}
 	for _, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, errors.New("services: An item is null.")
+		}
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
@@ -94,6 +107,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Services[name] = service.service
 	}
 	for _, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, errors.New("outputs: An item is null.")
+		}
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..6dd8a6d 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 273aad0..fc8b982 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -103,6 +103,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..04f9e77 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..29046b0 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -97,6 +97,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..34a4808 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..8e4b504 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..260f78d 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -128,6 +128,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("value is null")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From fa788fcb980b4b359206fb3f3c2cb0481968cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 18/33] fix: report the paths of the configuration that cannot
 be checked

---
 pkg/input/csv_config.go    | 3 +++
 pkg/input/json_config.go   | 4 ++++
 pkg/input/xml_config.go    | 3 +++
 pkg/service/http_config.go | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index fc8b982..ac433ec 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -69,6 +69,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("csv.path: Error checking the path: %w", err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..92a590d 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -40,6 +41,9 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("json.path: Error checking the path: %w", err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 29046b0..5463a13 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -71,6 +71,9 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("xml.path: Error checking the path: %w", err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 260f78d..823c020 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -109,6 +109,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("certificatePath: Error checking the path: %w", err)
+	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
 	}
@@ -120,6 +123,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("privateKeyFile: Error checking the path: %w", err)
+	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
-- 
2.43.0


From 811faf100cf58355086548047b9b25c05b7bff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 19/33] fix: refuse split parsers that lead to themselves and
 charsets without a decoder

---
 pkg/parser/split_config.go | 11 +++++++++++
 pkg/parser/string.go       |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..9f82d91 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -62,6 +62,17 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	// Following the chain of split parsers to make sure that it ends
+	visitedParsers := map[string]bool{config.Name: true}
+	next := config
+	for next != nil {
+		if visitedParsers[next.Parser] {
+			return fmt.Errorf("split.parser: The parser '%v' leads to itself.", next.Parser)
+		}
+		visitedParsers[next.Parser] = true
+		next, _ = parsers[next.Parser].(*SplitConfig)
+	}
+
 	return nil
 }
 
diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..a2c9531 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -22,6 +23,9 @@ func NewString(
 		if err != nil {
 			return nil, err
 		}
+		if encoding == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported", config.ConvertFromCharset)
+		}
 
 		decoder = encoding.NewDecoder()
 	}
-- 
2.43.0


From de49b62f41cea5db42a2156e261bcabe1c5e95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 20/33] fix: accept the rtrim collation

---
 pkg/index/fts5_config.go   | 2 +-
 pkg/index/sqlite_config.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..cc720e0 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -7,7 +7,7 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
-var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type Fts5Config struct {
 	Name       string   `yaml:"name"`
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 6dd8a6d..4a2d51a 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From 071b9b67392a039f62da5e06e9fe047250ebb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 21/33] fix: refuse the same parameter name for the limit and
 the offset

---
 pkg/output/json_array_config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/output/json_array_config.go b/pkg/output/json_array_config.go
index a9c0e24..c8d3aee 100644
--- a/pkg/output/json_array_config.go
+++ b/pkg/output/json_array_config.go
@@ -64,6 +64,10 @@ func (config *JsonArrayConfig) Validate(
 		return fmt.Errorf("jsonArray.offset.%v", err)
 	}
 
+	if config.Limit.Parameter == config.Offset.Parameter {
+		return fmt.Errorf("jsonArray.offset.parameter: Parameter '%v' is already used for the limit", config.Offset.Parameter)
+	}
+
 	for configParamName, configParam := range config.Parameters {
 		logPrefix := fmt.Sprintf("jsonArray.parameters.%v.", configParamName)
 		if err := configParam.Validate(indexes, parsers, log, logPrefix, input); err != nil {
-- 
2.43.0


From 0b9a72ba44d3317ebc0314748dc78581d0386f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 22/33] fix: close the database cursors and report their errors

---
 pkg/index/fts5.go             | 18 +++++-------------
 pkg/index/sqlite.go           | 18 +++++-------------
 pkg/index/sqlite/positions.go | 28 ++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 26 deletions(-)
 create mode 100644 pkg/index/sqlite/positions.go

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..791801f 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -244,20 +244,12 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
+	positions, err := sqlitePackage.ReadPositions(rows)
+	if err != nil {
+		return nil, err
+	}
 
-		return nil, nil
-	}, nil
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..f9cced0 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -254,20 +254,12 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
-		}
+	positions, err := sqlitePackage.ReadPositions(rows)
+	if err != nil {
+		return nil, err
+	}
 
-		return nil, nil
-	}, nil
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Sqlite) Close() error {
diff --git a/pkg/index/sqlite/positions.go b/pkg/index/sqlite/positions.go
new file mode 100644
index 0000000..c2562fe
--- /dev/null
+++ b/pkg/index/sqlite/positions.go
@@ -0,0 +1,28 @@
+package sqlite
+
+import (
+	"database/sql"
+	"github.com/rodb-io/rodb/pkg/input/record"
+)
+
+// Reads all the positions at once, because a cursor that is not
+// read until its end would otherwise keep it's connection forever
+func ReadPositions(rows *sql.Rows) (record.PositionList, error) {
+	defer rows.Close()
+
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position int64
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
+		}
+
+		positions = append(positions, record.Position(position))
+	}
+
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions, nil
+}
-- 
2.43.0


From 4beb9d3bfce5eab2bb3677ba09b30991f69de0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 23/33] fix: find the null values and refuse the unknown
 columns in sqlite indexes

---
 pkg/index/sqlite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index f9cced0..4a4fcc2 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -241,7 +241,10 @@ func (sqlite *Sqlite) GetRecordPositions(
 			return nil, err
 		}
 
-		clauses = append(clauses, columnIdentifier+" = ?")
+		// Using the IS operator, because a null value is never equal to another one.
+		// The column requires the table name, because sqlite otherwise
+		// handles the identifier of an unknown column as a string.
+		clauses = append(clauses, tableIdentifier+"."+columnIdentifier+" IS ?")
 		values = append(values, filter)
 	}
 
-- 
2.43.0


From 95d7fd3fd1e4c48c0306ba7f4bb0978777c575ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 24/33] fix: use a single connection for the databases in
 memory

---
 pkg/index/sqlite/open.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..219bbf8 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -3,6 +3,7 @@ package sqlite
 import (
 	"database/sql"
 	_ "github.com/mattn/go-sqlite3"
+	"strings"
 )
 
 // We use the driver directly rather than the database/sql interfaces, because the generic
@@ -13,6 +14,11 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// Each connection to a database in memory gets it's own empty one
+	if strings.Contains(dsn, ":memory:") || strings.Contains(dsn, "mode=memory") {
+		db.SetMaxOpenConns(1)
+	}
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3c9a46c9ed15305f60e07ee8d4f41f23dfd3f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 25/33] fix: release everything held by an input when it fails
 or gets closed

---
 pkg/input/csv.go  | 27 +++++++++++++++++----------
 pkg/input/json.go | 27 +++++++++++++++++----------
 pkg/input/xml.go  | 28 ++++++++++++++++++----------
 3 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/pkg/input/csv.go b/pkg/input/csv.go
index 06e6408..264250e 100644
--- a/pkg/input/csv.go
+++ b/pkg/input/csv.go
@@ -41,6 +41,13 @@ func NewCsv(
 		watcher:    watcher,
 	}
 
+	initialized := false
+	defer func() {
+		if !initialized {
+			csvInput.Close()
+		}
+	}()
+
 	util.StartFilesystemWatchProcess(
 		csvInput.watcher,
 		csvInput.config.ShouldDieOnInputChange(),
@@ -75,6 +82,8 @@ func NewCsv(
 		csvInput.columnParsers[i] = parser
 	}
 
+	initialized = true
+
 	return csvInput, nil
 }
 
@@ -223,17 +232,15 @@ func (csvInput *Csv) IterateAll() (record.Iterator, func() error, error) {
 }
 
 func (csvInput *Csv) Close() error {
-	if err := csvInput.watcher.Remove(csvInput.config.Path); err != nil {
-		return err
-	}
+	// Everything must be released, even if one of the operations fails.
+	// Closing the watcher also removes the files it was watching.
+	err := csvInput.watcher.Close()
 
-	if err := csvInput.watcher.Close(); err != nil {
-		return err
-	}
-
-	if err := csvInput.csvFile.Close(); err != nil {
-		return err
+	if csvInput.csvFile != nil {
+		if fileErr := csvInput.csvFile.Close(); err == nil {
+			err = fileErr
+		}
 	}
 
-	return nil
+	return err
 }
diff --git a/pkg/input/json.go b/pkg/input/json.go
index 8091523..100a5d3 100644
--- a/pkg/input/json.go
+++ b/pkg/input/json.go
@@ -32,6 +32,13 @@ func NewJson(config *JsonConfig) (*Json, error) {
 		watcher:    watcher,
 	}
 
+	initialized := false
+	defer func() {
+		if !initialized {
+			jsonInput.Close()
+		}
+	}()
+
 	util.StartFilesystemWatchProcess(
 		jsonInput.watcher,
 		jsonInput.config.ShouldDieOnInputChange(),
@@ -55,6 +62,8 @@ func NewJson(config *JsonConfig) (*Json, error) {
 		return nil, err
 	}
 
+	initialized = true
+
 	return jsonInput, nil
 }
 
@@ -158,17 +167,15 @@ func (jsonInput *Json) IterateAll() (record.Iterator, func() error, error) {
 }
 
 func (jsonInput *Json) Close() error {
-	if err := jsonInput.watcher.Remove(jsonInput.config.Path); err != nil {
-		return err
-	}
+	// Everything must be released, even if one of the operations fails.
+	// Closing the watcher also removes the files it was watching.
+	err := jsonInput.watcher.Close()
 
-	if err := jsonInput.watcher.Close(); err != nil {
-		return err
-	}
-
-	if err := jsonInput.jsonFile.Close(); err != nil {
-		return err
+	if jsonInput.jsonFile != nil {
+		if fileErr := jsonInput.jsonFile.Close(); err == nil {
+			err = fileErr
+		}
 	}
 
-	return nil
+	return err
 }
diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..dd885c9 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -54,6 +54,13 @@ func NewXml(
 		parsers:    parsers,
 	}
 
+	initialized := false
+	defer func() {
+		if !initialized {
+			xmlInput.Close()
+		}
+	}()
+
 	util.StartFilesystemWatchProcess(
 		xmlInput.watcher,
 		xmlInput.config.ShouldDieOnInputChange(),
@@ -82,6 +89,8 @@ func NewXml(
 		return nil, err
 	}
 
+	initialized = true
+
 	return xmlInput, nil
 }
 
@@ -140,6 +149,7 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 		xmlInput.config.RecordXPath,
 	)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 
@@ -177,17 +187,15 @@ func (xmlInput *Xml) IterateAll() (record.Iterator, func() error, error) {
 }
 
 func (xmlInput *Xml) Close() error {
-	if err := xmlInput.watcher.Remove(xmlInput.config.Path); err != nil {
-		return err
-	}
+	// Everything must be released, even if one of the operations fails.
+	// Closing the watcher also removes the files it was watching.
+	err := xmlInput.watcher.Close()
 
-	if err := xmlInput.watcher.Close(); err != nil {
-		return err
-	}
-
-	if err := xmlInput.xmlFile.Close(); err != nil {
-		return err
+	if xmlInput.xmlFile != nil {
+		if fileErr := xmlInput.xmlFile.Close(); err == nil {
+			err = fileErr
+		}
 	}
 
-	return nil
+	return err
 }
-- 
2.43.0


From f4b124ce14db2dee11ec348439c7e3f1bb3dcb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 26/33] fix: close the file of the wildcard index

---
 pkg/index/wildcard.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 7e41ffb..a6802a9 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -15,6 +15,7 @@ type Wildcard struct {
 	config *WildcardConfig
 	input  input.Input
 	index  map[string]*wildcardPackage.TreeNode
+	file   *os.File
 }
 
 func NewWildcard(
@@ -34,12 +35,14 @@ func NewWildcard(
 	_, err := os.Stat(wildcard.config.Path)
 	if os.IsNotExist(err) {
 		if err := wildcard.createIndex(); err != nil {
+			wildcard.Close()
 			return nil, fmt.Errorf("Error while creating the index: %w", err)
 		}
 	} else if err != nil {
 		return nil, err
 	} else {
 		if err := wildcard.loadIndex(); err != nil {
+			wildcard.Close()
 			return nil, fmt.Errorf("Error while loading the index: %w", err)
 		}
 	}
@@ -56,6 +59,7 @@ func (wildcard *Wildcard) createIndex() error {
 	if err != nil {
 		return err
 	}
+	wildcard.file = indexFile
 
 	indexStream := wildcardPackage.NewStream(indexFile, 0)
 
@@ -155,6 +159,7 @@ func (wildcard *Wildcard) loadIndex() error {
 	if err != nil {
 		return err
 	}
+	wildcard.file = indexFile
 
 	indexFileStat, err := indexFile.Stat()
 	if err != nil {
@@ -275,5 +280,9 @@ func (wildcard *Wildcard) GetRecordPositions(
 }
 
 func (wildcard *Wildcard) Close() error {
-	return nil
+	if wildcard.file == nil {
+		return nil
+	}
+
+	return wildcard.file.Close()
 }
-- 
2.43.0


From 57ffec6768777ca916f035b92fcdcdf1582d2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 27/33] fix: close the database when an index cannot be opened
 or created

---
 pkg/index/fts5.go        | 10 ++++++++++
 pkg/index/sqlite.go      | 10 ++++++++++
 pkg/index/sqlite/open.go |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 791801f..112c1f3 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -42,6 +42,13 @@ func NewFts5(
 		db:     db,
 	}
 
+	initialized := false
+	defer func() {
+		if !initialized {
+			sqlite.Close()
+		}
+	}()
+
 	metadataExists, err := sqlitePackage.HasMetadata(sqlite.db, sqlite.config.Name)
 	if err != nil {
 		return nil, fmt.Errorf("Error while checking metadata from the index: %w", err)
@@ -61,6 +68,8 @@ func NewFts5(
 		}
 	}
 
+	initialized = true
+
 	return sqlite, nil
 }
 
@@ -149,6 +158,7 @@ func (sqlite *Fts5) createIndex() error {
 	if err != nil {
 		return fmt.Errorf("Error while preparing index table insert query: %w", err)
 	}
+	defer preparedInsert.Close()
 
 	valuesToInsert := make([]interface{}, 1+len(sqlite.config.Properties))
 	for {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 4a4fcc2..3286941 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -40,6 +40,13 @@ func NewSqlite(
 		db:     db,
 	}
 
+	initialized := false
+	defer func() {
+		if !initialized {
+			sqlite.Close()
+		}
+	}()
+
 	metadataExists, err := sqlitePackage.HasMetadata(sqlite.db, sqlite.config.Name)
 	if err != nil {
 		return nil, fmt.Errorf("Error while checking metadata from the index: %w", err)
@@ -59,6 +66,8 @@ func NewSqlite(
 		}
 	}
 
+	initialized = true
+
 	return sqlite, nil
 }
 
@@ -145,6 +154,7 @@ func (sqlite *Sqlite) createIndex() error {
 	if err != nil {
 		return fmt.Errorf("Error while preparing index table insert query: %w", err)
 	}
+	defer preparedInsert.Close()
 
 	valuesToInsert := make([]interface{}, 1+len(sqlite.config.Properties))
 	for {
diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 219bbf8..8c030a0 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -20,9 +20,11 @@ func Open(dsn string) (*sql.DB, error) {
 	}
 
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
+		db.Close()
 		return nil, err
 	}
 	if _, err = db.Exec(`PRAGMA journal_mode = OFF;`); err != nil {
+		db.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 7116a8ed99b5d11e3d280e47595b72c5cbc18092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 28/33] fix: close the input when a noop search fails

---
 pkg/index/noop.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index a34bd15..9cd7a7c 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -38,16 +38,24 @@ func (noop *Noop) GetRecordPositions(
 	}
 
 	closed := false
+	var lastErr error
+	closeOnError := func(err error) error {
+		closed = true
+		lastErr = err
+		// The reading error is the one to report
+		_ = end()
+		return err
+	}
 
 	return func() (*record.Position, error) {
 		for {
 			if closed {
-				return nil, nil
+				return nil, lastErr
 			}
 
 			record, err := inputIterator()
 			if err != nil {
-				return nil, err
+				return nil, closeOnError(err)
 			}
 			if record == nil {
 				break
@@ -57,7 +65,7 @@ func (noop *Noop) GetRecordPositions(
 			for propertyName, filter := range filters {
 				value, err := record.Get(propertyName)
 				if err != nil {
-					return nil, err
+					return nil, closeOnError(err)
 				}
 
 				if value == nil {
-- 
2.43.0


From 9b318062ce24990def83e62bfda7473d5b3328c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 29/33] fix: close all the components of a list even if one of
 them fails

---
 pkg/index/index.go     | 9 ++++++---
 pkg/input/input.go     | 9 ++++++---
 pkg/service/service.go | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/index/index.go b/pkg/index/index.go
index e8ab251..612947c 100644
--- a/pkg/index/index.go
+++ b/pkg/index/index.go
@@ -55,6 +55,7 @@ func NewFromConfigs(
 	for indexName, indexConfig := range configs {
 		index, err := NewFromConfig(indexConfig, inputs)
 		if err != nil {
+			Close(indexes)
 			return nil, err
 		}
 		indexes[indexName] = index
@@ -64,11 +65,13 @@ func NewFromConfigs(
 }
 
 func Close(indexes List) error {
+	// Everything must be closed, even if one of them fails
+	var firstErr error
 	for _, index := range indexes {
-		if err := index.Close(); err != nil {
-			return err
+		if err := index.Close(); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 
-	return nil
+	return firstErr
 }
diff --git a/pkg/input/input.go b/pkg/input/input.go
index 94fe240..98ffa19 100644
--- a/pkg/input/input.go
+++ b/pkg/input/input.go
@@ -55,6 +55,7 @@ func NewFromConfigs(
 	for inputName, inputConfig := range configs {
 		input, err := NewFromConfig(inputConfig, parsers)
 		if err != nil {
+			Close(inputs)
 			return nil, err
 		}
 		inputs[inputName] = input
@@ -64,11 +65,13 @@ func NewFromConfigs(
 }
 
 func Close(inputs List) error {
+	// Everything must be closed, even if one of them fails
+	var firstErr error
 	for _, input := range inputs {
-		if err := input.Close(); err != nil {
-			return err
+		if err := input.Close(); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 
-	return nil
+	return firstErr
 }
diff --git a/pkg/service/service.go b/pkg/service/service.go
index bade741..478daf4 100644
--- a/pkg/service/service.go
+++ b/pkg/service/service.go
@@ -41,6 +41,7 @@ func NewFromConfigs(
 	for serviceName, serviceConfig := range configs {
 		service, err := NewFromConfig(serviceConfig, outputs)
 		if err != nil {
+			Close(services)
 			return nil, err
 		}
 		services[serviceName] = service
@@ -62,11 +63,13 @@ func Wait(services List) error {
 }
 
 func Close(services List) error {
+	// Everything must be closed, even if one of them fails
+	var firstErr error
 	for _, service := range services {
-		if err := service.Close(); err != nil {
-			return err
+		if err := service.Close(); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 
-	return nil
+	return firstErr
 }
-- 
2.43.0


From 1a798cf8fd6eda4e3af960fc8ae7ef0abaceedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 30/33] fix: close the first server when the second one cannot
 start

---
 pkg/service/http.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index a884e18..f044603 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -91,6 +91,9 @@ func NewHttp(
 	if config.Https != nil {
 		service.httpsListener, service.httpsServer, err = service.createServer(config.Https.Listen)
 		if err != nil {
+			if service.httpServer != nil {
+				service.httpServer.Close()
+			}
 			return nil, err
 		}
 
@@ -311,17 +314,21 @@ func (service *Http) Wait() error {
 }
 
 func (service *Http) Close() error {
+	// Both servers must be closed, even if one of them fails
+	var firstErr error
 	if service.config.Http != nil {
-		if err := service.httpServer.Shutdown(context.Background()); err != nil {
-			return err
-		}
+		firstErr = service.httpServer.Shutdown(context.Background())
 	}
 
 	if service.config.Https != nil {
-		if err := service.httpsServer.Shutdown(context.Background()); err != nil {
-			return err
+		if err := service.httpsServer.Shutdown(context.Background()); firstErr == nil {
+			firstErr = err
 		}
 	}
 
+	if firstErr != nil {
+		return firstErr
+	}
+
 	return service.Wait()
 }
-- 
2.43.0


From 99fd94b66bb91ded5ed6bda9f498ada87e8d4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 31/33] fix: close the https listener when the certificate
 cannot be loaded

---
 pkg/service/http.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/service/http.go b/pkg/service/http.go
index f044603..ba40c52 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -100,6 +100,8 @@ func NewHttp(
 		service.waitGroup.Add(1)
 		go func() {
 			defer service.waitGroup.Done()
+			// It stays open when the certificate cannot be loaded
+			defer service.httpsListener.Close()
 			service.lastHttpsError = service.httpsServer.ServeTLS(
 				service.httpsListener,
 				config.Https.CertificatePath,
-- 
2.43.0


From a4fd12c9c7c73cfe8d9b618c0ef36e9ea9e726a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 32/33] fix: use one decoder for each text to convert

---
 pkg/parser/string.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index a2c9531..9b4dd2f 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -10,29 +10,28 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var charset encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		charset, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-		if encoding == nil {
+		if charset == nil {
 			return nil, fmt.Errorf("The charset '%v' is not supported", config.ConvertFromCharset)
 		}
-
-		decoder = encoding.NewDecoder()
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: charset,
 	}, nil
 }
 
@@ -50,7 +49,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// A decoder has a state, so it cannot be shared between concurrent calls
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0a079d5128c0dba3027dc8cbcda0159f641f82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 33/33] fix: evaluate each xpath expression once at a time

---
 pkg/input/xml_config.go | 4 ++++
 pkg/input/xml_record.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 5463a13..5e10cb5 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -7,6 +7,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +36,9 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+
+	// An expression keeps a state while it gets evaluated
+	evaluationLock sync.Mutex
 }
 
 func (config *XmlConfig) GetName() string {
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index c9021ba..ed83dd2 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -98,9 +98,11 @@ func (record *XmlRecord) getAllValues(
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
+	currentConfig.evaluationLock.Lock()
 	result := currentConfig.CompiledXPath.Evaluate(
 		xmlquery.CreateXPathNavigator(node),
 	)
+	currentConfig.evaluationLock.Unlock()
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -275,9 +277,11 @@ func (record *XmlRecord) getSubValue(
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
+	currentConfig.evaluationLock.Lock()
 	result := currentConfig.CompiledXPath.Evaluate(
 		xmlquery.CreateXPathNavigator(node),
 	)
+	currentConfig.evaluationLock.Unlock()
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0

