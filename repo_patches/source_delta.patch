From 713351e267e3cc86296bdc4db1e5346254c81b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 01/47] fix: netdata: read counted bytes completely, reject
 negative lengths

---
 scouterx/common/netdata/datainputx.go | 42 +++++++++++++++------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..9370619 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -93,12 +93,15 @@ func (in *DataInputX) ReadString() (string, error) {
 
 func (in *DataInputX) ReadBlob() ([]byte, error) {
 	baseLen, err := in.ReadUInt8()
+	if err != nil {
+		return []byte{}, err
+	}
 	var length int32
 	switch baseLen {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
 	case 0:
@@ -106,13 +109,10 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -166,24 +166,30 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
-	b, err := in.Read(length)
-	return b, err
-	//val := make([]byte, length)
-	//_, err = in.reader.Read(val)
-	//if err != nil {
-	//	val = []byte{}
-	//}
-	//return val, err
+	if err != nil {
+		return []byte{}, err
+	}
+	return in.Read(length)
 }
 
+// Read reads exactly len bytes. It fails if the stream ends before.
 func (in *DataInputX) Read(len int32) ([]byte, error) {
+	if len < 0 {
+		return []byte{}, errors.New("[scouter] Negative length:" + strconv.FormatInt(int64(len), 10))
+	}
 	in.offset += len
-	val := make([]byte, len)
-	_, err := in.reader.Read(val)
+	var buf bytes.Buffer
+	_, err := io.CopyN(&buf, in.reader, int64(len))
 	if err != nil {
-		val = []byte{}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return []byte{}, err
+	}
+	if buf.Len() == 0 {
+		return []byte{}, nil
 	}
-	return val, err
+	return buf.Bytes(), nil
 }
 
 func (in *DataInputX) ReadPack() (Pack, error) {
-- 
2.43.0


From d98ef7cb0a3115d92b4149392cc826b622a4f357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 02/47] fix: netdata: decode IP4ADDR values as addresses

---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From 121789b40a672f9f97925d4f85cce5e424740615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 03/47] fix: netdata: report decode errors instead of panicking
 or looping

---
 scouterx/common/netdata/datainputx.go         | 22 +++++++++++++++++--
 scouterx/common/netdata/listvalue.go          |  3 +++
 scouterx/common/netdata/mappack.go            |  6 +++++
 scouterx/common/netdata/mapvalue.go           |  6 +++++
 scouterx/common/netdata/objectpack.go         |  6 ++---
 .../common/netdata/perfcounter_k8s_pack.go    |  3 +--
 scouterx/common/netdata/perfcounterpack.go    |  3 +--
 7 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 9370619..8995dbd 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -155,6 +155,9 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
 	value := CreateValue(byte(valueType))
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
@@ -164,6 +167,19 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 }
 
+// readMapValue reads a value that has to be a map
+func (in *DataInputX) readMapValue() (*MapValue, error) {
+	value, err := in.ReadValue()
+	if err != nil {
+		return NewMapValue(), err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return NewMapValue(), errors.New("[scouter] Not a map value:" + strconv.FormatUint(uint64(value.GetValueType()), 10))
+	}
+	return mapValue, nil
+}
+
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
 	if err != nil {
@@ -198,8 +214,10 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
-	return pack, err
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.FormatUint(uint64(byte(packType)), 10))
+	}
+	return pack.Read(in)
 
 }
 
diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..f2b963c 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -141,6 +141,9 @@ func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	for i := int64(0); i < size; i++ {
 		var value Value
 		value , err = in.ReadValue()
+		if err != nil {
+			return listValue, err
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..f798aa2 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -42,7 +42,13 @@ func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapPack, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapPack, err
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..92b6ad2 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -40,7 +40,13 @@ func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapValue, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapValue, err
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..cd31554 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -90,8 +90,7 @@ func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
 	objectPack.Family, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	objectPack.Tags, err = in.readMapValue()
 
 	return objectPack, err
 }
@@ -105,8 +104,7 @@ func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	objectPack.Version, err = in.ReadString()
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
-	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	objectPack.Tags, err = in.readMapValue()
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index c1718da..35f1331 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -61,8 +61,7 @@ func (pack *PerfCounterK8SPack) Read(in *DataInputX) (Pack, error) {
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
 	pack.MetricLevel, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	pack.Data, err = in.readMapValue()
 	return pack, err
 }
 
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..8758681 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -37,8 +37,7 @@ func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	pack.Time, err = in.ReadInt64()
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
-	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	pack.Data, err = in.readMapValue()
 	return pack, err
 }
 
-- 
2.43.0


From fb3a8b3c721eb66022e646714bdd037f41b7caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 04/47] fix: netdata: MapValue.Put keeps int and int32 values

---
 scouterx/common/netdata/mapvalue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 92b6ad2..c27bd07 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -74,6 +74,10 @@ func (mapValue *MapValue) Put(key string, any interface{}) {
 		mapValue.Table[key] = NewTextValue(any.(string))
 	case int64:
 		mapValue.Table[key] = NewDecimalValue(any.(int64))
+	case int32:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int32)))
+	case int:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int)))
 	case bool:
 		mapValue.Table[key] = NewBooleanValue(any.(bool))
 	case float32:
-- 
2.43.0


From 1caefcb7b576e859b9f885368240ed1a56640b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 05/47] fix: netdata: WriteValue and WritePack report write
 errors

---
 scouterx/common/netdata/dataoutputx.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/netdata/dataoutputx.go b/scouterx/common/netdata/dataoutputx.go
index 502a894..9748534 100644
--- a/scouterx/common/netdata/dataoutputx.go
+++ b/scouterx/common/netdata/dataoutputx.go
@@ -152,13 +152,19 @@ func (out *DataOutputX) WriteValue(value Value) (*DataOutputX, error) {
 		value = NewNilValue()
 	}
 	_, err := out.WriteUInt8(uint8(value.GetValueType()))
-	value.Write(out)
+	if err != nil {
+		return out, err
+	}
+	err = value.Write(out)
 	return out, err
 }
 
 func (out *DataOutputX) WritePack(pack Pack) (*DataOutputX, error) {
 	_, err := out.WriteUInt8(uint8(pack.GetPackType()))
-	pack.Write(out)
+	if err != nil {
+		return out, err
+	}
+	err = pack.Write(out)
 	return out, err
 }
 
-- 
2.43.0


From bf5c836fede420e03278828f8e2c134c1e5e0a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 06/47] fix: netdata: DumpStep is written with the dump step
 type

---
 scouterx/common/netdata/dumpstep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/dumpstep.go b/scouterx/common/netdata/dumpstep.go
index fcfd1e5..512b716 100644
--- a/scouterx/common/netdata/dumpstep.go
+++ b/scouterx/common/netdata/dumpstep.go
@@ -17,7 +17,7 @@ func NewDumpStep() *DumpStep {
 }
 
 func (s *DumpStep) GetStepType() byte {
-	return METHOD
+	return DUMP
 }
 
 func (s *DumpStep) Write(out *DataOutputX) error {
-- 
2.43.0


From 97922affbe39681ae71592395ed4f93cd4b07349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 07/47] fix: netdata: BooleanValue.ToString of false

---
 scouterx/common/netdata/booleanvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/booleanvalue.go b/scouterx/common/netdata/booleanvalue.go
index 20d112a..a830af2 100644
--- a/scouterx/common/netdata/booleanvalue.go
+++ b/scouterx/common/netdata/booleanvalue.go
@@ -54,5 +54,5 @@ func (booleanValue *BooleanValue) ToString() string {
 	if booleanValue.Value {
 		return "true"
 	}
-	return "fasle"
+	return "false"
 }
-- 
2.43.0


From 175aaee5481f0991e0aed3b24cae046bbf0ab8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 08/47] fix: util: compile the patterns of a comma separated
 list

---
 scouterx/common/util/strmatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..a1f98f1 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From 2fab9b056f2f3402a2910e58d2fafed3855fc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 09/47] fix: util: match the parts of a wildcard pattern in
 order and without overlap

---
 scouterx/common/util/strmatch.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index a1f98f1..b8d7190 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -92,20 +92,10 @@ func (m *StrMatch) include(target string) bool {
 		return m.mid == target
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
-	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
-	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+	case c_STR_MID, c_STR_END, c_MID_MID, c_MID_END:
+		return includeInOrder(target, strings.Split(m.Pattern, asta1))
 	case c_MID:
 		return strings.Contains(target, m.mid)
-	case c_MID_MID:
-		x := strings.Index(target, m.mid)
-		if x < 0 {
-			return false
-		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
-	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
 	default:
@@ -113,6 +103,23 @@ func (m *StrMatch) include(target string) bool {
 	}
 }
 
+// includeInOrder tells whether the parts between the stars of a pattern follow each other in target
+// without overlapping.
+func includeInOrder(target string, parts []string) bool {
+	first, last := parts[0], parts[len(parts)-1]
+	if !strings.HasPrefix(target, first) {
+		return false
+	}
+	target = target[len(first):]
+	for _, part := range parts[1 : len(parts)-1] {
+		x := strings.Index(target, part)
+		if x < 0 {
+			return false
+		}
+		target = target[x+len(part):]
+	}
+	return strings.HasSuffix(target, last)
+}
 
 type CommaSeparatedChainedStrMatcher struct {
 	strMatches []StrMatch
-- 
2.43.0


From 91715387a8a88196245e21ef23501ce06aaeb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 10/47] fix: udpsender: open the socket again when it could not
 be opened

---
 scouterx/netio/udpsender/udpsender.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2c7b948..c58a73b 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -48,7 +48,7 @@ func GetInstance() *UDPSender {
 func reloadUdpSender() {
 	for {
 		time.Sleep(1000 * time.Millisecond)
-		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes {
+		if udpSender.udpClient.Conn == nil || serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes {
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
 			udpMaxBytes = ac.UDPMaxBytes
-- 
2.43.0


From 263a716d30710e53c25b98ee807cedf0ad8c1068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 11/47] fix: cachemap2: a removed key leaves the insertion
 order too

---
 scouterx/common/structure/cachemap2/cachemap2.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..7267727 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -68,12 +68,11 @@ func (m *CacheMap) Add(key interface{}, item interface{}) {
 func (m *CacheMap) Remove(key interface{}) {
 	lock.Lock()
 	defer lock.Unlock()
-	delete(m.table, key)
-	//index, contains := m.orderPos[key]
-	//if contains {
-	//	m.ordering.Remove(index)
-	//	delete(m.orderPos, key)
-	//}
+	if _, contains := m.table[key]; contains {
+		delete(m.table, key)
+		delete(m.orderPos, key)
+		m.ordering.Remove(m.ordering.IndexOf(key))
+	}
 }
 
 func (m *CacheMap) removeExceeded() {
-- 
2.43.0


From f27d3cf62d9a5b53efa313f9c9fda17e9bdeaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 12/47] fix: lra: Empty does not take the read lock twice

---
 scouterx/common/structure/lra/lra.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..bbc5619 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0
 }
 
 
-- 
2.43.0


From a71cee287d35b68a3e2dadbfc41c9a813b7379b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 13/47] fix: lra: GetValues reads the entries under the lock

---
 scouterx/common/structure/lra/lra.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index bbc5619..da16e74 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -119,18 +119,16 @@ func (c *Cache) Clear() {
 }
 
 func (c *Cache) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	for _, e := range c.table {
-		lock.RUnlock()
 		if e != nil {
 			kv := e.Value.(*entry)
 			if kv != nil && kv.value != nil {
 				l = append(l, kv.value)
 			}
 		}
-		lock.RLock()
 	}
 	return l
 }
-- 
2.43.0


From 7f73c2a81c21604ba18874e571e1a7d185518fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 14/47] fix: cachemap: Size, String and GetValues read the
 table under the lock

---
 scouterx/common/structure/cachemap/cachemap.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..955d701 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -14,15 +14,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	for _, v := range m.table.Values() {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -90,10 +88,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.table.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.table.Size()
 }
 
@@ -104,5 +104,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
-- 
2.43.0


From 07a47cc810c7dbd1755086855c7dfa066c0488af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 15/47] fix: cachemap2: Size, String, GetValues and the
 observer read the tables under the lock

---
 scouterx/common/structure/cachemap2/cachemap2.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index 7267727..1fe8ef4 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -18,15 +18,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	for _, v := range m.table {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
@@ -41,7 +39,7 @@ func New(maxSize int) *CacheMap {
 	once.Do(func() {
 		go func() {
 			for {
-				if m.ordering.Size() > m.maxSize/2 {
+				if m.Size() > m.maxSize/2 {
 					time.Sleep(500 * time.Millisecond)
 					//TODO
 				} else {
@@ -104,10 +102,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 func (m *CacheMap) Empty() bool {
 	lock.Lock()
 	defer lock.Unlock()
-	return m.Size() == 0
+	return m.ordering.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.ordering.Size()
 }
 
@@ -120,5 +120,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
-- 
2.43.0


From bb50f63c872a39087c29250a2a5f87cba8e61c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:44 +0000
Subject: [PATCH 16/47] fix: cacheset: Size reads the set under the lock

---
 scouterx/common/structure/cacheset/cacheset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
-- 
2.43.0


From b3c4b2eb199ce29f37a2c2ec92c12fb0592a848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 17/47] fix: strace: a failed service of the discard patterns
 is only kept when xlog_discard_service_show_error says so

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..9749e69 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -407,7 +407,7 @@ func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscar
 	//check xlog discard pattern
 	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 {
+		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
-- 
2.43.0


From 39d3ec3a35d87366f76d42b669136e46ba7034df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:04 +0000
Subject: [PATCH 18/47] fix: a service ended by two goroutines at once was
 reported and counted twice

---
 scouterx/netio/tracecontext.go | 11 +++++++++++
 scouterx/strace/tracemain.go   |  3 +--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 28726fa..25621d8 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -5,11 +5,13 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
 type TraceContext struct {
 	Closed     bool
+	closing    int32
 	Noop       bool
 	LastMethod string
 	IsStream   bool
@@ -95,6 +97,15 @@ func NewNoopTraceContext() *TraceContext {
 	return context
 }
 
+// Close marks the service as ended. Only the first caller gets true.
+func (tctx *TraceContext) Close() bool {
+	if !atomic.CompareAndSwapInt32(&tctx.closing, 0, 1) {
+		return false
+	}
+	tctx.Closed = true
+	return true
+}
+
 func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 9749e69..567a438 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -371,10 +371,9 @@ func endStuckServiceForcibly(tctx *netio.TraceContext) {
 }
 
 func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
-	if tctx.Closed {
+	if !tctx.Close() {
 		return
 	}
-	tctx.Closed = true
 
 	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
 	tctxmanager.End(tctx)
-- 
2.43.0


From 73fad73825836d7230f65c9a09994f8b6c1eec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 19/47] fix: the transaction record lacked the number and size
 of the profile steps sent at its end

---
 scouterx/strace/tracemain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 567a438..d6f29ee 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -380,10 +380,11 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	elapsed := util.MillisToNow(tctx.StartTime)
 	discardType := findXLogDiscard(tctx, elapsed)
-	xlog := tctx.ToXlog(discardType, elapsed)
 
+	//the xlog has the count and size of the whole profile
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
+	xlog := tctx.ToXlog(discardType, elapsed)
 
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
-- 
2.43.0


From 5cb3fb27984be1c9943125a637f995c5865c3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 20/47] fix: profile steps added from several goroutines or
 after the end of the service were lost, overwritten or sent twice

---
 scouterx/netio/profilecollector.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 3aaff6d..eb6cce2 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -3,17 +3,20 @@ package netio
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
+	"sync"
 )
 
 var aconf = conf.GetInstance()
 
 type ProfileCollector struct {
+	sync.Mutex
 	tctx *TraceContext
 	steps []netdata.Step
 	pos int
 	doingDumpStepJob bool
 	currentLevel int32
 	parentLevel int32
+	closed bool
 }
 
 func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
@@ -24,6 +27,8 @@ func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 }
 
 func (c *ProfileCollector) Push(ss netdata.Step) {
+	c.Lock()
+	defer c.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
@@ -32,21 +37,34 @@ func (c *ProfileCollector) Push(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Pop(ss netdata.Step) {
+	c.Lock()
+	defer c.Unlock()
 	c.checkDumpStep()
 	c.parentLevel = ss.GetParent()
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Add(ss netdata.Step) {
+	c.Lock()
+	defer c.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
 	c.currentLevel++
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
+	c.Lock()
+	defer c.Unlock()
+	c.process(ss)
+}
+
+func (c *ProfileCollector) process(ss netdata.Step) {
 	c.checkDumpStep()
+	if c.closed {
+		return
+	}
 	c.steps[c.pos] = ss
 	c.pos++
 	if c.pos >= len(c.steps) {
@@ -58,7 +76,13 @@ func (c *ProfileCollector) Process(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Close(ok bool) {
+	c.Lock()
+	defer c.Unlock()
 	c.checkDumpStep()
+	if c.closed {
+		return
+	}
+	c.closed = true
 	if c.pos > 0 && ok {
 		SendProfile(c.steps[0 : c.pos], c.tctx)
 	}
-- 
2.43.0


From 90c3b27fa8539ac585e879b65370648997e66432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:29 +0000
Subject: [PATCH 21/47] fix: the text form of the smallest transaction id was
 malformed

---
 scouterx/common/util/hexautil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/hexautil.go b/scouterx/common/util/hexautil.go
index ee5a301..553a48d 100644
--- a/scouterx/common/util/hexautil.go
+++ b/scouterx/common/util/hexautil.go
@@ -8,7 +8,7 @@ const xminus = "z"
 func IntToXlogString32(num int64) string {
 	minus := num < 0
 	if minus {
-		return xminus + strconv.FormatInt(-num, 32)
+		return xminus + strconv.FormatUint(uint64(-num), 32)
 	} else {
 		return xplus + strconv.FormatInt(num, 32)
 	}
-- 
2.43.0


From 85cb8ce147dd3180a49fbf940f62aeeb93c0212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 22/47] fix: counters were read without the lock that services
 are added under

---
 scouterx/counter/serviceMetering.go | 2 ++
 scouterx/counter/valueMetering.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..c3bc3f0 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,8 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..d647939 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,8 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From 1800d1a191c6780db3c610f16438ca13a54d0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 23/47] fix: SendServiceCounter swapped the service rate and
 the error rate

---
 scouterx/counter/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 288f310..ed94d9a 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -49,9 +49,9 @@ func SendServiceCounter() {
 
 	//TODO activeCounter
 	//TODO WAS_ACTIVE_SERVICE, WAS_ACTIVE_SPEED
-	pack.Put(TPS, counter.ErrorRate)
+	pack.Put(TPS, counter.Tps)
 	pack.Put(ELAPSED_TIME, counter.Elapsed)
-	pack.Put(ERROR_RATE, counter.Tps)
+	pack.Put(ERROR_RATE, counter.ErrorRate)
 
 	netio.SendPackDirect(pack)
 }
-- 
2.43.0


From 2bd5af4b9ca4ad3033d0915f5a71fabf7e87dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 24/47] fix: the alert of a stuck service had a verb without an
 argument

---
 scouterx/strace/tctxmanager/tctxmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index dc046b8..b46ca6a 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -94,7 +94,7 @@ func GetActiveCount() [3]int64 {
 		}
 		if elapsed > ac.StuckServiceBaseTimeMs {
 			fEndStuckServiceForcibly(tctx)
-			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
+			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d", tctx.ServiceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
 			} else {
-- 
2.43.0


From 99afccc4796c58bfa8261f7105bf27672022148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 25/47] fix: services were listed as active before their name
 and start time were set (data race)

---
 scouterx/strace/tracemain.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index d6f29ee..cd0557a 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -292,6 +292,7 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 	go func() {
 		if childTctx != nil {
 			childTctx.StartTime = time.Now()
+			tctxmanager.Start(childTctx)
 		}
 		defer endChildGoroutineService(newCtx)
 		func4Goroutine(newCtx)
@@ -307,7 +308,7 @@ func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Go
 		return ctx, nil
 	}
 
-	ctx4Goroutine, childTctx = startService(ctx, serviceName, parentTctx.RemoteIp)
+	ctx4Goroutine, childTctx = newService(ctx, serviceName, parentTctx.RemoteIp)
 	childTctx.XType = netdata.XTYPE_BACK_THREAD2
 	childTctx.Caller = parentTctx.Txid
 	childTctx.Gxid = parentTctx.Gxid
@@ -331,8 +332,14 @@ func endChildGoroutineService(ctx context.Context) {
 }
 
 func startService(ctx context.Context, serviceName, remoteAddr string) (context.Context, *netio.TraceContext) {
-	newCtx, tctx := tctxmanager.NewTraceContext(ctx)
+	newCtx, tctx := newService(ctx, serviceName, remoteAddr)
 	tctxmanager.Start(tctx)
+	return newCtx, tctx
+}
+
+//newService makes a service that is not listed as active yet. What others read of it is set here.
+func newService(ctx context.Context, serviceName, remoteAddr string) (context.Context, *netio.TraceContext) {
+	newCtx, tctx := tctxmanager.NewTraceContext(ctx)
 
 	tctx.Gxid = tctx.Txid
 	tctx.Goid = common.Goid()
-- 
2.43.0


From aab73f4735276d7cb9b5ef8d02026e336cd58838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 26/47] fix: the last method of a service was read by the
 collector's commands while the service set it (data race)

---
 scouterx/netio/tcpclient/handlers.go |  2 +-
 scouterx/netio/tracecontext.go       | 15 +++++++++++++--
 scouterx/strace/tracemain.go         |  2 +-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/scouterx/netio/tcpclient/handlers.go b/scouterx/netio/tcpclient/handlers.go
index a39eb60..97c197e 100644
--- a/scouterx/netio/tcpclient/handlers.go
+++ b/scouterx/netio/tcpclient/handlers.go
@@ -237,7 +237,7 @@ func GetGoroutineDetail(param netdata.Pack) *netdata.MapPack {
 	p.Put("State", "n/a");
 	p.Put("Thread Name", "[goroutine] " + strconv.Itoa(goid));
 	p.Put("Stack Trace", "stacktrace for goroutine is not yet supported");
-	p.Put("Last trace method", tctx.LastMethod);
+	p.Put("Last trace method", tctx.LastMethod());
 
 	return p
 }
diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 25621d8..08f0bee 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -13,7 +13,7 @@ type TraceContext struct {
 	Closed     bool
 	closing    int32
 	Noop       bool
-	LastMethod string
+	lastMethod atomic.Value
 	IsStream   bool
 
 	Inherit          bool
@@ -97,6 +97,17 @@ func NewNoopTraceContext() *TraceContext {
 	return context
 }
 
+// SetLastMethod keeps the name of the method that was started last. The collector may read it at any time.
+func (tctx *TraceContext) SetLastMethod(name string) {
+	tctx.lastMethod.Store(name)
+}
+
+// LastMethod is the name of the method that was started last.
+func (tctx *TraceContext) LastMethod() string {
+	name, _ := tctx.lastMethod.Load().(string)
+	return name
+}
+
 // Close marks the service as ended. Only the first caller gets true.
 func (tctx *TraceContext) Close() bool {
 	if !atomic.CompareAndSwapInt32(&tctx.closing, 0, 1) {
@@ -106,7 +117,7 @@ func (tctx *TraceContext) Close() bool {
 	return true
 }
 
-func (tctx (TraceContext)) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
+func (tctx *TraceContext) ToXlog(discardType netdata.XlogDiscardType, elapsed int32) *netdata.XlogPack {
 	xlog := netdata.NewXlogPack()
 	xlog.Elapsed = elapsed
 	xlog.Service = tctx.ServiceHash
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index cd0557a..0054b58 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -467,7 +467,7 @@ func startMethodWithParam(ctx context.Context, params ...interface{}) *netdata.M
 
 func startMethodWithParam0(tctx *netio.TraceContext, funcName string, methodName string, params ...interface{}) *netdata.MethodStep {
 	addMessageStepIfParamExist(tctx, params)
-	tctx.LastMethod = funcName
+	tctx.SetLastMethod(funcName)
 
 	step := netdata.NewMethodStep()
 	step.Hash = netio.SendMethod(methodName)
-- 
2.43.0


From ead44f8ab4700ed4c77a565c0c8f6dca4fcc8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:15 +0000
Subject: [PATCH 27/47] fix: file commands of the collector could read and
 delete files outside of the dump folders

---
 scouterx/dump/dump.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..7c493a1 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -20,6 +20,11 @@ import (
 
 const suffix = "pprof"
 
+//isFileName tells whether the name is that of a file in a folder, and does not lead elsewhere.
+func isFileName(name string) bool {
+	return name == filepath.Base(name) && name != "." && name != ".." && name != string(filepath.Separator)
+}
+
 func StackTrace(count int) string {
 	// fine, line
 	pcLen := count
@@ -247,7 +252,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 }
 
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		return
 	}
 	dumpPath := getBinaryDumpPath()
@@ -284,7 +289,7 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 
 func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 	pack := netdata.NewMapPack()
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if !isFileName(fileName) || !strings.HasSuffix(fileName, suffix){
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", "no fileName")
 		return pack
@@ -309,6 +314,9 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
+	if !isFileName(name) {
+		return
+	}
 	dumpFile := filepath.Join(getDumpPath(), name)
 
 	data, err := os.Open(dumpFile)
-- 
2.43.0


From d2c405a8d1805d1c9adee82687aab263f0489b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 28/47] fix: listing dumps panicked when the folder could not
 be read

---
 scouterx/dump/dump.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 7c493a1..f42eb4a 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -220,7 +220,7 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() {
+		if info != nil && !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 			modifiedLv.AddInt64(util.TimeToMillis(info.ModTime()))
@@ -241,7 +241,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
-		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
+		if info != nil && !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
 		}
-- 
2.43.0


From 512ec7244af58766d58e2443018a9716578d4d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 29/47] fix: goroutine dumps were cut off because the file's
 buffer was not flushed

---
 scouterx/dump/dump.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index f42eb4a..42993a9 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -69,22 +69,21 @@ func HeavyAllStackTrace() netdata.Pack {
 func heavyAllStackTrace() (string, error) {
 	fileName := filepath.Join(getDumpPath(), "go_dump_" + time.Now().Format("20060102_150405") + ".log")
 
-	var w io.Writer = os.Stdout
-	if fileName != "" {
-		f, err := os.Create(fileName)
-		if err == nil {
-			w = bufio.NewWriter(f)
-			defer f.Close()
-		} else {
-			return "", err
-		}
+	f, err := os.Create(fileName)
+	if err != nil {
+		return "", err
 	}
+	defer f.Close()
+	w := bufio.NewWriter(f)
 	profile := pprof.Lookup("goroutine")
 	if profile == nil {
 		logger.Error.Printf("could not find goroutine profile\n")
 		return "", errors.New("could not find goroutine profile")
 	}
-	return fileName, profile.WriteTo(w, 2)
+	if err := profile.WriteTo(w, 2); err != nil {
+		return fileName, err
+	}
+	return fileName, w.Flush()
 }
 
 func ProfileBinaryCpu(sec int) netdata.Pack {
-- 
2.43.0


From 9e2a2b948e76814cf0eaf377699d9d00c34bb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 30/47] fix: a TCP session does not outlive the collector it is
 connected to when the configuration changes while connecting

---
 scouterx/netio/tcpclient/tcpclient.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 356ffc6..6c85473 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -71,8 +71,8 @@ func (c *TCPClient) Process() error {
 	out := netdata.NewDataOutputX(c.conn)
 	defer c.conn.Close()
 
-	serverAddr := ac.NetCollectorIP
-	serverPort := ac.NetCollectorTCPPort
+	serverAddr := c.host
+	serverPort := c.port
 
 	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))
 	_, err = out.WriteInt32(c.objHash)
-- 
2.43.0


From b557022a58b433747e49022cbfd1fb154b0b9f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 31/47] fix: a request whose command cannot be decoded ends the
 TCP session

---
 scouterx/netio/tcpclient/tcpclient.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 6c85473..b419ce4 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -93,6 +93,9 @@ func (c *TCPClient) Process() error {
 
 		in0 := netdata.NewDataInputX(buff)
 		cmd, err := in0.ReadString()
+		if err != nil {
+			return err
+		}
 		parameter, err := in0.ReadPack()
 		if err != nil {
 			return err
-- 
2.43.0


From 294c7615c944f7d7595934f81ab4a9314393d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 32/47] fix: the pause before reconnecting to the collector
 grows with every failed attempt

---
 scouterx/netio/tcpclient/tcpmanager.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpmanager.go b/scouterx/netio/tcpclient/tcpmanager.go
index 566af5a..1bb35c5 100644
--- a/scouterx/netio/tcpclient/tcpmanager.go
+++ b/scouterx/netio/tcpclient/tcpmanager.go
@@ -13,16 +13,17 @@ func StartTcp() {
 }
 
 func startTcp() {
-	for (true) {
-		minSleep := 3000
-		sleep := minSleep
-		maxSleep := 60000
+	minSleep := 3000
+	sleep := minSleep
+	maxSleep := 60000
 
+	for (true) {
 		func() {
 			defer common.ReportScouterPanic()
 			time.Sleep(time.Duration(1000) * time.Millisecond)
 			client := GetTcpClient()
 			if client.Prepare() {
+				sleep = minSleep
 				err := client.Process()
 				if err != nil {
 					logger.Error.Printf("[scouter][err]connection to collector: %v\n", err)
-- 
2.43.0


From 372016767f6015b89378dc0098d1d6e813d964cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 33/47] fix: environment values were cut at their second '='
 and entries without '=' made the agent panic

---
 scouterx/conf/configure.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..002ae6d 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -227,8 +227,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
-			props.Set(pair[0], pair[1])
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) == 2 {
+				props.Set(pair[0], pair[1])
+			}
 		}
 
 		fileProps, err := properties.LoadFile(filePath, properties.UTF8)
-- 
2.43.0


From 9670a0ec463e10ca9c4f79b5d299d6e941a93aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 34/47] fix: a configuration file that was restored with an
 older or its former time was never read

---
 scouterx/conf/configure.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 002ae6d..0a0f6b6 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -224,7 +224,7 @@ func (conf *Configure) Refresh() {
 			return
 		}
 	}
-	if info == nil || info.ModTime().After(conf.lastModified) {
+	if info == nil || !info.ModTime().Equal(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
 			pair := strings.SplitN(e, "=", 2)
@@ -252,6 +252,7 @@ func (conf *Configure) Refresh() {
 		})
 
 		conf.addToConf(props)
+		conf.lastModified = time.Time{}
 		if info != nil {
 			conf.lastModified = info.ModTime()
 		}
-- 
2.43.0


From 0399d211e5c4e75df936de2189eb0ddf2fb9c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 35/47] fix: the host process ended when the agent's log file
 could not be opened

---
 scouterx/common/logger/logger.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..c46ad44 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -15,14 +15,17 @@ func Init() {
 	util.MakeDir(logPath)
 	fileName := filepath.Join(logPath, "scouter.log")
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
+	out, err := io.Writer(os.Stdout), io.Writer(os.Stderr)
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		log.Println("cannot open log file")
+	} else {
+		out, err = io.MultiWriter(logfile, os.Stdout), io.MultiWriter(logfile, os.Stderr)
 	}
 
-	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-	Info = log.New(io.MultiWriter(logfile, os.Stdout), "info:", log.Ldate|log.Ltime|log.Lshortfile)
-	Warning = log.New(io.MultiWriter(logfile, os.Stdout), "warning:", log.Ldate|log.Ltime|log.Lshortfile)
-	Error = log.New(io.MultiWriter(logfile, os.Stderr), "error:", log.Ldate|log.Ltime|log.Lshortfile)
+	Trace = log.New(out, "trace:", log.Ldate|log.Ltime|log.Lshortfile)
+	Info = log.New(out, "info:", log.Ldate|log.Ltime|log.Lshortfile)
+	Warning = log.New(out, "warning:", log.Ldate|log.Ltime|log.Lshortfile)
+	Error = log.New(err, "error:", log.Ldate|log.Ltime|log.Lshortfile)
 }
 
 // Error level
-- 
2.43.0


From 1be6439e7a270fdda702cae4cadbdd0a5614d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 36/47] fix: a panic of the host when trace_obj_send is on and
 there is no udp socket

---
 scouterx/netio/udpsender/udpsender.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index c58a73b..333ec8d 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -86,8 +86,9 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 
 func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	if ac.TraceObjSend {
-		if p, ok := pack.(*netdata.ObjectPack); ok {
-			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", udpSender.udpClient.Conn.RemoteAddr(), p.ToString())
+		conn := udpSender.udpClient.Conn
+		if p, ok := pack.(*netdata.ObjectPack); ok && conn != nil {
+			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", conn.RemoteAddr(), p.ToString())
 		}
 	}
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
-- 
2.43.0


From b51e4c5b7eabbfc1d6c04a2efae3f21561b4563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 37/47] fix: udp_max_bytes, send_queue_size and profile step
 sizes that are not positive made the agent panic

---
 .../common/factory/channelfactory/channelfactory.go  |  6 +++++-
 scouterx/netio/dataproxy.go                          |  3 +++
 scouterx/netio/profilecollector.go                   | 12 ++++++++++--
 scouterx/netio/udpclient/udpclient.go                |  4 +++-
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/factory/channelfactory/channelfactory.go b/scouterx/common/factory/channelfactory/channelfactory.go
index d9b8177..f01d4d1 100644
--- a/scouterx/common/factory/channelfactory/channelfactory.go
+++ b/scouterx/common/factory/channelfactory/channelfactory.go
@@ -11,7 +11,11 @@ var udpChannel chan []byte
 //GetUDPChannel returns  channel which stores pack data.
 func GetUDPChannel() chan []byte {
 	once.Do(func() {
-		udpChannel = make(chan []byte, conf.GetInstance().SendQueueSize)
+		size := conf.GetInstance().SendQueueSize
+		if size < 0 {
+			size = 0
+		}
+		udpChannel = make(chan []byte, size)
 	})
 	return udpChannel
 }
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..f123187 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -216,6 +216,9 @@ func SendProfile(steps []netdata.Step, tctx *TraceContext) {
 		return
 	}
 	bulkSize := ac.ProfileStepMaxCount
+	if bulkSize < 1 {
+		bulkSize = 1
+	}
 	count := len(steps) / bulkSize
 	if count == 0 {
 		sendProfile0(steps, tctx)
diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index eb6cce2..139caec 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -22,10 +22,18 @@ type ProfileCollector struct {
 func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 	collector := new(ProfileCollector)
 	collector.tctx = tctx
-	collector.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
+	collector.steps = newStepBuffer()
 	return collector
 }
 
+func newStepBuffer() []netdata.Step {
+	size := aconf.ProfileStepMaxKeepInMemoryCount
+	if size < 1 {
+		size = 1
+	}
+	return make([]netdata.Step, size)
+}
+
 func (c *ProfileCollector) Push(ss netdata.Step) {
 	c.Lock()
 	defer c.Unlock()
@@ -69,7 +77,7 @@ func (c *ProfileCollector) process(ss netdata.Step) {
 	c.pos++
 	if c.pos >= len(c.steps) {
 		var o = c.steps
-		c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
+		c.steps = newStepBuffer()
 		c.pos = 0;
 		SendProfile(o, c.tctx)
 	}
diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 65f3b97..46021d6 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -28,7 +28,9 @@ func New(addr string , port int) *UDPClient {
 }
 
 func (udpClient *UDPClient) SetUDPMaxBytes (max int) {
-	udpClient.udpMaxBytes = max
+	if max > 0 {
+		udpClient.udpMaxBytes = max
+	}
 }
 
 
-- 
2.43.0


From 2e4e192cc912e96a0f2c2f126e63ac969df9faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 38/47] fix: a panic while the agent reports a panic reached
 the host

---
 scouterx/common/panic.go    | 12 +++++++++++-
 scouterx/netio/dataproxy.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..b6742cb 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -16,9 +16,19 @@ func RegisterSendPanicF(f func(string)) {
 
 func ReportScouterPanic() {
 	if r := recover(); r != nil {
+		defer reportFinal()
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
-		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		if fSendPanic != nil {
+			fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
+		}
+	}
+}
+
+//reportFinal keeps a panic of the report itself from the host.
+func reportFinal() {
+	if r := recover(); r != nil {
+		fmt.Printf("[scouter][panic][FATAL]%+v\n", r)
 	}
 }
 
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index f123187..8b98656 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -45,7 +45,7 @@ func reportScouterPanicFinal() {
 }
 
 func SendPanic(message string) {
-	reportScouterPanicFinal()
+	defer reportScouterPanicFinal()
 	SendAlert(netdata.AlertFatal, "Panic", message)
 }
 
-- 
2.43.0


From 181132fb8ddac272491918515d7b53381480d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 39/47] fix: the host crashed when the agent's counter task had
 recovered from a panic

---
 scouterx/task/countertask/countertask.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/task/countertask/countertask.go b/scouterx/task/countertask/countertask.go
index 02a4ff8..7fa2699 100644
--- a/scouterx/task/countertask/countertask.go
+++ b/scouterx/task/countertask/countertask.go
@@ -22,8 +22,9 @@ func Start() {
 func startRealTimeCounter() {
 	for {
 		time.Sleep(2000 * time.Millisecond)
-		pack := getAllCounterOnPack()
-		netio.SendPackDirect(pack)
+		if pack := getAllCounterOnPack(); pack != nil {
+			netio.SendPackDirect(pack)
+		}
 	}
 }
 
-- 
2.43.0


From ee1f9d01e2efa9b55de637f603fd414ae8227c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 40/47] fix: the host got no context back when a service could
 not be started

---
 scouterx/strace/tracemain.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 0054b58..d983a3c 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -155,7 +155,8 @@ func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Co
 	if ctx == nil {
 		return context.Background()
 	}
-	if tctxmanager.GetTraceContext(ctx) != nil {
+	newCtx = ctx //what the host gets if the agent panics
+	if req == nil || req.URL == nil || tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
 
@@ -213,6 +214,7 @@ func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx con
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx //what the host gets if the agent panics
 	if tctxmanager.GetTraceContext(ctx) != nil {
 		return ctx
 	}
@@ -233,6 +235,10 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	newCtx = ctx //what the host gets if the agent panics
+	if parentTctx == nil {
+		return ctx, nil
+	}
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
-- 
2.43.0


From 2ac82f9bccc9b4de360975ae6ff16313f8b2c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:05 +0000
Subject: [PATCH 41/47] fix: the function given to GoWithTrace did not run when
 the agent panicked

---
 scouterx/strace/tracemain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index d983a3c..35b542e 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -293,7 +293,6 @@ func inheritTctx(newTctx *netio.TraceContext, parentTctx *netio.TraceContext) *n
 //	myFunc(cascadeGoCtx)
 //})
 func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(cascadeGoCtx context.Context)) {
-	defer common.ReportScouterPanic()
 	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)
 	go func() {
 		if childTctx != nil {
@@ -306,6 +305,8 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 }
 
 func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Goroutine context.Context, childTctx *netio.TraceContext) {
+	defer common.ReportScouterPanic()
+	ctx4Goroutine = ctx //the function runs in it if the agent panics
 	if ctx == nil {
 		return ctx, nil
 	}
-- 
2.43.0


From 17c56ee946321b06a4069c1bee33afaf3ddcf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 42/47] fix: overlapping profiles ended each other and left the
 mutex profile on

---
 scouterx/dump/dump.go | 48 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 42993a9..28b2aca 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -15,11 +15,51 @@ import (
 	"runtime"
 	"runtime/pprof"
 	"strings"
+	"sync"
 	"time"
 )
 
 const suffix = "pprof"
 
+//profiles that are being taken: their numbers, and the mutex profile fraction before the first of them
+var profileLock sync.Mutex
+var blockProfiles, mutexProfiles, mutexFraction int
+
+func startBlockProfile(rate int) {
+	profileLock.Lock()
+	defer profileLock.Unlock()
+	blockProfiles++
+	runtime.SetBlockProfileRate(rate)
+}
+
+func stopBlockProfile() {
+	profileLock.Lock()
+	defer profileLock.Unlock()
+	blockProfiles--
+	if blockProfiles == 0 {
+		runtime.SetBlockProfileRate(-1)
+	}
+}
+
+func startMutexProfile(rate int) {
+	profileLock.Lock()
+	defer profileLock.Unlock()
+	old := runtime.SetMutexProfileFraction(rate)
+	if mutexProfiles == 0 {
+		mutexFraction = old
+	}
+	mutexProfiles++
+}
+
+func stopMutexProfile() {
+	profileLock.Lock()
+	defer profileLock.Unlock()
+	mutexProfiles--
+	if mutexProfiles == 0 {
+		runtime.SetMutexProfileFraction(mutexFraction)
+	}
+}
+
 //isFileName tells whether the name is that of a file in a folder, and does not lead elsewhere.
 func isFileName(name string) bool {
 	return name == filepath.Base(name) && name != "." && name != ".." && name != string(filepath.Separator)
@@ -128,8 +168,8 @@ func ProfileBlockBinaryDump(sec, rate int) netdata.Pack {
 }
 
 func profileBlock(fileName string, sec, rate, level int) {
-	runtime.SetBlockProfileRate(rate)
-	defer runtime.SetBlockProfileRate(-1)
+	startBlockProfile(rate)
+	defer stopBlockProfile()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
@@ -169,8 +209,8 @@ func ProfileMutexBinaryDump(sec, rate int) {
 
 
 func profileMutex(fileName string, sec, rate, level int) {
-	old := runtime.SetMutexProfileFraction(rate)
-	defer runtime.SetMutexProfileFraction(old)
+	startMutexProfile(rate)
+	defer stopMutexProfile()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
-- 
2.43.0


From 711c3b48c2c8fe3dfecb3a2eb8ea01b558bbf335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 43/47] fix: a request to save the configuration without a text
 emptied the file

---
 scouterx/netio/tcpclient/handlers.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scouterx/netio/tcpclient/handlers.go b/scouterx/netio/tcpclient/handlers.go
index 97c197e..db28635 100644
--- a/scouterx/netio/tcpclient/handlers.go
+++ b/scouterx/netio/tcpclient/handlers.go
@@ -303,9 +303,8 @@ func saveConfig(pack netdata.Pack) *netdata.MapPack {
 	result.Put("result", false)
 
 	if p, ok := pack.(*netdata.MapPack); ok {
-		text := p.GetString("setConfig")
-		success := conf.SaveConfigText(text)
-		if success {
+		text, ok := p.Table["setConfig"].(*netdata.TextValue)
+		if ok && conf.SaveConfigText(text.Value) {
 			conf.GetInstance().Refresh()
 			result.Put("result", "true")
 		}
-- 
2.43.0


From a6c48a353692199a51de96d2c07ddfec0c90d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 44/47] fix: goroutines that share a service's context lost
 counts of its api calls and its first error

---
 scouterx/strace/tracemain.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 35b542e..f75220d 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -16,6 +16,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -60,8 +61,8 @@ func MarkAsError(ctx context.Context, errorMessage string) {
 	if tctx == nil {
 		return
 	}
-	if tctx.Error == 0 {
-		tctx.Error = netio.SendError(errorMessage)
+	if atomic.LoadInt32(&tctx.Error) == 0 {
+		atomic.CompareAndSwapInt32(&tctx.Error, 0, netio.SendError(errorMessage))
 	}
 	AddPMessageStep(ctx, netdata.PMSG_ERROR, errorMessage, 0)
 }
@@ -75,7 +76,7 @@ func MarkAsErrorForcibly(ctx context.Context, errorMessage string) {
 	if tctx == nil {
 		return
 	}
-	tctx.Error = netio.SendError(errorMessage)
+	atomic.StoreInt32(&tctx.Error, netio.SendError(errorMessage))
 }
 
 func SetServiceNameForcibly(ctx context.Context, serviceName string) {
@@ -605,13 +606,11 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 		return
 	}
 	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
-	tctx.ApicallCount++
-	tctx.ApicallTime += step.Elapsed
+	atomic.AddInt32(&tctx.ApicallCount, 1)
+	atomic.AddInt32(&tctx.ApicallTime, step.Elapsed)
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
-		if tctx.Error == 0 {
-			tctx.Error = step.Error
-		}
+		atomic.CompareAndSwapInt32(&tctx.Error, 0, step.Error)
 	}
 	tctx.Profile.Pop(step)
 }
-- 
2.43.0


From e4a73df1e62befca3215b0cfffc27d7fdda92274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:15 +0000
Subject: [PATCH 45/47] fix: first profile pack of a service carried no service
 name when one step is kept in memory

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index f75220d..c01a516 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -351,11 +351,11 @@ func newService(ctx context.Context, serviceName, remoteAddr string) (context.Co
 
 	tctx.Gxid = tctx.Txid
 	tctx.Goid = common.Goid()
-	tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("goroutine:%d", tctx.Goid), 0))
 
 	tctx.ServiceName = serviceName
 	tctx.ServiceHash = netio.SendServiceName(serviceName)
 	tctx.RemoteIp = normalizeIp(remoteAddr)
+	tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("goroutine:%d", tctx.Goid), 0))
 	return newCtx, tctx
 }
 
-- 
2.43.0


From c8492ec6b8e71dbff3b112ee28bb640a843fd606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:04 +0000
Subject: [PATCH 46/47] fix: services of GoWithTrace were listed and reported
 with the goroutine of their parent

---
 scouterx/strace/tracemain.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index c01a516..ba299cc 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -297,8 +297,7 @@ func GoWithTrace(ctx context.Context, serviceName string, func4Goroutine func(ca
 	newCtx, childTctx := startChildGoroutineService(ctx, serviceName)
 	go func() {
 		if childTctx != nil {
-			childTctx.StartTime = time.Now()
-			tctxmanager.Start(childTctx)
+			beginChildGoroutineService(childTctx)
 		}
 		defer endChildGoroutineService(newCtx)
 		func4Goroutine(newCtx)
@@ -334,6 +333,13 @@ func startChildGoroutineService(ctx context.Context, serviceName string) (ctx4Go
 	return ctx4Goroutine, childTctx
 }
 
+//beginChildGoroutineService runs in the goroutine of the service.
+func beginChildGoroutineService(childTctx *netio.TraceContext) {
+	defer common.ReportScouterPanic()
+	childTctx.StartTime = time.Now()
+	beginService(childTctx)
+}
+
 func endChildGoroutineService(ctx context.Context) {
 	defer common.ReportScouterPanic()
 	endAnyService(ctx)
@@ -341,21 +347,26 @@ func endChildGoroutineService(ctx context.Context) {
 
 func startService(ctx context.Context, serviceName, remoteAddr string) (context.Context, *netio.TraceContext) {
 	newCtx, tctx := newService(ctx, serviceName, remoteAddr)
-	tctxmanager.Start(tctx)
+	beginService(tctx)
 	return newCtx, tctx
 }
 
+//beginService lists the service as active, in the goroutine it runs in.
+func beginService(tctx *netio.TraceContext) {
+	tctx.Goid = common.Goid()
+	tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("goroutine:%d", tctx.Goid), 0))
+	tctxmanager.Start(tctx)
+}
+
 //newService makes a service that is not listed as active yet. What others read of it is set here.
 func newService(ctx context.Context, serviceName, remoteAddr string) (context.Context, *netio.TraceContext) {
 	newCtx, tctx := tctxmanager.NewTraceContext(ctx)
 
 	tctx.Gxid = tctx.Txid
-	tctx.Goid = common.Goid()
 
 	tctx.ServiceName = serviceName
 	tctx.ServiceHash = netio.SendServiceName(serviceName)
 	tctx.RemoteIp = normalizeIp(remoteAddr)
-	tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("goroutine:%d", tctx.Goid), 0))
 	return newCtx, tctx
 }
 
-- 
2.43.0


From a4eff6ed9ff483284a8b687d2245905810858f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:44 +0000
Subject: [PATCH 47/47] fix: a deeply nested value from the collector
 overflowed the stack and ended the process

---
 scouterx/common/netdata/datainputx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 8995dbd..c910392 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -8,10 +8,14 @@ import (
 	"strconv"
 )
 
+// maxValueDepth is how deep lists and maps may be nested in each other. Reading is recursive.
+const maxValueDepth = 1000
+
 // DataInputX is a byte buffer read stream struct
 type DataInputX struct {
 	offset int32
 	reader io.Reader
+	depth  int
 }
 
 // NewDataInputX returns DataInputX instace
@@ -162,7 +166,12 @@ func (in *DataInputX) ReadValue() (Value, error) {
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
 	}
+	if in.depth >= maxValueDepth {
+		return NewNilValue(), errors.New("[scouter] Values are nested too deeply")
+	}
+	in.depth++
 	readValue, err := value.Read(in)
+	in.depth--
 	return readValue, err
 
 }
-- 
2.43.0

