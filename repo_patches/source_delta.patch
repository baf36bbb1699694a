From 60ac5e8a96901327c56f20e0a0171625f7138d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 01/17] fix: report truncated SPOP key/value and message data
 instead of panicking

---
 pkg/encoding/kvscanner.go      | 47 ++++++++++++++++++++++++++--------
 pkg/encoding/messagescanner.go |  8 +++++-
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 5a5b5ab..8e6f0ec 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -183,8 +183,18 @@ func (k *KVEntry) Reset() {
 	k.intVal = 0
 }
 
+// take consumes the next n bytes of the buffer.
+func (k *KVScanner) take(n uint64) ([]byte, error) {
+	if n > uint64(len(k.buf)) {
+		return nil, ErrUnterminatedSequence
+	}
+	b := k.buf[:n]
+	k.buf = k.buf[n:]
+	return b, nil
+}
+
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if len(k.buf) == 0 {
+	if k.lastErr != nil || len(k.buf) == 0 {
 		return false
 	}
 
@@ -201,8 +211,15 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 	}
 	k.buf = k.buf[n:]
 
-	e.name = k.buf[:nameLen]
-	k.buf = k.buf[nameLen:]
+	if e.name, err = k.take(nameLen); err != nil {
+		k.lastErr = err
+		return false
+	}
+
+	if len(k.buf) == 0 {
+		k.lastErr = ErrUnterminatedSequence
+		return false
+	}
 
 	e.dataType = DataType(k.buf[0] & dataTypeMask)
 	// just always decode the boolVar even tho its wrong.
@@ -225,12 +242,16 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		k.buf = k.buf[n:]
 
 	case DataTypeIPV4:
-		e.byteVal = k.buf[:net.IPv4len]
-		k.buf = k.buf[net.IPv4len:]
+		if e.byteVal, err = k.take(net.IPv4len); err != nil {
+			k.lastErr = err
+			return false
+		}
 
 	case DataTypeIPV6:
-		e.byteVal = k.buf[:net.IPv6len]
-		k.buf = k.buf[net.IPv6len:]
+		if e.byteVal, err = k.take(net.IPv6len); err != nil {
+			k.lastErr = err
+			return false
+		}
 
 	case DataTypeString:
 		nameLen, n, err := Varint(k.buf)
@@ -240,8 +261,10 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
-		e.byteVal = k.buf[:nameLen]
-		k.buf = k.buf[nameLen:]
+		if e.byteVal, err = k.take(nameLen); err != nil {
+			k.lastErr = err
+			return false
+		}
 
 	case DataTypeBinary:
 		valLen, n, err := Varint(k.buf)
@@ -251,8 +274,10 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		}
 		k.buf = k.buf[n:]
 
-		e.byteVal = k.buf[:valLen]
-		k.buf = k.buf[valLen:]
+		if e.byteVal, err = k.take(valLen); err != nil {
+			k.lastErr = err
+			return false
+		}
 
 	default:
 		k.lastErr = fmt.Errorf("unknown data type: %x", e.dataType)
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index 3e1cc7a..c0dad61 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -74,7 +74,7 @@ func (s *MessageScanner) Next(m *Message) bool {
 		m.KV = nil
 	}
 
-	if len(s.buf) == 0 {
+	if s.lastErr != nil || len(s.buf) == 0 {
 		return false
 	}
 
@@ -85,6 +85,12 @@ func (s *MessageScanner) Next(m *Message) bool {
 	}
 	s.buf = s.buf[n:]
 
+	// the name is followed by the number of arguments
+	if nameLen >= uint64(len(s.buf)) {
+		s.lastErr = ErrUnterminatedSequence
+		return false
+	}
+
 	m.name = s.buf[:nameLen]
 	s.buf = s.buf[nameLen:]
 
-- 
2.43.0


From 8ff1372d5ba6d08460033d2a4f43333a9a35c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 02/17] fix: bound the entries of a SPOP message by its
 argument count

---
 pkg/encoding/kvscanner.go      | 11 +++++------
 pkg/encoding/messagescanner.go |  5 ++++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/encoding/kvscanner.go b/pkg/encoding/kvscanner.go
index 8e6f0ec..8b8526d 100644
--- a/pkg/encoding/kvscanner.go
+++ b/pkg/encoding/kvscanner.go
@@ -194,7 +194,8 @@ func (k *KVScanner) take(n uint64) ([]byte, error) {
 }
 
 func (k *KVScanner) Next(e *KVEntry) bool {
-	if k.lastErr != nil || len(k.buf) == 0 {
+	// a negative count means that the entries extend to the end of the buffer
+	if k.lastErr != nil || k.left == 0 || k.left < 0 && len(k.buf) == 0 {
 		return false
 	}
 
@@ -202,7 +203,9 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 		panic("KVEntry cant be nil")
 	}
 	e.Reset()
-	k.left--
+	if k.left > 0 {
+		k.left--
+	}
 
 	nameLen, n, err := Varint(k.buf)
 	if err != nil {
@@ -288,10 +291,6 @@ func (k *KVScanner) Next(e *KVEntry) bool {
 }
 
 func (k *KVScanner) Discard() error {
-	if k.RemainingBuf() == 0 {
-		return nil
-	}
-
 	e := AcquireKVEntry()
 	defer ReleaseKVEntry(e)
 	for k.Next(e) {
diff --git a/pkg/encoding/messagescanner.go b/pkg/encoding/messagescanner.go
index c0dad61..cb390ba 100644
--- a/pkg/encoding/messagescanner.go
+++ b/pkg/encoding/messagescanner.go
@@ -68,7 +68,10 @@ func (s *MessageScanner) Error() error {
 func (s *MessageScanner) Next(m *Message) bool {
 	if m.KV != nil {
 		// if the scanner is still existing from a previous read
-		// forward the current slice to the correct position
+		// skip its unread entries and forward the current slice to the correct position
+		if err := m.KV.Discard(); err != nil && s.lastErr == nil {
+			s.lastErr = err
+		}
 		s.buf = s.buf[len(s.buf)-m.KV.RemainingBuf():]
 		ReleaseKVScanner(m.KV)
 		m.KV = nil
-- 
2.43.0


From 72fbeb27ad2e228aa414d3652482369e3633ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 03/17] fix: leave the encoder output unchanged when a write
 fails

---
 pkg/encoding/actionwriter.go |  4 +++
 pkg/encoding/kvwriter.go     | 66 ++++++++++++++++--------------------
 2 files changed, 34 insertions(+), 36 deletions(-)

diff --git a/pkg/encoding/actionwriter.go b/pkg/encoding/actionwriter.go
index 168b269..55ea63c 100644
--- a/pkg/encoding/actionwriter.go
+++ b/pkg/encoding/actionwriter.go
@@ -220,6 +220,10 @@ func (aw *ActionWriter) SetUInt64(s varScope, name string, v uint64) error {
 }
 
 func (aw *ActionWriter) SetAddr(s varScope, name string, v netip.Addr) error {
+	if !v.IsValid() {
+		return fmt.Errorf("invalid address")
+	}
+
 	if err := aw.actionHeader(ActionTypeSetVar, s, []byte(name)); err != nil {
 		return err
 	}
diff --git a/pkg/encoding/kvwriter.go b/pkg/encoding/kvwriter.go
index 4465d8b..c3ac0c2 100644
--- a/pkg/encoding/kvwriter.go
+++ b/pkg/encoding/kvwriter.go
@@ -45,26 +45,32 @@ func (aw *KVWriter) Bytes() []byte {
 	return aw.data[:aw.off]
 }
 
-func (aw *KVWriter) writeKey(name []byte) error {
+// writeKey writes the name followed by the type byte.
+func (aw *KVWriter) writeKey(name []byte, typ byte) error {
 	n, err := PutBytes(aw.data[aw.off:], name)
 	if err != nil {
 		return err
 	}
 
+	if aw.off+n >= len(aw.data) {
+		return ErrInsufficientSpace
+	}
+
 	aw.off += n
+	aw.data[aw.off] = typ
+	aw.off++
 	return nil
 }
 
 func (aw *KVWriter) SetString(name string, v string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(DataTypeString)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeString)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], []byte(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -73,15 +79,14 @@ func (aw *KVWriter) SetString(name string, v string) error {
 }
 
 func (aw *KVWriter) SetBinary(name string, v []byte) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(DataTypeBinary)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(DataTypeBinary)
-	aw.off++
-
 	n, err := PutBytes(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -90,27 +95,15 @@ func (aw *KVWriter) SetBinary(name string, v []byte) error {
 }
 
 func (aw *KVWriter) SetNull(name string) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeNull)
-	aw.off++
-
-	return nil
+	return aw.writeKey([]byte(name), byte(DataTypeNull))
 }
 func (aw *KVWriter) SetBool(name string, v bool) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
-	aw.data[aw.off] = byte(DataTypeBool)
+	typ := byte(DataTypeBool)
 	if v {
-		aw.data[aw.off] |= dataFlagTrue
+		typ |= dataFlagTrue
 	}
-	aw.off++
 
-	return nil
+	return aw.writeKey([]byte(name), typ)
 }
 
 func (aw *KVWriter) SetUInt32(name string, v uint32) error {
@@ -122,15 +115,14 @@ func (aw *KVWriter) SetInt32(name string, v int32) error {
 }
 
 func (aw *KVWriter) setInt(name string, d DataType, v int64) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(d)); err != nil {
 		return err
 	}
 
-	aw.data[aw.off] = byte(d)
-	aw.off++
-
 	n, err := PutVarint(aw.data[aw.off:], uint64(v))
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
@@ -146,22 +138,24 @@ func (aw *KVWriter) SetUInt64(name string, v uint64) error {
 }
 
 func (aw *KVWriter) SetAddr(name string, v netip.Addr) error {
-	if err := aw.writeKey([]byte(name)); err != nil {
-		return err
-	}
-
+	var d DataType
 	switch {
 	case v.Is6():
-		aw.data[aw.off] = byte(DataTypeIPV6)
+		d = DataTypeIPV6
 	case v.Is4():
-		aw.data[aw.off] = byte(DataTypeIPV4)
+		d = DataTypeIPV4
 	default:
 		return fmt.Errorf("invalid address")
 	}
-	aw.off++
+
+	start := aw.off
+	if err := aw.writeKey([]byte(name), byte(d)); err != nil {
+		return err
+	}
 
 	n, err := PutAddr(aw.data[aw.off:], v)
 	if err != nil {
+		aw.off = start
 		return err
 	}
 	aw.off += n
-- 
2.43.0


From 72aed64cde5d13df1e965ca82845c3357e9b082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 04/17] fix: report truncated stick-table messages instead of
 panicking

A peer could crash the process with a definition or entry update that was
cut off, announced a huge length or named an unknown key type.
---
 peers/sticktable/constants.go   |  3 ++-
 peers/sticktable/sticktables.go | 16 +++++++++++++---
 peers/sticktable/values.go      | 23 +++++++++++++++++++++++
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index d41c3ac..2a7d5c8 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -20,6 +20,7 @@ const (
 	KeyTypeMethod
 )
 
+// New returns a new key of this type, or nil if the type is unknown.
 func (t KeyType) New() MapKey {
 	switch t {
 	case KeyTypeSignedInteger:
@@ -33,7 +34,7 @@ func (t KeyType) New() MapKey {
 	case KeyTypeBinary:
 		return new(BinaryKey)
 	default:
-		panic("unknown key type: " + t.String())
+		return nil
 	}
 }
 
diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 134d0b1..4463fa4 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -38,9 +38,11 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
-	name := make([]byte, nameLength)
-	offset += copy(name, b[offset:])
-	s.Name = string(name)
+	if nameLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	s.Name = string(b[offset : offset+int(nameLength)])
+	offset += int(nameLength)
 
 	keyType, n, err := encoding.Varint(b[offset:])
 	offset += n
@@ -69,6 +71,7 @@ func (s *Definition) Unmarshal(b []byte) (int, error) {
 	}
 	s.Expiry = expiry
 
+	s.DataTypes = nil
 	// The data types are values from 0 to 64. Currently only 24 are implemented,
 	// but we iterate over all possible values to capture potentially missing ones.
 	for i := 0; i < 64; i++ {
@@ -224,11 +227,17 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	// We already have a correct update ID loaded from the caller,
 	// so we just override it when the message has its own
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.LocalUpdateID = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrUnterminatedSequence
+		}
 		e.Expiry = binary.BigEndian.Uint32(b[offset:])
 		offset += 4
 	}
@@ -244,6 +253,7 @@ func (e *EntryUpdate) Unmarshal(b []byte) (int, error) {
 	}
 	offset += n
 
+	e.Data = nil
 	for _, dataType := range e.StickTable.DataTypes {
 		data := dataType.DataType.New()
 		if data == nil {
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 97fdc92..a67eecc 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -17,6 +17,10 @@ type MapKey interface {
 type SignedIntegerKey int32
 
 func (v *SignedIntegerKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = SignedIntegerKey(binary.BigEndian.Uint32(b))
 	return 4, nil
 }
@@ -32,6 +36,10 @@ func (v *IPv4AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
 
+	if len(b) < 4 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv4AddressKey(netip.AddrFrom4([4]byte(b)))
 	return 4, nil
 }
@@ -47,6 +55,10 @@ func (v *IPv6AddressKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
 
+	if len(b) < 16 {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))
 
 	return 16, nil
@@ -66,6 +78,9 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if valueLength == 0 {
 		return n, nil
 	}
+	if valueLength > uint64(len(b)-n) {
+		return n, encoding.ErrUnterminatedSequence
+	}
 	*v = StringKey(b[n : n+int(valueLength)])
 	return n + int(valueLength), nil
 }
@@ -77,6 +92,10 @@ func (v *StringKey) String() string {
 type BinaryKey []byte
 
 func (v *BinaryKey) Unmarshal(b []byte, keySize uint64) (int, error) {
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrUnterminatedSequence
+	}
+
 	*v = b[:keySize]
 	return int(keySize), nil
 }
@@ -225,6 +244,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	if valueLength > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+
 	value := make([]byte, valueLength)
 	offset += copy(value, b[offset:])
 	f.Value = value
-- 
2.43.0


From 665561c1c466a0f0f83e36bc55c369afb77a2ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:46 +0000
Subject: [PATCH 05/17] fix: do not reserve memory for peer message data before
 it arrives

The announced length of a message was allocated unchecked, so a few bytes
from a peer could crash the process.
---
 peers/protocol.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index f51b2b7..8d5d6dc 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -186,8 +186,8 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 
 	m.MessageClass = MessageClass(header[0])
 	m.MessageType = header[1]
+	m.Data = nil
 
-	var readData int
 	// All messages with type >= 128 have a payload
 	if m.MessageType >= 128 {
 		dataLength, err := encoding.ReadVarint(r)
@@ -195,17 +195,40 @@ func (m *rawMessage) ReadFrom(r byteReader) (int64, error) {
 			return int64(n), fmt.Errorf("failed decoding data length: %v", err)
 		}
 
-		m.Data = make([]byte, dataLength)
-		readData, err = io.ReadFull(r, m.Data)
+		m.Data, err = readData(r, dataLength)
 		if err != nil {
-			return int64(n + readData), fmt.Errorf("failed reading message data: %v", err)
+			return int64(n + len(m.Data)), fmt.Errorf("failed reading message data: %v", err)
 		}
-		if uint64(readData) != dataLength {
-			return int64(n + readData), fmt.Errorf("invalid amount read: %d != %d", dataLength, readData)
+	}
+
+	return int64(n + len(m.Data)), nil
+}
+
+// readData reads exactly n bytes. The length is announced by the remote peer,
+// so memory is only reserved as far as the data has arrived.
+func readData(r io.Reader, n uint64) ([]byte, error) {
+	const chunk = 64 * 1024
+
+	var data []byte
+	for n > 0 {
+		start := len(data)
+		size := start
+		if size < chunk {
+			size = chunk
+		}
+		if uint64(size) > n {
+			size = int(n)
+		}
+
+		data = append(data, make([]byte, size)...)
+		read, err := io.ReadFull(r, data[start:])
+		if err != nil {
+			return data[:start+read], err
 		}
+		n -= uint64(size)
 	}
 
-	return int64(n + readData), nil
+	return data, nil
 }
 
 func (t ErrorMessageType) OnMessage(m *rawMessage, c *protocolClient) error {
-- 
2.43.0


From 810cb46381ddbd92ee508d63cd0d368638a60212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 06/17] fix: fail instead of truncating stick-table messages
 that do not fit

Names, keys and dictionary values were silently cut off (or the encoder
panicked) if the destination was too small, and binary keys shorter than
the key size of the table shifted the data behind them.
---
 peers/sticktable/sticktables.go |  9 ++++++++
 peers/sticktable/values.go      | 37 +++++++++++++++++++++++++++++++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/peers/sticktable/sticktables.go b/peers/sticktable/sticktables.go
index 4463fa4..9a4b27a 100644
--- a/peers/sticktable/sticktables.go
+++ b/peers/sticktable/sticktables.go
@@ -122,6 +122,9 @@ func (s *Definition) Marshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	if len(s.Name) > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
+	}
 	offset += copy(b[offset:], s.Name)
 
 	n, err = encoding.PutVarint(b[offset:], uint64(s.KeyType))
@@ -196,11 +199,17 @@ func (e *EntryUpdate) String() string {
 func (e *EntryUpdate) Marshal(b []byte) (int, error) {
 	var offset int
 	if e.WithLocalUpdateID {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.LocalUpdateID)
 		offset += 4
 	}
 
 	if e.WithExpiry {
+		if len(b)-offset < 4 {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		binary.BigEndian.PutUint32(b[offset:], e.Expiry)
 		offset += 4
 	}
diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index a67eecc..b468468 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -256,6 +256,10 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 }
 
 func (v *SignedIntegerKey) Marshal(b []byte, keySize uint64) (int, error) {
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
 	binary.BigEndian.PutUint32(b, uint32(*v))
 	return 4, nil
 }
@@ -264,7 +268,14 @@ func (v *IPv4AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 4 {
 		return 0, fmt.Errorf("invalid ipv4 key size: %d", keySize)
 	}
-	a := (*netip.Addr)(v).As4()
+	addr := (*netip.Addr)(v)
+	if !addr.Is4() && !addr.Is4In6() {
+		return 0, fmt.Errorf("not an ipv4 address: %s", addr)
+	}
+	if len(b) < 4 {
+		return 0, encoding.ErrInsufficientSpace
+	}
+	a := addr.As4()
 	copy(b, a[:])
 	return 4, nil
 }
@@ -273,6 +284,9 @@ func (v *IPv6AddressKey) Marshal(b []byte, keySize uint64) (int, error) {
 	if keySize != 16 {
 		return 0, fmt.Errorf("invalid ipv6 key size: %d", keySize)
 	}
+	if len(b) < 16 {
+		return 0, encoding.ErrInsufficientSpace
+	}
 	a := (*netip.Addr)(v).As16()
 	copy(b, a[:])
 	return 16, nil
@@ -284,11 +298,27 @@ func (v *StringKey) Marshal(b []byte, keySize uint64) (int, error) {
 		return n, err
 	}
 
+	if len(*v) > len(b)-n {
+		return n, encoding.ErrInsufficientSpace
+	}
+
 	return n + copy(b[n:], *v), nil
 }
 
 func (v *BinaryKey) Marshal(b []byte, keySize uint64) (int, error) {
-	return copy(b[:keySize], *v), nil
+	if uint64(len(*v)) > keySize {
+		return 0, fmt.Errorf("binary key too long: %d > %d", len(*v), keySize)
+	}
+	if keySize > uint64(len(b)) {
+		return 0, encoding.ErrInsufficientSpace
+	}
+
+	// The key always has its full size on the wire.
+	n := copy(b[:keySize], *v)
+	for i := n; i < int(keySize); i++ {
+		b[i] = 0
+	}
+	return int(keySize), nil
 }
 
 func (f *FreqData) Marshal(b []byte) (int, error) {
@@ -349,6 +379,9 @@ func (f *DictData) Marshal(b []byte) (int, error) {
 			return offset, err
 		}
 
+		if len(f.Value) > len(b)-offset {
+			return offset, encoding.ErrInsufficientSpace
+		}
 		copy(b[offset:], f.Value)
 		offset += len(f.Value)
 	}
-- 
2.43.0


From 192a6591c1fa789b3fe6ab19daeb95ef283164de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 07/17] fix: encode dictionary data the way haproxy does

The leading length covers the entry id and the value. It was written as the
value length, so entries without a value or with a value of one byte did
not survive a round trip and shifted the data behind them.
---
 peers/sticktable/values.go | 55 +++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index b468468..7675b3e 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -223,6 +223,12 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, nil
 	}
 
+	// The length covers everything that follows.
+	if length > uint64(len(b)-offset) {
+		return offset, encoding.ErrUnterminatedSequence
+	}
+	b = b[:offset+int(length)]
+
 	id, n, err := encoding.Varint(b[offset:])
 	offset += n
 	if err != nil {
@@ -230,7 +236,8 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 	}
 	f.ID = id
 
-	if length == 1 {
+	// A known entry is sent as its ID only.
+	if offset == len(b) {
 		return offset, nil
 	}
 
@@ -240,12 +247,8 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
-	if valueLength == 0 {
-		return offset, nil
-	}
-
-	if valueLength > uint64(len(b)-offset) {
-		return offset, encoding.ErrUnterminatedSequence
+	if valueLength != uint64(len(b)-offset) {
+		return offset, fmt.Errorf("invalid dictionary value length: %d", valueLength)
 	}
 
 	value := make([]byte, valueLength)
@@ -358,33 +361,37 @@ func (v *UnsignedLongLongData) Marshal(b []byte) (int, error) {
 }
 
 func (f *DictData) Marshal(b []byte) (int, error) {
-	var offset int
-
-	n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-	offset += n
-	if err != nil {
-		return offset, err
+	// No entry
+	if f.ID == 0 && len(f.Value) == 0 {
+		return encoding.PutVarint(b, 0)
 	}
 
-	n, err = encoding.PutVarint(b[offset:], uint64(f.ID))
-	offset += n
+	var head [20]byte
+	headLen, err := encoding.PutVarint(head[:], f.ID)
 	if err != nil {
-		return offset, err
+		return 0, err
 	}
 
+	// A known entry is sent as its ID only.
 	if len(f.Value) > 0 {
-		n, err := encoding.PutVarint(b[offset:], uint64(len(f.Value)))
-		offset += n
+		n, err := encoding.PutVarint(head[headLen:], uint64(len(f.Value)))
 		if err != nil {
-			return offset, err
+			return 0, err
 		}
+		headLen += n
+	}
 
-		if len(f.Value) > len(b)-offset {
-			return offset, encoding.ErrInsufficientSpace
-		}
-		copy(b[offset:], f.Value)
-		offset += len(f.Value)
+	// The length covers everything that follows.
+	offset, err := encoding.PutVarint(b, uint64(headLen+len(f.Value)))
+	if err != nil {
+		return offset, err
+	}
+
+	if headLen+len(f.Value) > len(b)-offset {
+		return offset, encoding.ErrInsufficientSpace
 	}
+	offset += copy(b[offset:], head[:headLen])
+	offset += copy(b[offset:], f.Value)
 
 	return offset, nil
 }
-- 
2.43.0


From 313622228c9bf705fe511aa59a924a262bbbc5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 08/17] fix: glitch_rate carries its period in table
 definitions

Like every other rate type; without it the fields behind it are misread.
---
 peers/sticktable/constants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peers/sticktable/constants.go b/peers/sticktable/constants.go
index 2a7d5c8..5b0bdaf 100644
--- a/peers/sticktable/constants.go
+++ b/peers/sticktable/constants.go
@@ -111,7 +111,8 @@ func (d DataType) IsDelay() bool {
 		DataTypeBytesInRate,
 		DataTypeBytesOutRate,
 		DataTypeGPC1Rate,
-		DataTypeHttpFailRate:
+		DataTypeHttpFailRate,
+		DataTypeGlitchRate:
 		return true
 	default:
 		return false
-- 
2.43.0


From 3f9104992e8311bdfb7d933a461fef55c035508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 09/17] fix: reject SPOP frames that are too short for their
 header

They were decoded from bytes that an earlier frame left in the pooled buffer.
---
 spop/frame.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/frame.go b/spop/frame.go
index 9868f62..dc0e6b3 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -126,6 +126,10 @@ func (f *frame) encodeHeader() error {
 func (f *frame) decodeHeader() error {
 	// We don't need to validate here,
 	// there is validation further down the chain
+	if f.buf.Len() < 1+uint32Len {
+		return fmt.Errorf("frame of %d bytes is too short for its header", f.buf.Len())
+	}
+
 	f.frameType = frameType(f.buf.ReadNBytes(1)[0])
 
 	f.meta.Flags = frameFlag(binary.BigEndian.Uint32(f.buf.ReadNBytes(uint32Len)))
-- 
2.43.0


From 79cc7c38951868eea407e5696a61deb0f3bc4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 10/17] fix: only treat a HELLO as a health check if its flag
 is set

A healthcheck item with the value false ended the session.
---
 spop/protocol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a742d68..a02118f 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -145,7 +145,9 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 		case k.NameEquals(helloKeyHealthcheck):
 			// as described in the protocol, close connection after hello
 			// AGENT-HELLO + close()
-			defer c.ctxCancel(nil)
+			if k.ValueBool() {
+				defer c.ctxCancel(nil)
+			}
 		}
 	}
 
-- 
2.43.0


From d88986a753313ce1b3b596f9000ddfbdbe40e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 11/17] fix: check the offered max-frame-size before truncating
 it

Offers above 32 bits were accepted as whatever was left of them.
---
 spop/protocol.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spop/protocol.go b/spop/protocol.go
index a02118f..b2eee16 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -128,13 +128,14 @@ func (c *protocolClient) onHAProxyHello(f *frame) error {
 	for s.Next(k) {
 		switch {
 		case k.NameEquals(helloKeyMaxFrameSize):
-			c.maxFrameSize = uint32(k.ValueInt())
-			if c.maxFrameSize < 256 {
-				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", c.maxFrameSize)
+			size := k.ValueInt()
+			if size < 256 {
+				return fmt.Errorf("maxFrameSize smaller than minimum allowed size: %d", size)
 			}
-			if c.maxFrameSize > maxHAProxyFrameSize {
-				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", c.maxFrameSize)
+			if size > maxHAProxyFrameSize {
+				return fmt.Errorf("maxFrameSize exceeds HAProxy maximum: %d", size)
 			}
+			c.maxFrameSize = uint32(size)
 
 		case k.NameEquals(helloKeyEngineID):
 			// Engine ID allocation is necessary since we need to store it beyond the lifetime
-- 
2.43.0


From c64e346eae2dbcd7ad25fdbfd77d9b9f137cebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 12/17] fix: write the frames of concurrent SPOP handlers one
 after another

Every frame is written in several parts, which interleaved when handlers of
the same connection completed concurrently, and a frame that was cut off by a
failed write was followed by others.
---
 spop/frame.go    | 31 ++++++++++++++++++++++++++++++-
 spop/protocol.go |  2 +-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/spop/frame.go b/spop/frame.go
index dc0e6b3..ada28f4 100644
--- a/spop/frame.go
+++ b/spop/frame.go
@@ -34,6 +34,28 @@ func releaseFrame(f *frame) {
 	framePool.Put(f)
 }
 
+// frameConn keeps the frames of concurrent writers apart. Once a write has
+// failed a frame may be incomplete, so no other frame is written behind it.
+type frameConn struct {
+	io.ReadWriter
+	mu  sync.Mutex
+	err error
+}
+
+func (c *frameConn) beginFrame() error {
+	c.mu.Lock()
+	if err := c.err; err != nil {
+		c.mu.Unlock()
+		return err
+	}
+	return nil
+}
+
+func (c *frameConn) endFrame(err error) {
+	c.err = err
+	c.mu.Unlock()
+}
+
 type frameMetadata struct {
 	Flags    frameFlag
 	StreamID uint64
@@ -80,13 +102,20 @@ func (f *frame) WriteTo(w io.Writer) (int64, error) {
 	return f.writeTo(w, nil)
 }
 
-func (f *frame) writeTo(w io.Writer, payload []byte) (int64, error) {
+func (f *frame) writeTo(w io.Writer, payload []byte) (_ int64, err error) {
 	frameLen := uint64(f.buf.Len()) + uint64(len(payload))
 	if frameLen > uint64(^uint32(0)) {
 		return 0, fmt.Errorf("frame length %d exceeds protocol limit", frameLen)
 	}
 	binary.BigEndian.PutUint32(f.length, uint32(frameLen))
 
+	if c, ok := w.(*frameConn); ok {
+		if err := c.beginFrame(); err != nil {
+			return 0, err
+		}
+		defer func() { c.endFrame(err) }()
+	}
+
 	n, err := w.Write(f.length)
 	written := int64(n)
 	if err != nil {
diff --git a/spop/protocol.go b/spop/protocol.go
index b2eee16..d6cd317 100644
--- a/spop/protocol.go
+++ b/spop/protocol.go
@@ -12,7 +12,7 @@ import (
 
 func newProtocolClient(ctx context.Context, rw io.ReadWriter, as *asyncScheduler, handler Handler) *protocolClient {
 	var c protocolClient
-	c.rw = rw
+	c.rw = &frameConn{ReadWriter: rw}
 	c.handler = handler
 	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)
 	c.as = as
-- 
2.43.0


From 4763f1c4278fd6ef2b67fce9e1aa30c3be3c1903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 13/17] fix: read a peer handshake without the messages behind
 it

The scanner read ahead, and what it had read was lost. A handshake that was
cut off in its last line was accepted.
---
 peers/messages.go | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/peers/messages.go b/peers/messages.go
index 228e47e..3a9c2f5 100644
--- a/peers/messages.go
+++ b/peers/messages.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
 )
 
 // Handshake is composed by these fields:
@@ -41,26 +42,48 @@ func NewHandshake(remotePeer string) *Handshake {
 	}
 }
 
+// ReadFrom reads the three lines of a handshake and nothing behind them.
 func (h *Handshake) ReadFrom(r io.Reader) (n int64, err error) {
-	scanner := bufio.NewScanner(r)
+	var lines [3]string
+	for i := range lines {
+		var nl int
+		lines[i], nl, err = readLine(r)
+		n += int64(nl)
+		if err != nil {
+			return n, err
+		}
+	}
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %s", &h.ProtocolIdentifier, &h.Version)
+	_, err = fmt.Sscanf(lines[0], "%s %s", &h.ProtocolIdentifier, &h.Version)
 	if err != nil {
-		return -1, err
+		return n, err
 	}
 
-	scanner.Scan()
-	h.RemotePeer = scanner.Text()
+	h.RemotePeer = lines[1]
 
-	scanner.Scan()
-	_, err = fmt.Sscanf(scanner.Text(), "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
-	if err != nil {
-		return -1, err
+	_, err = fmt.Sscanf(lines[2], "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
+	return n, err
+}
+
+// readLine reads a line byte by byte, since what follows it belongs to the
+// next message.
+func readLine(r io.Reader) (string, int, error) {
+	var line []byte
+	b := make([]byte, 1)
+	for n := 0; n < bufio.MaxScanTokenSize; n++ {
+		if _, err := io.ReadFull(r, b); err != nil {
+			if err == io.EOF && n > 0 {
+				err = io.ErrUnexpectedEOF
+			}
+			return "", n, err
+		}
+		if b[0] == '\n' {
+			return strings.TrimSuffix(string(line), "\r"), n + 1, nil
+		}
+		line = append(line, b[0])
 	}
 
-	//TODO: find out how many bytes where read.
-	return -1, scanner.Err()
+	return "", len(line), bufio.ErrTooLong
 }
 
 func (h *Handshake) WriteTo(w io.Writer) (nw int64, err error) {
-- 
2.43.0


From c3baf429c75e83ee1d0c690ef6f93b1b32fb11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 14/17] fix: answer a peer handshake before the handler can
 send updates

Updates that a handler sent from HandleHandshake went out before the status.
---
 peers/protocol.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 8d5d6dc..1f550ee 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -67,12 +67,14 @@ func (c *protocolClient) peerHandshake() error {
 		return err
 	}
 
-	c.handler.HandleHandshake(c.ctx, &h)
-
+	// The handler may start to send updates as soon as it knows the session,
+	// and nothing may precede the status.
 	if _, err := c.lockedWrite([]byte(fmt.Sprintf("%d\n", HandshakeStatusHandshakeSucceeded))); err != nil {
 		return fmt.Errorf("handshake failed: %v", err)
 	}
 
+	c.handler.HandleHandshake(c.ctx, &h)
+
 	return nil
 }
 
-- 
2.43.0


From 63908e0c50f8fb49e0ae362e81a9fc04773f6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 15/17] fix: end peer sessions on inactivity, and end them once

The inactivity timer and failed heartbeats closed the handler but not the
connection, so the session went on; the handler was closed a second time or,
if the base context had ended, not at all; updates could reach it after it was
closed; and the timers outlived the session. Time spent in the handler counted
as silence of the peer.
---
 peers/protocol.go | 61 +++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/peers/protocol.go b/peers/protocol.go
index 1f550ee..872fc16 100644
--- a/peers/protocol.go
+++ b/peers/protocol.go
@@ -23,6 +23,7 @@ type protocolClient struct {
 	bw        *bufio.Writer
 	wmu       *sync.Mutex
 
+	closeOnce           sync.Once
 	nextHeartbeat       *time.Ticker
 	lastMessageTimer    *time.Timer
 	lastTableDefinition *sticktable.Definition
@@ -42,13 +43,23 @@ func newProtocolClient(ctx context.Context, rw io.ReadWriter, handler Handler, w
 	return &c
 }
 
-func (c *protocolClient) Close() error {
-	defer c.ctxCancel()
-	if c.ctx.Err() != nil {
-		return c.ctx.Err()
-	}
+// Close ends the session and closes its handler. It must not be called while
+// Serve is running, so that the handler is not used after it was closed.
+func (c *protocolClient) Close() (err error) {
+	c.abort()
+	c.closeOnce.Do(func() {
+		err = c.handler.Close()
+	})
+
+	return err
+}
 
-	return c.handler.Close()
+// abort ends the session, which makes Serve return.
+func (c *protocolClient) abort() {
+	c.ctxCancel()
+	if conn, ok := c.rw.(io.Closer); ok {
+		_ = conn.Close()
+	}
 }
 
 func (c *protocolClient) lockedWrite(data []byte) (int, error) {
@@ -98,43 +109,52 @@ func (c *protocolClient) resetLastMessage() {
 	// which closes the session and then tries to reconnect to the peer which
 	// has just disappeared.
 	if c.lastMessageTimer == nil {
-		c.lastMessageTimer = time.NewTimer(time.Second * 5)
+		c.lastMessageTimer = time.AfterFunc(time.Second*5, func() {
+			log.Println("last message timer expired: closing connection")
+			c.abort()
+		})
 		return
 	}
 
 	c.lastMessageTimer.Reset(time.Second * 5)
 }
 
-func (c *protocolClient) heartbeat() {
-	for range c.nextHeartbeat.C {
+func (c *protocolClient) heartbeat(done <-chan struct{}) {
+	for {
+		select {
+		case <-done:
+			return
+		case <-c.nextHeartbeat.C:
+		}
+
 		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
 		if err != nil {
-			_ = c.Close()
+			c.abort()
 			return
 		}
 	}
 }
 
-func (c *protocolClient) lastMessage() {
-	<-c.lastMessageTimer.C
-	log.Println("last message timer expired: closing connection")
-	_ = c.Close()
-}
-
 func (c *protocolClient) Serve() error {
 	if err := c.peerHandshake(); err != nil {
 		return fmt.Errorf("handshake: %v", err)
 	}
 
 	c.resetHeartbeat()
-	c.resetLastMessage()
-	go c.heartbeat()
-	go c.lastMessage()
+	defer c.nextHeartbeat.Stop()
+
+	done := make(chan struct{})
+	defer close(done)
+	go c.heartbeat(done)
 
 	for {
 		var m rawMessage
 
-		if _, err := m.ReadFrom(c.br); err != nil {
+		c.resetLastMessage()
+		_, err := m.ReadFrom(c.br)
+		// Messages wait for the handler, so its time doesn't count.
+		c.lastMessageTimer.Stop()
+		if err != nil {
 			if c.ctx.Err() != nil {
 				return c.ctx.Err()
 			}
@@ -146,7 +166,6 @@ func (c *protocolClient) Serve() error {
 			return fmt.Errorf("reading message: %v", err)
 		}
 
-		c.resetLastMessage()
 		if err := c.messageHandler(&m); err != nil {
 			return fmt.Errorf("message handler: %v", err)
 		}
-- 
2.43.0


From c4d3db5fdf033671af697ac86396a56cd677b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:02 +0000
Subject: [PATCH 16/17] fix: return an error for an optional field that cannot
 be set

KVScanner.Unmarshal panicked when a tagged, unexported pointer field had no
entry. It reports the field as not settable now, as it does if there is one.
---
 pkg/encoding/kvunmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/encoding/kvunmarshal.go b/pkg/encoding/kvunmarshal.go
index 3b289bc..febe1cd 100644
--- a/pkg/encoding/kvunmarshal.go
+++ b/pkg/encoding/kvunmarshal.go
@@ -126,6 +126,9 @@ func (k *KVScanner) Unmarshal(v any) error {
 	// Only iterate through known pointer fields instead of all fields
 	for _, idx := range pointerFieldIndices {
 		if !setPointerFields[idx] {
+			if !rv.Field(idx).CanSet() {
+				return fmt.Errorf("field %s is not settable", rt.Field(idx).Name)
+			}
 			rv.Field(idx).Set(reflect.Zero(rt.Field(idx).Type))
 		}
 	}
-- 
2.43.0


From 2b8a823fd83f132f7df9c8397e25772c00d3de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:35 +0000
Subject: [PATCH 17/17] fix: decoding a stick-table value keeps what the
 destination held before

---
 peers/sticktable/values.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peers/sticktable/values.go b/peers/sticktable/values.go
index 7675b3e..04881a8 100644
--- a/peers/sticktable/values.go
+++ b/peers/sticktable/values.go
@@ -75,9 +75,6 @@ func (v *StringKey) Unmarshal(b []byte, keySize uint64) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	if valueLength == 0 {
-		return n, nil
-	}
 	if valueLength > uint64(len(b)-n) {
 		return n, encoding.ErrUnterminatedSequence
 	}
@@ -218,6 +215,9 @@ func (f *DictData) Unmarshal(b []byte) (int, error) {
 		return offset, err
 	}
 
+	// Nothing of an earlier value is kept.
+	f.ID, f.Value = 0, nil
+
 	// No entries
 	if length == 0 {
 		return offset, nil
-- 
2.43.0

