From 6cbd73e820d31c5cd5d3bc25e640b699af462217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 01/33] fix: answer a quiet get with the opcode of the request

---
 server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/server.go b/server/server.go
index 0fa64ce..968245f 100644
--- a/server/server.go
+++ b/server/server.go
@@ -713,6 +713,9 @@ func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
+	if req.Opcode == OpcodeGet && req.GetOpt != nil && req.GetOpt.NoReply {
+		header[1] = byte(OpcodeGetKQ)
+	}
 	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
 	header[4] = uint8(len(r.Flags))
 	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
-- 
2.43.0


From 71f40c30538d35b2ecbcee05faf23a1ed5376b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 02/33] fix: do not write the line terminator into the spare
 capacity of the caller's value

---
 client/server.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6a41d3e..8f47b28 100644
--- a/client/server.go
+++ b/client/server.go
@@ -473,7 +473,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 			return err
 		}
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -876,7 +879,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if _, err := fmt.Fprintf(s.conn, "ms "+format+"\r\n", values...); err != nil {
 		return err
 	}
-	if _, err := s.conn.Write(append(item.Value, crlf...)); err != nil {
+	if _, err := s.conn.Write(item.Value); err != nil {
+		return err
+	}
+	if _, err := s.conn.Write(crlf); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
-- 
2.43.0


From 3e2d53001b886e660e2e2848d134cfc80ccf736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 03/33] fix: report an error reply to a text protocol delete or
 touch

---
 client/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8f47b28..6e9e11e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -365,8 +365,9 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 		return nil
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed delete: %s", string(b))
 	}
-	return nil
 }
 
 func (s *ServerWithTextProtocol) Increment(key string, delta, _ int) (int64, error) {
@@ -442,9 +443,9 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 		return nil
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed touch: %s", string(b))
 	}
-
-	return nil
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
-- 
2.43.0


From 55dfd3a8d9a5b8d8bb91db03b36f98dd0e3018ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 04/33] fix: report an error reply to add or replace as what it
 is

---
 client/server.go | 59 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/client/server.go b/client/server.go
index 6e9e11e..3bc38d7 100644
--- a/client/server.go
+++ b/client/server.go
@@ -20,13 +20,14 @@ import (
 
 var (
 	crlf                 = []byte("\r\n")
-	msgTextProtoStored   = []byte("STORED\r\n")
-	msgTextProtoDeleted  = []byte("DELETED\r\n")
-	msgTextProtoNotFound = []byte("NOT_FOUND\r\n")
-	msgTextProtoTouched  = []byte("TOUCHED\r\n")
-	msgTextProtoExists   = []byte("EXISTS\r\n")
-	msgTextProtoOk       = []byte("OK\r\n")
-	msgTextProtoEnd      = []byte("END\r\n")
+	msgTextProtoStored    = []byte("STORED\r\n")
+	msgTextProtoNotStored = []byte("NOT_STORED\r\n")
+	msgTextProtoDeleted   = []byte("DELETED\r\n")
+	msgTextProtoNotFound  = []byte("NOT_FOUND\r\n")
+	msgTextProtoTouched   = []byte("TOUCHED\r\n")
+	msgTextProtoExists    = []byte("EXISTS\r\n")
+	msgTextProtoOk        = []byte("OK\r\n")
+	msgTextProtoEnd       = []byte("END\r\n")
 
 	valueFormatWithCas = "VALUE %s %d %d %d"
 	valueFormat        = "VALUE %s %d %d"
@@ -528,11 +529,16 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored), bytes.Equal(b, msgTextProtoExists):
+		return merrors.ItemExists
+	case bytes.Equal(b, msgTextProtoNotFound):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
@@ -565,11 +571,16 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored), bytes.Equal(b, msgTextProtoNotFound):
+		return merrors.ItemNotFound
+	case bytes.Equal(b, msgTextProtoExists):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithTextProtocol) Flush() error {
@@ -935,11 +946,16 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored), bytes.Equal(b, msgTextProtoExists):
+		return merrors.ItemExists
+	case bytes.Equal(b, msgTextProtoNotFound):
+		return merrors.ItemNotFound
+	default:
+		return fmt.Errorf("memcached: failed add: %s", string(b))
 	}
-
-	return merrors.ItemExists
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
@@ -969,11 +985,16 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 	if err != nil {
 		return err
 	}
-	if bytes.Equal(b, msgTextProtoStored) {
+	switch {
+	case bytes.Equal(b, msgTextProtoStored):
 		return nil
+	case bytes.Equal(b, msgTextProtoNotStored), bytes.Equal(b, msgTextProtoNotFound):
+		return merrors.ItemNotFound
+	case bytes.Equal(b, msgTextProtoExists):
+		return merrors.ItemExists
+	default:
+		return fmt.Errorf("memcached: failed replace: %s", string(b))
 	}
-
-	return merrors.ItemNotFound
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
-- 
2.43.0


From 392ac5b2def139deedf886afd96bd05d2e754cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 05/33] fix: report a cas on an absent key as not found over
 the text protocol

---
 client/server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/client/server.go b/client/server.go
index 3bc38d7..3872c5a 100644
--- a/client/server.go
+++ b/client/server.go
@@ -494,6 +494,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 		return nil
 	case bytes.Equal(buf, msgTextProtoExists):
 		return merrors.ItemExists
+	case bytes.Equal(buf, msgTextProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return fmt.Errorf("memcached: failed set: %s", string(buf))
 	}
-- 
2.43.0


From 1bfcf0b0c1b014df977c8f24d8953b2766e10f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 06/33] fix: an error reply to version is an error, not a
 version

---
 client/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/client/server.go b/client/server.go
index 3872c5a..09fb23c 100644
--- a/client/server.go
+++ b/client/server.go
@@ -19,7 +19,7 @@ import (
 )
 
 var (
-	crlf                 = []byte("\r\n")
+	crlf                  = []byte("\r\n")
 	msgTextProtoStored    = []byte("STORED\r\n")
 	msgTextProtoNotStored = []byte("NOT_STORED\r\n")
 	msgTextProtoDeleted   = []byte("DELETED\r\n")
@@ -28,6 +28,7 @@ var (
 	msgTextProtoExists    = []byte("EXISTS\r\n")
 	msgTextProtoOk        = []byte("OK\r\n")
 	msgTextProtoEnd       = []byte("END\r\n")
+	msgTextProtoVersion   = []byte("VERSION ")
 
 	valueFormatWithCas = "VALUE %s %d %d %d"
 	valueFormat        = "VALUE %s %d %d"
@@ -642,10 +643,10 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, msgTextProtoVersion) && bytes.HasSuffix(b, crlf) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
-	return "", err
+	return "", errors.New("memcached: invalid response")
 }
 
 type ServerWithMetaProtocol struct {
@@ -1152,11 +1153,11 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(b) > 0 {
+	if bytes.HasPrefix(b, msgTextProtoVersion) && bytes.HasSuffix(b, crlf) {
 		return strings.TrimSuffix(strings.TrimPrefix(string(b), "VERSION "), "\r\n"), nil
 	}
 
-	return "", nil
+	return "", errors.New("memcached: invalid response")
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-- 
2.43.0


From 6baac22057014eea2f7fbf54a5e9d0d8312fe0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 07/33] fix: consume the whole binary reply, whatever it says,
 and check it answers the request

---
 client/server.go | 70 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/client/server.go b/client/server.go
index 09fb23c..fec0c59 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1270,6 +1270,9 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	if err := resHeader.Read(s.conn); err != nil {
 		return nil, err
 	}
+	if resHeader.Opcode != binaryOpcodeGet {
+		return nil, errors.New("memcached: invalid response")
+	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
 	if _, err := io.ReadFull(s.conn, buf); err != nil {
@@ -1330,20 +1333,14 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	var resErr error
 	resHeader := s.resHeaderPool.Get().(*binaryResponseHeader)
 	for {
 		if err := resHeader.Read(s.conn); err != nil {
 			return nil, err
 		}
-		if resHeader.Opcode == binaryOpcodeNoop {
-			break
-		}
-
-		if resHeader.Status != 0 {
-			if v, ok := binaryStatus[resHeader.Status]; ok {
-				return nil, fmt.Errorf("memcached: error %s", v)
-			}
-			return nil, fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+		if resHeader.Opcode != binaryOpcodeNoop && resHeader.Opcode != binaryOpcodeGetKQ {
+			return nil, errors.New("memcached: invalid response")
 		}
 
 		buf := make([]byte, resHeader.TotalBodyLength)
@@ -1351,12 +1348,30 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			return nil, err
 		}
 
+		if resHeader.Status != 0 && !(resHeader.Opcode == binaryOpcodeGetKQ && resHeader.Status == 1) {
+			// The replies up to the one to the no-op still have to be read.
+			if v, ok := binaryStatus[resHeader.Status]; ok {
+				resErr = fmt.Errorf("memcached: error %s", v)
+			} else {
+				resErr = fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+			}
+		}
+		if resHeader.Opcode == binaryOpcodeNoop {
+			break
+		}
+		if resHeader.Status != 0 {
+			continue
+		}
+
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
 		})
 	}
+	if resErr != nil {
+		return nil, resErr
+	}
 
 	return items, nil
 }
@@ -1397,6 +1412,11 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2: // key exists
@@ -1449,6 +1469,11 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
 		case 2:
@@ -1682,6 +1707,14 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 	if err := resHeader.Read(s.conn); err != nil {
 		return err
 	}
+	if resHeader.Opcode != binaryOpcodeTouch {
+		return errors.New("memcached: invalid response")
+	}
+
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
 
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1724,6 +1757,11 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return errors.New("memcached: invalid response")
 	}
 
+	buf := make([]byte, resHeader.TotalBodyLength)
+	if _, err := io.ReadFull(s.conn, buf); err != nil {
+		return err
+	}
+
 	return nil
 }
 
@@ -1753,11 +1791,8 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	if resHeader.Status != 0 {
-		if v, ok := binaryStatus[resHeader.Status]; ok {
-			return "", fmt.Errorf("memcached: error %s", v)
-		}
-		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	if resHeader.Opcode != binaryOpcodeVersion {
+		return "", errors.New("memcached: invalid response")
 	}
 
 	buf := make([]byte, resHeader.TotalBodyLength)
@@ -1765,6 +1800,13 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 		return "", err
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return "", fmt.Errorf("memcached: error %s", v)
+		}
+		return "", fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return string(buf), nil
 }
 
-- 
2.43.0


From 6242dad732079a05786b17147d0080474b389349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 08/33] fix: report binary status codes as the errors they mean

---
 client/server.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index fec0c59..12ad6bc 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1419,6 +1419,8 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
+		case 1: // key not found
+			return merrors.ItemNotFound
 		case 2: // key exists
 			return merrors.ItemExists
 		default:
@@ -1476,7 +1478,9 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
-		case 2:
+		case 1: // key not found
+			return merrors.ItemNotFound
+		case 2, 5: // key exists, not stored
 			return merrors.ItemExists
 		default:
 			if v, ok := binaryStatus[resHeader.Status]; ok {
@@ -1533,8 +1537,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 
 	if resHeader.Status != 0 {
 		switch resHeader.Status {
-		case 1:
+		case 1, 5: // key not found, not stored
 			return merrors.ItemNotFound
+		case 2: // key exists
+			return merrors.ItemExists
 		default:
 			if v, ok := binaryStatus[resHeader.Status]; ok {
 				return fmt.Errorf("memcached: error %s", v)
@@ -1589,6 +1595,8 @@ func (s *ServerWithBinaryProtocol) Delete(key string) error {
 		switch resHeader.Status {
 		case 1: // key not found
 			return merrors.ItemNotFound
+		case 2: // key exists
+			return merrors.ItemExists
 		default:
 			if v, ok := binaryStatus[resHeader.Status]; ok {
 				return fmt.Errorf("memcached: error %s", v)
@@ -1658,6 +1666,12 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		body = buf
 	}
 
+	switch resHeader.Status {
+	case 1: // key not found
+		return 0, merrors.ItemNotFound
+	case 2: // key exists
+		return 0, merrors.ItemExists
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			additional := ""
@@ -1716,6 +1730,12 @@ func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
+	switch resHeader.Status {
+	case 1: // key not found
+		return merrors.ItemNotFound
+	case 2: // key exists
+		return merrors.ItemExists
+	}
 	if resHeader.Status != 0 {
 		if v, ok := binaryStatus[resHeader.Status]; ok {
 			return fmt.Errorf("memcached: error %s", v)
@@ -1762,6 +1782,13 @@ func (s *ServerWithBinaryProtocol) Flush() error {
 		return err
 	}
 
+	if resHeader.Status != 0 {
+		if v, ok := binaryStatus[resHeader.Status]; ok {
+			return fmt.Errorf("memcached: error %s", v)
+		}
+		return fmt.Errorf("memcached: unknown error %d", resHeader.Status)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 6456651b9acc4732c27646b1428795b6656ba4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 09/33] fix: reset the pooled header before an increment or
 decrement

---
 client/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/server.go b/client/server.go
index 12ad6bc..8a7f877 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1632,6 +1632,7 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 	binary.BigEndian.PutUint32(extra[16:20], uint32(expiration))
 	header := s.reqHeaderPool.Get().(*binaryRequestHeader)
 	defer s.reqHeaderPool.Put(header)
+	header.Reset()
 
 	header.Opcode = opcode
 	header.KeyLength = uint16(len(key))
-- 
2.43.0


From f3b5022d286f77f09c2fdce44144e5f2482aba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 10/33] fix: return the CAS tokens of a multi-get

---
 client/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/server.go b/client/server.go
index 8a7f877..8c28aa3 100644
--- a/client/server.go
+++ b/client/server.go
@@ -314,10 +314,14 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
 		var size int
+		var cas uint64
 		if len(s) == 4 {
 			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
 		} else {
 			size, err = strconv.Atoi(string(s[3]))
+			if err == nil {
+				cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
+			}
 		}
 		if err != nil {
 			return nil, err
@@ -327,6 +331,7 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		item := &Item{
 			Key:   string(s[1]),
 			Flags: flags,
+			Cas:   cas,
 		}
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
@@ -1367,6 +1372,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
 			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
 			Flags: buf[:resHeader.ExtraLength],
+			Cas:   resHeader.CAS,
 		})
 	}
 	if resErr != nil {
-- 
2.43.0


From c7ecc9711a4f15750802faadf70e9e989483be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 11/33] fix: accept every flags and CAS value and an item
 without expiration in a meta reply

---
 client/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8c28aa3..8442f9e 100644
--- a/client/server.go
+++ b/client/server.go
@@ -851,7 +851,7 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item *Item) error {
 	switch flagName {
 	case 'f':
-		in, err := strconv.ParseInt(string(v), 10, 32)
+		in, err := strconv.ParseUint(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
@@ -859,16 +859,20 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 		binary.BigEndian.PutUint32(f, uint32(in))
 		item.Flags = f
 	case 'c':
-		in, err := strconv.ParseInt(string(v), 10, 64)
+		in, err := strconv.ParseUint(string(v), 10, 64)
 		if err != nil {
 			return err
 		}
-		item.Cas = uint64(in)
+		item.Cas = in
 	case 't':
 		in, err := strconv.ParseInt(string(v), 10, 32)
 		if err != nil {
 			return err
 		}
+		if in < 0 {
+			// -1 stands for an item that never expires, which is what 0 means in a request.
+			in = 0
+		}
 		item.Expiration = int(in)
 	case 'k':
 		item.Key = string(v)
-- 
2.43.0


From 1fc19e6f651bca25f087c6a68c2b38648cbded6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 12/33] fix: a meta touch updates the expiration instead of
 invalidating the item

---
 client/server.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index 8442f9e..9eb9a9f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -40,6 +40,7 @@ var (
 	msgMetaProtoStored    = []byte("HD")
 	msgMetaProtoNotStored = []byte("NS")
 	msgMetaProtoDeleted   = []byte("HD")
+	msgMetaProtoTouched   = []byte("HD")
 	msgMetaProtoExists    = []byte("EX")
 	msgMetaProtoNotFound  = []byte("NF")
 )
@@ -1094,7 +1095,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		s.raw.SetReadDeadline(time.Now().Add(s.Timeout))
 	}
 
-	if _, err := fmt.Fprintf(s.conn, "md %s I T%d\r\n", key, expiration); err != nil {
+	if _, err := fmt.Fprintf(s.conn, "mg %s T%d\r\n", key, expiration); err != nil {
 		return err
 	}
 	if err := s.conn.Flush(); err != nil {
@@ -1107,8 +1108,10 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 	}
 
 	switch {
-	case bytes.HasPrefix(b, msgMetaProtoDeleted):
+	case bytes.HasPrefix(b, msgMetaProtoTouched):
 		return nil
+	case bytes.HasPrefix(b, msgMetaProtoEnd), bytes.HasPrefix(b, msgMetaProtoNotFound):
+		return merrors.ItemNotFound
 	default:
 		return errors.New("memcached: failed touch")
 	}
-- 
2.43.0


From ccbfbc9cf70302e84a7af48160d7ce5b1828fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 13/33] fix: a miss in a meta multi-get does not end the reply

---
 client/server.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/client/server.go b/client/server.go
index 9eb9a9f..ec64c21 100644
--- a/client/server.go
+++ b/client/server.go
@@ -45,6 +45,13 @@ var (
 	msgMetaProtoNotFound  = []byte("NF")
 )
 
+var (
+	// errMetaNoop is the reply to a no-op, the end of a multi-get.
+	errMetaNoop = errors.New("memcached: unexpected no-op response")
+	// errMetaReply is an error reply to a get.
+	errMetaReply = errors.New("memcached: error response")
+)
+
 var (
 	magicRequest  byte = 0x80
 	magicResponse byte = 0x81
@@ -766,19 +773,29 @@ func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		return nil, err
 	}
 
+	var resErr error
 MultiRead:
 	for {
 		item, err := s.parseGetResponse(s.conn)
 		if err != nil {
 			switch err {
 			case merrors.ItemNotFound:
+				continue
+			case errMetaNoop:
 				break MultiRead
+			case errMetaReply:
+				// The replies up to the one to the no-op still have to be read.
+				resErr = err
+				continue
 			default:
 				return nil, err
 			}
 		}
 		items = append(items, item)
 	}
+	if resErr != nil {
+		return nil, resErr
+	}
 
 	return items, nil
 }
@@ -792,7 +809,10 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 		return nil, merrors.ItemNotFound
 	}
 	if bytes.Equal(b, msgMetaProtoNoop) {
-		return nil, merrors.ItemNotFound
+		return nil, errMetaNoop
+	}
+	if bytes.HasPrefix(b, []byte("ERROR")) || bytes.HasPrefix(b, []byte("CLIENT_ERROR")) || bytes.HasPrefix(b, []byte("SERVER_ERROR")) {
+		return nil, errMetaReply
 	}
 	if !bytes.HasPrefix(b, []byte("VA")) {
 		return nil, errors.New("memcached: invalid get response")
-- 
2.43.0


From 9f1f4b1ef52e37e6ed1b0f5ab810f338879d33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 14/33] fix: a malformed reply is an error, never a panic, and
 any legal key can be read back

---
 client/server.go | 156 ++++++++++++++++++-----------------------------
 1 file changed, 60 insertions(+), 96 deletions(-)

diff --git a/client/server.go b/client/server.go
index ec64c21..12106ff 100644
--- a/client/server.go
+++ b/client/server.go
@@ -29,9 +29,6 @@ var (
 	msgTextProtoOk        = []byte("OK\r\n")
 	msgTextProtoEnd       = []byte("END\r\n")
 	msgTextProtoVersion   = []byte("VERSION ")
-
-	valueFormatWithCas = "VALUE %s %d %d %d"
-	valueFormat        = "VALUE %s %d %d"
 )
 
 var (
@@ -45,6 +42,10 @@ var (
 	msgMetaProtoNotFound  = []byte("NF")
 )
 
+// maxBodyLength is the length of the largest reply body the client accepts: a server does not store
+// items larger than 1 GiB.
+const maxBodyLength = 1<<30 + 1<<16
+
 var (
 	// errMetaNoop is the reply to a no-op, the end of a multi-get.
 	errMetaNoop = errors.New("memcached: unexpected no-op response")
@@ -224,47 +225,18 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := s.conn.Flush(); err != nil {
 		return nil, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	items, err := s.parseGetResponse(s.conn.Reader)
 	if err != nil {
 		return nil, err
 	}
-	if bytes.Equal(b, msgTextProtoEnd) {
+	switch len(items) {
+	case 0:
 		return nil, merrors.ItemNotFound
+	case 1:
+		items[0].Server = s.Name()
+		return items[0], nil
 	}
-	if !bytes.HasPrefix(b, []byte("VALUE")) {
-		return nil, errors.New("memcached: invalid response")
-	}
-	item := &Item{Server: s.Name()}
-	size := 0
-	p := valueFormatWithCas
-	var flags uint32
-	scan := []interface{}{&item.Key, &flags, &size, &item.Cas}
-	if bytes.Count(b, []byte(" ")) == 3 {
-		p = valueFormat
-		scan = scan[:3]
-	}
-	if _, err := fmt.Fscanf(bytes.NewReader(b), p, scan...); err != nil {
-		return nil, err
-	}
-	f := make([]byte, 4)
-	binary.BigEndian.PutUint32(f, flags)
-	item.Flags = f
-
-	buf := make([]byte, size+2)
-	if _, err := io.ReadFull(s.conn, buf); err != nil {
-		return nil, err
-	}
-	item.Value = buf[:size]
-
-	b, err = s.conn.ReadSlice('\n')
-	if err != nil {
-		return nil, err
-	}
-	if !bytes.Equal(b, msgTextProtoEnd) {
-		return nil, errors.New("memcached: invalid response")
-	}
-
-	return item, nil
+	return nil, errors.New("memcached: invalid response")
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
@@ -309,27 +281,22 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		if bytes.Equal(b, []byte("END\r\n")) {
 			break
 		}
-		s := bytes.Split(b, []byte(" "))
-		if !bytes.Equal(s[0], []byte("VALUE")) {
+		s := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+		if !bytes.Equal(s[0], []byte("VALUE")) || (len(s) != 4 && len(s) != 5) {
 			return nil, errors.New("memcached: invalid response")
 		}
 
-		f, err := strconv.Atoi(string(s[2]))
+		f, err := strconv.ParseUint(string(s[2]), 10, 32)
 		if err != nil {
 			return nil, err
 		}
 		flags := make([]byte, 4)
 		binary.BigEndian.PutUint32(flags, uint32(f))
 
-		var size int
 		var cas uint64
-		if len(s) == 4 {
-			size, err = strconv.Atoi(string(s[3][:len(s[3])-2]))
-		} else {
-			size, err = strconv.Atoi(string(s[3]))
-			if err == nil {
-				cas, err = strconv.ParseUint(string(s[4][:len(s[4])-2]), 10, 64)
-			}
+		size, err := parseSize(s[3])
+		if err == nil && len(s) == 5 {
+			cas, err = strconv.ParseUint(string(s[4]), 10, 64)
 		}
 		if err != nil {
 			return nil, err
@@ -344,6 +311,9 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 		if _, err := io.ReadFull(r, buf); err != nil {
 			return nil, err
 		}
+		if !bytes.Equal(buf[size:], crlf) {
+			return nil, errors.New("memcached: invalid response")
+		}
 		item.Value = buf[:size]
 		res = append(res, item)
 	}
@@ -351,6 +321,18 @@ func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, err
 	return res, nil
 }
 
+// parseSize reads the length of a value in a reply.
+func parseSize(b []byte) (int, error) {
+	size, err := strconv.ParseUint(string(b), 10, 32)
+	if err != nil {
+		return 0, err
+	}
+	if size > maxBodyLength {
+		return 0, errors.New("memcached: too large response")
+	}
+	return int(size), nil
+}
+
 func (s *ServerWithTextProtocol) Delete(key string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
@@ -421,7 +403,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -627,7 +609,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -814,49 +796,22 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if bytes.HasPrefix(b, []byte("ERROR")) || bytes.HasPrefix(b, []byte("CLIENT_ERROR")) || bytes.HasPrefix(b, []byte("SERVER_ERROR")) {
 		return nil, errMetaReply
 	}
-	if !bytes.HasPrefix(b, []byte("VA")) {
+	tokens := bytes.Split(bytes.TrimSuffix(b, crlf), []byte(" "))
+	if !bytes.Equal(tokens[0], []byte("VA")) || len(tokens) < 2 {
 		return nil, errors.New("memcached: invalid get response")
 	}
 
 	item := &Item{}
-	size := 0
-	// state:
-	//    1 - Reading size
-	//    2 - Reading flag name
-	//    3 - Reading token
-	state := 1 // Read size
-	var flagName byte
-	var startIndex int
-	for i := range b[3:] {
-		switch b[3+i] {
-		case ' ':
-			switch state {
-			case 1: // Reading size
-				s, err := strconv.ParseInt(string(b[3:3+i]), 10, 32)
-				if err != nil {
-					return nil, err
-				}
-				size = int(s)
-				state = 2
-			case 3: // Reading token
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-				state = 2
-			}
-		case '\r':
-			if state == 3 {
-				if err := s.readGetFlagToken(flagName, b[startIndex:3+i], item); err != nil {
-					return nil, err
-				}
-			}
-		case 'f', 'c', 't', 'k':
-			switch state {
-			case 2:
-				flagName = b[3+i]
-				state = 3
-				startIndex = 3 + i + 1
-			}
+	size, err := parseSize(tokens[1])
+	if err != nil {
+		return nil, err
+	}
+	for _, t := range tokens[2:] {
+		if len(t) == 0 {
+			continue
+		}
+		if err := s.readGetFlagToken(t[0], t[1:], item); err != nil {
+			return nil, err
 		}
 	}
 
@@ -864,6 +819,9 @@ func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item
 	if _, err := io.ReadFull(conn, buf); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(buf[size:], crlf) {
+		return nil, errors.New("memcached: invalid get response")
+	}
 	item.Value = buf[:size]
 
 	return item, nil
@@ -1098,7 +1056,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	case bytes.Equal(b, msgTextProtoNotFound):
 		return 0, merrors.ItemNotFound
 	default:
-		i, err := strconv.ParseInt(string(b[:len(b)-2]), 10, 64)
+		i, err := strconv.ParseInt(string(bytes.TrimSuffix(b, crlf)), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -1161,7 +1119,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	case bytes.Equal(b, msgTextProtoOk):
 		return nil
 	default:
-		return fmt.Errorf("memcached: %s", string(b[:len(b)-2]))
+		return fmt.Errorf("memcached: %s", string(bytes.TrimSuffix(b, crlf)))
 	}
 }
 
@@ -1325,7 +1283,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 
 	return &Item{
 		Key:   key,
-		Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 		Flags: buf[:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
@@ -1396,8 +1354,8 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		}
 
 		items = append(items, &Item{
-			Key:   string(buf[resHeader.ExtraLength : uint16(resHeader.ExtraLength)+resHeader.KeyLength]),
-			Value: buf[uint16(resHeader.ExtraLength)+resHeader.KeyLength:],
+			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
+			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
 			Flags: buf[:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
@@ -1718,6 +1676,9 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 		}
 	}
 
+	if len(body) != 8 {
+		return 0, errors.New("memcached: invalid response")
+	}
 	return int64(binary.BigEndian.Uint64(body)), nil
 }
 
@@ -1962,6 +1923,9 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	h.TotalBodyLength = binary.BigEndian.Uint32(h.buf[8:12])
 	h.Opaque = binary.BigEndian.Uint32(h.buf[12:16])
 	h.CAS = binary.BigEndian.Uint64(h.buf[16:24])
+	if h.TotalBodyLength > maxBodyLength || uint32(h.ExtraLength)+uint32(h.KeyLength) > h.TotalBodyLength {
+		return errors.New("memcached: invalid response")
+	}
 
 	return nil
 }
-- 
2.43.0


From 3f552148bdf5f7cb449ddff48bcc920d64361efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 15/33] fix: flags shorter than four bytes do not panic

---
 client/server.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/server.go b/client/server.go
index 12106ff..ada1bda 100644
--- a/client/server.go
+++ b/client/server.go
@@ -875,7 +875,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 		format += " C%d"
 		values = append(values, item.Cas)
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		format += " F%d"
 		values = append(values, binary.BigEndian.Uint32(item.Flags))
 	}
@@ -1384,7 +1384,7 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1443,7 +1443,7 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
@@ -1502,7 +1502,7 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 	if err := header.EncodeTo(s.conn); err != nil {
 		return err
 	}
-	if item.Flags != nil {
+	if len(item.Flags) >= 4 {
 		copy(extra[:4], item.Flags[:4])
 	}
 	s.conn.Write(extra)
-- 
2.43.0


From a0f8a4bdcc03c46376a1ed72975a566105fc328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 16/33] fix: an item's flags do not share capacity with its
 value

---
 client/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index ada1bda..6b268c4 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1284,7 +1284,7 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	return &Item{
 		Key:   key,
 		Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
-		Flags: buf[:resHeader.ExtraLength],
+		Flags: buf[:resHeader.ExtraLength:resHeader.ExtraLength],
 		Cas:   resHeader.CAS,
 	}, nil
 }
@@ -1356,7 +1356,7 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 		items = append(items, &Item{
 			Key:   string(buf[resHeader.ExtraLength : int(resHeader.ExtraLength)+int(resHeader.KeyLength)]),
 			Value: buf[int(resHeader.ExtraLength)+int(resHeader.KeyLength):],
-			Flags: buf[:resHeader.ExtraLength],
+			Flags: buf[:resHeader.ExtraLength:resHeader.ExtraLength],
 			Cas:   resHeader.CAS,
 		})
 	}
-- 
2.43.0


From 71e18b8846a4de195d50970db93ad6a44cf90468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:55 +0000
Subject: [PATCH 17/33] fix: refuse keys the protocol cannot carry

---
 client/server.go | 123 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 123 insertions(+)

diff --git a/client/server.go b/client/server.go
index 6b268c4..8190d9f 100644
--- a/client/server.go
+++ b/client/server.go
@@ -88,6 +88,33 @@ var binaryStatus = map[uint16]string{
 	130: "out of memory",
 }
 
+const maxKeyLength = 250
+
+// checkKeys returns an error unless every key has a length the server accepts.
+func checkKeys(keys ...string) error {
+	for _, key := range keys {
+		if len(key) == 0 || len(key) > maxKeyLength {
+			return errors.New("memcached: invalid key length")
+		}
+	}
+	return nil
+}
+
+// checkTextKeys returns an error unless every key can be part of a text command.
+func checkTextKeys(keys ...string) error {
+	if err := checkKeys(keys...); err != nil {
+		return err
+	}
+	for _, key := range keys {
+		for i := 0; i < len(key); i++ {
+			if key[i] <= ' ' || key[i] == 0x7f {
+				return errors.New("memcached: invalid character in key")
+			}
+		}
+	}
+	return nil
+}
+
 type ServerOperationType string
 
 const (
@@ -207,6 +234,10 @@ func (s *ServerWithTextProtocol) Reconnect() error {
 }
 
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
+	if err := checkTextKeys(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -240,6 +271,10 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	if err := checkTextKeys(keys...); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -334,6 +369,10 @@ func parseSize(b []byte) (int, error) {
 }
 
 func (s *ServerWithTextProtocol) Delete(key string) error {
+	if err := checkTextKeys(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -376,6 +415,10 @@ func (s *ServerWithTextProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkTextKeys(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -412,6 +455,10 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
+	if err := checkTextKeys(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -446,6 +493,10 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 }
 
 func (s *ServerWithTextProtocol) Set(item *Item) error {
+	if err := checkTextKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -498,6 +549,10 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Add(item *Item) error {
+	if err := checkTextKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -540,6 +595,10 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithTextProtocol) Replace(item *Item) error {
+	if err := checkTextKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -712,6 +771,10 @@ func (s *ServerWithMetaProtocol) Reconnect() error {
 }
 
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
+	if err := checkTextKeys(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -736,6 +799,10 @@ func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithMetaProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	if err := checkTextKeys(keys...); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -861,6 +928,10 @@ func (s *ServerWithMetaProtocol) readGetFlagToken(flagName byte, v []byte, item
 }
 
 func (s *ServerWithMetaProtocol) Set(item *Item) error {
+	if err := checkTextKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -911,6 +982,10 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Add(item *Item) error {
+	if err := checkTextKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -950,6 +1025,10 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Replace(item *Item) error {
+	if err := checkTextKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -989,6 +1068,10 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithMetaProtocol) Delete(key string) error {
+	if err := checkTextKeys(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1033,6 +1116,10 @@ func (s *ServerWithMetaProtocol) Decrement(key string, delta, _ int) (int64, err
 }
 
 func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, error) {
+	if err := checkTextKeys(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1065,6 +1152,10 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 }
 
 func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
+	if err := checkTextKeys(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1231,6 +1322,10 @@ func (s *ServerWithBinaryProtocol) Reconnect() error {
 }
 
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
+	if err := checkKeys(key); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1290,6 +1385,10 @@ func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
+	if err := checkKeys(keys...); err != nil {
+		return nil, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1368,6 +1467,10 @@ func (s *ServerWithBinaryProtocol) GetMulti(keys ...string) ([]*Item, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Set(item *Item) error {
+	if err := checkKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1427,6 +1530,10 @@ func (s *ServerWithBinaryProtocol) Set(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Add(item *Item) error {
+	if err := checkKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1486,6 +1593,10 @@ func (s *ServerWithBinaryProtocol) Add(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
+	if err := checkKeys(item.Key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1545,6 +1656,10 @@ func (s *ServerWithBinaryProtocol) Replace(item *Item) error {
 }
 
 func (s *ServerWithBinaryProtocol) Delete(key string) error {
+	if err := checkKeys(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1609,6 +1724,10 @@ func (s *ServerWithBinaryProtocol) Decrement(key string, delta, expiration int)
 }
 
 func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int, expiration int) (int64, error) {
+	if err := checkKeys(key); err != nil {
+		return 0, err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
@@ -1683,6 +1802,10 @@ func (s *ServerWithBinaryProtocol) incrOrDecr(opcode byte, key string, delta int
 }
 
 func (s *ServerWithBinaryProtocol) Touch(key string, expiration int) error {
+	if err := checkKeys(key); err != nil {
+		return err
+	}
+
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-- 
2.43.0


From 78acea818e126eb19bf2f6ff75d26208287ad311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 18/33] fix: a text multi-get of no keys returns no items

---
 client/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/server.go b/client/server.go
index 8190d9f..84be540 100644
--- a/client/server.go
+++ b/client/server.go
@@ -288,6 +288,9 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	}
 
 	items := make([]*Item, 0, len(keys))
+	if len(keys) == 0 {
+		return items, nil
+	}
 	if _, err := fmt.Fprintf(s.conn, "gets %s\r\n", strings.Join(keys, " ")); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c067c705a790e1ea2c31f0cb4d97e3f40c19a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 19/33] fix: close, reconnect and heartbeat work in every
 order, and the heartbeat keeps probing

---
 client/server.go | 215 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 167 insertions(+), 48 deletions(-)

diff --git a/client/server.go b/client/server.go
index 84be540..c9cc914 100644
--- a/client/server.go
+++ b/client/server.go
@@ -46,6 +46,8 @@ var (
 // items larger than 1 GiB.
 const maxBodyLength = 1<<30 + 1<<16
 
+var errClosed = errors.New("memcached: closed")
+
 var (
 	// errMetaNoop is the reply to a no-op, the end of a multi-get.
 	errMetaNoop = errors.New("memcached: unexpected no-op response")
@@ -161,7 +163,12 @@ type ServerWithTextProtocol struct {
 	Type    ServerOperationType
 	Timeout time.Duration
 
-	conn    *bufio.ReadWriter
+	conn *bufio.ReadWriter
+	opt  *ServerOption
+
+	// stateMu guards closeCh, which is nil when the handle is closed, and raw. Unlike mu it is not held
+	// while waiting for the server, so that Close never waits for an operation.
+	stateMu sync.Mutex
 	closeCh chan struct{}
 	raw     net.Conn
 	mu      sync.Mutex
@@ -185,14 +192,13 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 		name:    name,
 		Network: network,
 		Addr:    addr,
+		opt:     opt,
 		closeCh: make(chan struct{}),
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
 	}
 
-	if opt.HeartbeatInterval > 0 {
-		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
-	}
+	startHeartbeat(server, opt, server.closeCh)
 
 	return server, nil
 }
@@ -202,37 +208,62 @@ func (s *ServerWithTextProtocol) Name() string {
 }
 
 func (s *ServerWithTextProtocol) Close() error {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
 	if s.closeCh == nil {
 		return errors.New("memcached: already closed")
 	}
 
 	err := s.raw.Close()
-	s.raw = nil
 	close(s.closeCh)
 	s.closeCh = nil
 	return err
 }
 
 func (s *ServerWithTextProtocol) Reconnect() error {
+	return s.reconnect(true)
+}
+
+// reconnect replaces the connection. A handle that has been closed is opened again only if revive is set.
+func (s *ServerWithTextProtocol) reconnect(revive bool) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+	if !revive && s.isClosed() {
+		return errClosed
 	}
+	// The old connection may already be broken or closed, so there is nothing to do about an error.
+	s.raw.Close()
 
 	d := &net.Dialer{}
 	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
+
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+	if s.closeCh == nil {
+		if !revive {
+			conn.Close()
+			return errClosed
+		}
+		s.closeCh = make(chan struct{})
+		startHeartbeat(s, s.opt, s.closeCh)
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
 
+func (s *ServerWithTextProtocol) isClosed() bool {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
+	return s.closeCh == nil
+}
+
 func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	if err := checkTextKeys(key); err != nil {
 		return nil, err
@@ -241,8 +272,8 @@ func (s *ServerWithTextProtocol) Get(key string) (*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return nil, errors.New("memcached: closed")
+	if s.isClosed() {
+		return nil, errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -278,8 +309,8 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return nil, errors.New("memcached: closed")
+	if s.isClosed() {
+		return nil, errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -379,8 +410,8 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return errors.New("memcached: closed")
+	if s.isClosed() {
+		return errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -425,8 +456,8 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return 0, errors.New("memcached: closed")
+	if s.isClosed() {
+		return 0, errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -465,8 +496,8 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return errors.New("memcached: closed")
+	if s.isClosed() {
+		return errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -503,8 +534,8 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return errors.New("memcached: closed")
+	if s.isClosed() {
+		return errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -559,8 +590,8 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return errors.New("memcached: closed")
+	if s.isClosed() {
+		return errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -605,8 +636,8 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return errors.New("memcached: closed")
+	if s.isClosed() {
+		return errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -647,8 +678,8 @@ func (s *ServerWithTextProtocol) Flush() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return errors.New("memcached: closed")
+	if s.isClosed() {
+		return errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -679,8 +710,8 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw == nil {
-		return "", errors.New("memcached: closed")
+	if s.isClosed() {
+		return "", errClosed
 	}
 
 	if s.Timeout != 0 {
@@ -713,6 +744,11 @@ type ServerWithMetaProtocol struct {
 	Type    ServerOperationType
 	Timeout time.Duration
 
+	opt *ServerOption
+
+	// stateMu guards closeCh, which is nil when the handle is closed, and raw. Unlike mu it is not held
+	// while waiting for the server, so that Close never waits for an operation.
+	stateMu sync.Mutex
 	closeCh chan struct{}
 	conn    *bufio.ReadWriter
 	raw     net.Conn
@@ -737,14 +773,13 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 		name:    name,
 		Network: network,
 		Addr:    addr,
+		opt:     opt,
 		closeCh: make(chan struct{}),
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
 	}
 
-	if opt.HeartbeatInterval > 0 {
-		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
-	}
+	startHeartbeat(server, opt, server.closeCh)
 
 	return server, nil
 }
@@ -754,25 +789,48 @@ func (s *ServerWithMetaProtocol) Name() string {
 }
 
 func (s *ServerWithMetaProtocol) Reconnect() error {
+	return s.reconnect(true)
+}
+
+// reconnect replaces the connection. A handle that has been closed is opened again only if revive is set.
+func (s *ServerWithMetaProtocol) reconnect(revive bool) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+	if !revive && s.isClosed() {
+		return errClosed
 	}
+	// The old connection may already be broken or closed, so there is nothing to do about an error.
+	s.raw.Close()
 
 	d := &net.Dialer{}
 	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
+
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+	if s.closeCh == nil {
+		if !revive {
+			conn.Close()
+			return errClosed
+		}
+		s.closeCh = make(chan struct{})
+		startHeartbeat(s, s.opt, s.closeCh)
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
 
+func (s *ServerWithMetaProtocol) isClosed() bool {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
+	return s.closeCh == nil
+}
+
 func (s *ServerWithMetaProtocol) Get(key string) (*Item, error) {
 	if err := checkTextKeys(key); err != nil {
 		return nil, err
@@ -1245,7 +1303,17 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithMetaProtocol) Close() error {
-	return s.raw.Close()
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	err := s.raw.Close()
+	close(s.closeCh)
+	s.closeCh = nil
+	return err
 }
 
 type ServerWithBinaryProtocol struct {
@@ -1255,6 +1323,11 @@ type ServerWithBinaryProtocol struct {
 	Type    ServerOperationType
 	Timeout time.Duration
 
+	opt *ServerOption
+
+	// stateMu guards closeCh, which is nil when the handle is closed, and raw. Unlike mu it is not held
+	// while waiting for the server, so that Close never waits for an operation.
+	stateMu sync.Mutex
 	closeCh chan struct{}
 	mu      sync.Mutex
 	conn    *bufio.ReadWriter
@@ -1282,6 +1355,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 		name:    name,
 		Network: network,
 		Addr:    addr,
+		opt:     opt,
 		closeCh: make(chan struct{}),
 		conn:    bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn)),
 		raw:     conn,
@@ -1293,9 +1367,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 		}},
 	}
 
-	if opt.HeartbeatInterval > 0 {
-		go heartbeat(server, opt.HeartbeatInterval, opt.EnableAutoReconnect, server.closeCh)
-	}
+	startHeartbeat(server, opt, server.closeCh)
 
 	return server, nil
 }
@@ -1305,25 +1377,48 @@ func (s *ServerWithBinaryProtocol) Name() string {
 }
 
 func (s *ServerWithBinaryProtocol) Reconnect() error {
+	return s.reconnect(true)
+}
+
+// reconnect replaces the connection. A handle that has been closed is opened again only if revive is set.
+func (s *ServerWithBinaryProtocol) reconnect(revive bool) error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
-	if s.raw != nil {
-		if err := s.raw.Close(); err != nil {
-			return err
-		}
+	if !revive && s.isClosed() {
+		return errClosed
 	}
+	// The old connection may already be broken or closed, so there is nothing to do about an error.
+	s.raw.Close()
 
 	d := &net.Dialer{}
 	conn, err := d.DialContext(context.TODO(), s.Network, s.Addr)
 	if err != nil {
 		return err
 	}
+
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+	if s.closeCh == nil {
+		if !revive {
+			conn.Close()
+			return errClosed
+		}
+		s.closeCh = make(chan struct{})
+		startHeartbeat(s, s.opt, s.closeCh)
+	}
 	s.raw = conn
 	s.conn = bufio.NewReadWriter(bufio.NewReader(conn), bufio.NewWriter(conn))
 	return nil
 }
 
+func (s *ServerWithBinaryProtocol) isClosed() bool {
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
+	return s.closeCh == nil
+}
+
 func (s *ServerWithBinaryProtocol) Get(key string) (*Item, error) {
 	if err := checkKeys(key); err != nil {
 		return nil, err
@@ -1959,7 +2054,17 @@ func (s *ServerWithBinaryProtocol) Version() (string, error) {
 }
 
 func (s *ServerWithBinaryProtocol) Close() error {
-	return s.raw.Close()
+	s.stateMu.Lock()
+	defer s.stateMu.Unlock()
+
+	if s.closeCh == nil {
+		return errors.New("memcached: already closed")
+	}
+
+	err := s.raw.Close()
+	close(s.closeCh)
+	s.closeCh = nil
+	return err
 }
 
 func (s *ServerWithBinaryProtocol) getReqHeader() *binaryRequestHeader {
@@ -2056,8 +2161,15 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	return nil
 }
 
-func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
-	ticker := time.NewTimer(interval)
+func startHeartbeat(s heartbeatServer, opt *ServerOption, closeCh <-chan struct{}) {
+	if opt.HeartbeatInterval > 0 {
+		go heartbeat(s, opt.HeartbeatInterval, opt.EnableAutoReconnect, closeCh)
+	}
+}
+
+func heartbeat(s heartbeatServer, interval time.Duration, reconnect bool, closeCh <-chan struct{}) {
+	ticker := time.NewTicker(interval)
+	defer ticker.Stop()
 	for {
 		select {
 		case <-closeCh:
@@ -2066,13 +2178,20 @@ func heartbeat(s Server, interval time.Duration, reconnect bool, closeCh <-chan
 			_, err := s.Version()
 			if err != nil {
 				if reconnect {
-					if err := s.Reconnect(); err != nil {
+					// When this fails the next probe fails as well and it is tried again.
+					if err := s.reconnect(false); err == errClosed {
 						return
 					}
 				} else {
 					s.Close()
+					return
 				}
 			}
 		}
 	}
 }
+
+type heartbeatServer interface {
+	Server
+	reconnect(revive bool) error
+}
-- 
2.43.0


From d2fa63ec4ddd4eececc23a61adf71f34fb394ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 20/33] fix: a connection that failed in the middle of an
 exchange is not used for another one

---
 client/server.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/client/server.go b/client/server.go
index c9cc914..d690095 100644
--- a/client/server.go
+++ b/client/server.go
@@ -182,6 +182,7 @@ func NewServerWithTextProtocol(ctx context.Context, name, network, addr string,
 	if err != nil {
 		return nil, err
 	}
+	conn = &failedOnceConn{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -241,6 +242,7 @@ func (s *ServerWithTextProtocol) reconnect(revive bool) error {
 	if err != nil {
 		return err
 	}
+	conn = &failedOnceConn{Conn: conn}
 
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
@@ -763,6 +765,7 @@ func NewServerWithMetaProtocol(ctx context.Context, name, network, addr string,
 	if err != nil {
 		return nil, err
 	}
+	conn = &failedOnceConn{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -808,6 +811,7 @@ func (s *ServerWithMetaProtocol) reconnect(revive bool) error {
 	if err != nil {
 		return err
 	}
+	conn = &failedOnceConn{Conn: conn}
 
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
@@ -1345,6 +1349,7 @@ func NewServerWithBinaryProtocol(ctx context.Context, name, network, addr string
 	if err != nil {
 		return nil, err
 	}
+	conn = &failedOnceConn{Conn: conn}
 
 	opt := &ServerOption{}
 	for _, f := range opts {
@@ -1396,6 +1401,7 @@ func (s *ServerWithBinaryProtocol) reconnect(revive bool) error {
 	if err != nil {
 		return err
 	}
+	conn = &failedOnceConn{Conn: conn}
 
 	s.stateMu.Lock()
 	defer s.stateMu.Unlock()
@@ -2161,6 +2167,31 @@ func (h *binaryResponseHeader) Read(r io.Reader) error {
 	return nil
 }
 
+// failedOnceConn is a connection that is not used again after a read or a write failed (timed out, say): the
+// rest of the reply that was being waited for could be taken for the reply to the next request.
+type failedOnceConn struct {
+	net.Conn
+	err error
+}
+
+func (c *failedOnceConn) Read(b []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Read(b)
+	c.err = err
+	return n, err
+}
+
+func (c *failedOnceConn) Write(b []byte) (int, error) {
+	if c.err != nil {
+		return 0, c.err
+	}
+	n, err := c.Conn.Write(b)
+	c.err = err
+	return n, err
+}
+
 func startHeartbeat(s heartbeatServer, opt *ServerOption, closeCh <-chan struct{}) {
 	if opt.HeartbeatInterval > 0 {
 		go heartbeat(s, opt.HeartbeatInterval, opt.EnableAutoReconnect, closeCh)
-- 
2.43.0


From ab35174761ead11632d53f5d051f6bb42ce4b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 21/33] fix: a key that hashes onto a ring point is owned by
 that point

---
 client/ring.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/client/ring.go b/client/ring.go
index 02193c0..09d6b2f 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -54,17 +54,14 @@ func (r *Ring) Pick(key string) Server {
 
 	lower := 0
 	upper := len(r.nodes) - 1
-Search:
 	for lower <= upper {
 		idx := (lower + upper) / 2
 
 		t := r.nodes[idx].hash
 		switch {
-		case t == h:
-			break Search
 		case h < t:
 			upper = idx - 1
-		case t < h:
+		case t <= h:
 			lower = idx + 1
 		}
 	}
-- 
2.43.0


From af660c2988181d338bb7feb75705b656fdbc3470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 22/33] fix: ring points that coincide are ordered by server
 name

---
 client/ring.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client/ring.go b/client/ring.go
index 09d6b2f..45e0ba1 100644
--- a/client/ring.go
+++ b/client/ring.go
@@ -35,7 +35,11 @@ func NewRing(servers ...Server) *Ring {
 	}
 
 	sort.Slice(nodes, func(i, j int) bool {
-		return nodes[i].hash < nodes[j].hash
+		if nodes[i].hash != nodes[j].hash {
+			return nodes[i].hash < nodes[j].hash
+		}
+		// Points of different servers can coincide. The order must not depend on how servers are listed.
+		return nodes[i].Server.Name() < nodes[j].Server.Name()
 	})
 
 	s := make(map[string]Server)
-- 
2.43.0


From 92fd5ed26f5b4b4485e565f6d2d7fd5bd22964f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 23/33] fix: closing a pool closes every server even if one
 fails

---
 client/client.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/client/client.go b/client/client.go
index 44a579f..2bd327c 100644
--- a/client/client.go
+++ b/client/client.go
@@ -109,7 +109,5 @@ func (c *SinglePool) Version() (map[string]string, error) {
 }
 
 func (c *SinglePool) Close() error {
-	return c.ring.Each(func(s Server) error {
-		return s.Close()
-	})
+	return c.ring.Close()
 }
-- 
2.43.0


From 8b874e679d515c890270516b5a2165cb18bfdd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 24/33] fix: the primary's CAS token is not a condition for the
 secondary

---
 cluster/cluster.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 63b5830..2846abd 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -58,7 +58,7 @@ func (p *ReplicaPool) Set(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
 }
 
 func (p *ReplicaPool) Add(item *client.Item) error {
@@ -66,7 +66,7 @@ func (p *ReplicaPool) Add(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
 }
 
 func (p *ReplicaPool) Replace(item *client.Item) error {
@@ -74,7 +74,18 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 		return err
 	}
 
-	return p.secondary.Pick(item.Key).Set(item)
+	return p.setSecondary(item)
+}
+
+// setSecondary stores the item, which the primary accepted, in the secondary. The CAS token is the
+// primary's: it means nothing to the secondary.
+func (p *ReplicaPool) setSecondary(item *client.Item) error {
+	return p.secondary.Pick(item.Key).Set(&client.Item{
+		Key:        item.Key,
+		Value:      item.Value,
+		Flags:      item.Flags,
+		Expiration: item.Expiration,
+	})
 }
 
 func (p *ReplicaPool) Delete(key string) error {
@@ -95,7 +106,7 @@ func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error
 	if err != nil {
 		return n, err
 	}
-	err = p.secondary.Pick(key).Set(&client.Item{
+	err = p.setSecondary(&client.Item{
 		Key:        key,
 		Value:      item.Value,
 		Expiration: item.Expiration,
@@ -117,7 +128,7 @@ func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error
 	if err != nil {
 		return n, err
 	}
-	err = p.secondary.Pick(key).Set(&client.Item{
+	err = p.setSecondary(&client.Item{
 		Key:        key,
 		Value:      item.Value,
 		Expiration: item.Expiration,
-- 
2.43.0


From f09fb1fc1e392c460ed4b457f2c6eb9c1f7b5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 25/33] fix: mirror a lifetime of more than 30 days

---
 cluster/cluster.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cluster/cluster.go b/cluster/cluster.go
index 2846abd..644b059 100644
--- a/cluster/cluster.go
+++ b/cluster/cluster.go
@@ -1,6 +1,8 @@
 package cluster
 
 import (
+	"time"
+
 	"go.f110.dev/go-memcached/client"
 )
 
@@ -77,6 +79,15 @@ func (p *ReplicaPool) Replace(item *client.Item) error {
 	return p.setSecondary(item)
 }
 
+// expirationOf converts the remaining time to live of an item to an expiration. The server takes an
+// expiration of more than 30 days as a point in time.
+func expirationOf(ttl int) int {
+	if ttl > 60*60*24*30 {
+		return int(time.Now().Unix()) + ttl
+	}
+	return ttl
+}
+
 // setSecondary stores the item, which the primary accepted, in the secondary. The CAS token is the
 // primary's: it means nothing to the secondary.
 func (p *ReplicaPool) setSecondary(item *client.Item) error {
@@ -109,7 +120,7 @@ func (p *ReplicaPool) Increment(key string, delta, expiration int) (int64, error
 	err = p.setSecondary(&client.Item{
 		Key:        key,
 		Value:      item.Value,
-		Expiration: item.Expiration,
+		Expiration: expirationOf(item.Expiration),
 		Flags:      item.Flags,
 	})
 	if err != nil {
@@ -131,7 +142,7 @@ func (p *ReplicaPool) Decrement(key string, delta, expiration int) (int64, error
 	err = p.setSecondary(&client.Item{
 		Key:        key,
 		Value:      item.Value,
-		Expiration: item.Expiration,
+		Expiration: expirationOf(item.Expiration),
 		Flags:      item.Flags,
 	})
 	if err != nil {
-- 
2.43.0


From 4e3341cfe140b57e2b6cdb4ff84b71495bb072dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 26/33] fix: a malformed request does not crash the server and
 a request body is consumed whatever the operation

---
 server/server.go | 72 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/server/server.go b/server/server.go
index 968245f..7a4a231 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -58,6 +59,9 @@ var (
 
 var crlf = []byte("\r\n")
 
+// maxBodyLength is the length of the largest request body the server accepts.
+const maxBodyLength = 1<<30 + 1<<16
+
 type Protocol string
 
 type conn struct {
@@ -146,7 +150,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 
-		bufLen, err := strconv.ParseInt(s[4], 10, 32)
+		bufLen, err := parseSize(s[4])
 		if err != nil {
 			return nil, err
 		}
@@ -227,13 +231,16 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, errors.New("server: invalid request")
 		}
 		tokens := s[3:]
-		v, err := strconv.ParseUint(s[2], 10, 32)
+		size, err := parseSize(s[2])
 		if err != nil {
 			return nil, err
 		}
-		opt := &SetOpt{Meta: true, Size: int(v)}
+		opt := &SetOpt{Meta: true, Size: size}
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
+				if len(f) == 0 {
+					return nil, errors.New("server: invalid request")
+				}
 				switch f[0] {
 				case 'C':
 					opt.Cas = true
@@ -261,11 +268,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 				case 'q':
 					opt.NoReply = true
 				case 'S':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := parseSize(f[1:])
 					if err != nil {
 						return nil, err
 					}
-					opt.Size = int(v)
+					opt.Size = v
 				case 'T':
 					v, err := strconv.ParseInt(f[1:], 10, 32)
 					if err != nil {
@@ -292,6 +299,18 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 	return nil, errors.New("server: invalid request")
 }
 
+// parseSize parses the length of a value.
+func parseSize(s string) (int, error) {
+	v, err := strconv.ParseUint(s, 10, 32)
+	if err != nil {
+		return 0, err
+	}
+	if v > maxBodyLength {
+		return 0, errors.New("server: too large request")
+	}
+	return int(v), nil
+}
+
 func (c *conn) readBinaryRequest() (*Request, error) {
 	header := make([]byte, 24)
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
@@ -300,12 +319,35 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	if header[0] != magicRequest {
 		return nil, errors.New("server: invalid request")
 	}
+	bodyLen := binary.BigEndian.Uint32(header[8:12])
+	rest := int(bodyLen) - int(header[4]) - int(binary.BigEndian.Uint16(header[2:4]))
+	if bodyLen > maxBodyLength || rest < 0 {
+		return nil, errors.New("server: invalid request")
+	}
+	extraLen := 0
+	switch Opcode(header[1]) {
+	case OpcodeSet, OpcodeAdd, OpcodeReplace:
+		extraLen = 8
+	case OpcodeIncrement, OpcodeDecrement:
+		extraLen = 20
+	case OpcodeTouch:
+		extraLen = 4
+	}
+	if int(header[4]) != extraLen && Opcode(header[1]) != OpcodeFlush {
+		return nil, errors.New("server: invalid request")
+	}
+
+	b := make([]byte, bodyLen)
+	if _, err := io.ReadFull(c.connBuf, b); err != nil {
+		return nil, err
+	}
+	body := bytes.NewReader(b)
 
 	switch Opcode(header[1]) {
 	case OpcodeGet:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
@@ -313,27 +355,27 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	case OpcodeGetKQ:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
 		return &Request{Opcode: OpcodeGet, Key: string(keyBuf), GetOpt: &GetOpt{NoReply: true, Key: true}}, nil
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
 		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+		if _, err := io.ReadFull(body, extra); err != nil {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[4:8])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
 		totalBodyLen := binary.BigEndian.Uint32(header[8:12])
 		buf := make([]byte, int(totalBodyLen)-len(extra)-int(KeyLength))
-		if _, err := io.ReadFull(c.connBuf, buf); err != nil {
+		if _, err := io.ReadFull(body, buf); err != nil {
 			return nil, err
 		}
 
@@ -347,14 +389,14 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 	case OpcodeDelete:
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
 		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
 	case OpcodeIncrement, OpcodeDecrement:
 		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+		if _, err := io.ReadFull(body, extra); err != nil {
 			return nil, err
 		}
 		delta := binary.BigEndian.Uint64(extra[:8])
@@ -362,7 +404,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
@@ -374,14 +416,14 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		}, nil
 	case OpcodeTouch:
 		extra := make([]byte, header[4])
-		if _, err := io.ReadFull(c.connBuf, extra); err != nil {
+		if _, err := io.ReadFull(body, extra); err != nil {
 			return nil, err
 		}
 		expiration := binary.BigEndian.Uint32(extra[:4])
 
 		KeyLength := binary.BigEndian.Uint16(header[2:4])
 		keyBuf := make([]byte, KeyLength)
-		if _, err := io.ReadFull(c.connBuf, keyBuf); err != nil {
+		if _, err := io.ReadFull(body, keyBuf); err != nil {
 			return nil, err
 		}
 
-- 
2.43.0


From 66914178831a13108e181599c357bca78da7fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 27/33] fix: hand flags, amounts, expirations and CAS tokens to
 the handler as the client sent them

---
 server/server.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/server/server.go b/server/server.go
index 7a4a231..7de6d0a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -139,7 +139,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 5 {
 			return nil, errors.New("server: invalid request")
 		}
-		f, err := strconv.ParseInt(s[2], 10, 32)
+		f, err := strconv.ParseUint(s[2], 10, 32)
 		if err != nil {
 			return nil, err
 		}
@@ -182,7 +182,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) != 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		d, err := strconv.ParseInt(s[2], 10, 32)
+		bits := 64
+		if s[0] == "touch" {
+			bits = 32
+		}
+		d, err := strconv.ParseInt(s[2], 10, bits)
 		if err != nil {
 			return nil, err
 		}
@@ -191,7 +195,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		case "decr":
 			opcode = OpcodeDecrement
 		case "touch":
-			opcode = OpcodeTouch
+			return &Request{Opcode: OpcodeTouch, Key: s[1], Delta: d, SetOpt: &SetOpt{Expiration: int(d)}}, nil
 		}
 		return &Request{Opcode: opcode, Key: s[1], Delta: d}, nil
 	case "mg":
@@ -250,11 +254,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					}
 					opt.CasValue = v
 				case 'F':
-					v, err := strconv.ParseInt(f[1:], 10, 32)
+					v, err := strconv.ParseUint(f[1:], 10, 32)
 					if err != nil {
 						return nil, err
 					}
-					opt.Flag = int32(v)
+					opt.Flag = int32(uint32(v))
 				case 'I':
 					opt.Invalidate = true
 				case 'k':
@@ -337,6 +341,8 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 		return nil, errors.New("server: invalid request")
 	}
 
+	cas := binary.BigEndian.Uint64(header[16:24])
+
 	b := make([]byte, bodyLen)
 	if _, err := io.ReadFull(c.connBuf, b); err != nil {
 		return nil, err
@@ -383,7 +389,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Value:  buf,
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(int32(expiration)), Cas: cas != 0, CasValue: cas},
 			Flags:  extra[:4],
 		}, nil
 	case OpcodeDelete:
@@ -412,7 +418,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			Opcode: Opcode(header[1]),
 			Key:    string(keyBuf),
 			Delta:  int64(delta),
-			SetOpt: &SetOpt{Expiration: int(expiration)},
+			SetOpt: &SetOpt{Expiration: int(int32(expiration)), Cas: cas != 0, CasValue: cas},
 		}, nil
 	case OpcodeTouch:
 		extra := make([]byte, header[4])
@@ -427,7 +433,7 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 
-		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(expiration)}}, nil
+		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(int32(expiration))}}, nil
 	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
-- 
2.43.0


From 2a7cd4b46e3b9b83be3813a3ab5608ccdd71b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:43 +0000
Subject: [PATCH 28/33] fix: decode every meta flag and refuse what cannot be
 done as asked

---
 server/server.go | 102 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 31 deletions(-)

diff --git a/server/server.go b/server/server.go
index 7de6d0a..c7c4394 100644
--- a/server/server.go
+++ b/server/server.go
@@ -53,6 +53,7 @@ var (
 
 var (
 	metaProtoEnd     = []byte("EN\r\n")
+	metaProtoHit     = []byte("HD")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
 )
@@ -134,6 +135,9 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		return &Request{Opcode: OpcodeGet, Key: s[1]}, nil
 	case "gets":
+		if len(s) < 2 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeGet, Keys: s[1:]}, nil
 	case "set", "add", "replace":
 		if len(s) != 5 {
@@ -202,9 +206,20 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		if len(s) < 3 {
 			return nil, errors.New("server: invalid request")
 		}
-		opt := &GetOpt{Meta: true, RequestFlag: s[2]}
-		if len(s[2]) > 0 {
-			for _, f := range s[2] {
+		if len(s) == 3 && strings.HasPrefix(s[2], "T") {
+			expiration, err := strconv.ParseInt(s[2][1:], 10, 32)
+			if err != nil {
+				return nil, err
+			}
+			return &Request{Opcode: OpcodeTouch, Key: s[1], SetOpt: &SetOpt{Meta: true, Expiration: int(expiration)}}, nil
+		}
+		opt := &GetOpt{Meta: true, RequestFlag: strings.Join(s[2:], " ")}
+		for _, token := range s[2:] {
+			if strings.HasPrefix(token, "O") {
+				opt.WithOpaque = true
+				continue
+			}
+			for _, f := range token {
 				switch f {
 				case 'c':
 					opt.Cas = true
@@ -216,8 +231,6 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.Key = true
 				case 'l':
 					opt.LastAccess = true
-				case 'o':
-					opt.WithOpaque = true
 				case 'q':
 					opt.NoReply = true
 				case 's':
@@ -226,6 +239,8 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 					opt.TTL = true
 				case 'v':
 					opt.Value = true
+				default:
+					return nil, errors.New("server: unsupported flag")
 				}
 			}
 		}
@@ -240,6 +255,7 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 			return nil, err
 		}
 		opt := &SetOpt{Meta: true, Size: size}
+		opcode := OpcodeSet
 		if len(s[2]) > 0 {
 			for _, f := range tokens {
 				if len(f) == 0 {
@@ -283,6 +299,18 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 						return nil, err
 					}
 					opt.Expiration = int(v)
+				case 'M':
+					switch f[1:] {
+					case "E", "e":
+						opcode = OpcodeAdd
+					case "R", "r":
+						opcode = OpcodeReplace
+					case "S", "s":
+					default:
+						return nil, errors.New("server: unsupported mode")
+					}
+				default:
+					return nil, errors.New("server: unsupported flag")
 				}
 			}
 		}
@@ -293,8 +321,11 @@ func (c *conn) readAsciiRequest() (*Request, error) {
 		}
 		buf = buf[:opt.Size]
 
-		return &Request{Opcode: OpcodeSet, Key: s[1], Value: buf, SetOpt: opt}, nil
+		return &Request{Opcode: opcode, Key: s[1], Value: buf, SetOpt: opt}, nil
 	case "flush_all":
+		if len(s) != 1 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: OpcodeFlush}, nil
 	case "version":
 		return &Request{Opcode: OpcodeVersion}, nil
@@ -399,6 +430,9 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 			return nil, err
 		}
 
+		if cas != 0 {
+			return nil, errors.New("server: conditional delete is not supported")
+		}
 		return &Request{Opcode: OpcodeDelete, Key: string(keyBuf)}, nil
 	case OpcodeIncrement, OpcodeDecrement:
 		extra := make([]byte, header[4])
@@ -435,6 +469,9 @@ func (c *conn) readBinaryRequest() (*Request, error) {
 
 		return &Request{Opcode: OpcodeTouch, Key: string(keyBuf), SetOpt: &SetOpt{Expiration: int(int32(expiration))}}, nil
 	case OpcodeNoop, OpcodeVersion, OpcodeFlush:
+		if len(bytes.Trim(b, "\x00")) > 0 {
+			return nil, errors.New("server: invalid request")
+		}
 		return &Request{Opcode: Opcode(header[1])}, nil
 	}
 
@@ -690,32 +727,35 @@ func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
 
 	return nil
 }
+
 func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
-	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VA %d %s",
-			len(r.Value),
-			req.GetOpt.RequestFlag,
-		),
-	)
-	if err != nil {
-		return err
-	}
-	for _, v := range req.GetOpt.RequestFlag {
-		switch v {
-		case 'c':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.Cas, 10))
-		case 'f':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(flag), 10))
-		case 'k':
-			conn.connBuf.WriteString(" " + req.Key)
-		case 's':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(int64(len(r.Value)), 10))
-		case 't':
-			conn.connBuf.WriteString(" " + strconv.FormatInt(r.TTL, 10))
+	if req.GetOpt.Value {
+		conn.connBuf.WriteString(fmt.Sprintf("VA %d", len(r.Value)))
+	} else {
+		conn.connBuf.Write(metaProtoHit)
+	}
+	for _, token := range strings.Split(req.GetOpt.RequestFlag, " ") {
+		if strings.HasPrefix(token, "O") {
+			conn.connBuf.WriteString(" " + token)
+			continue
+		}
+		for _, v := range token {
+			switch v {
+			case 'c':
+				conn.connBuf.WriteString(" c" + strconv.FormatUint(uint64(r.Cas), 10))
+			case 'f':
+				conn.connBuf.WriteString(" f" + strconv.FormatInt(int64(flag), 10))
+			case 'k':
+				conn.connBuf.WriteString(" k" + req.Key)
+			case 's':
+				conn.connBuf.WriteString(" s" + strconv.FormatInt(int64(len(r.Value)), 10))
+			case 't':
+				conn.connBuf.WriteString(" t" + strconv.FormatInt(r.TTL, 10))
+			}
 		}
 	}
 	conn.connBuf.Write(crlf)
@@ -723,9 +763,9 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 		if _, err := conn.connBuf.Write(r.Value); err != nil {
 			return err
 		}
-	}
-	if _, err := conn.connBuf.Write(crlf); err != nil {
-		return err
+		if _, err := conn.connBuf.Write(crlf); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 12b1b428c084b4ddde08bb34fce3098918bf9d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 29/33] fix: every request gets one well-formed reply that says
 what the handler said

---
 server/server.go | 276 +++++++++++++++++++++++++++++++----------------
 1 file changed, 186 insertions(+), 90 deletions(-)

diff --git a/server/server.go b/server/server.go
index c7c4394..6186710 100644
--- a/server/server.go
+++ b/server/server.go
@@ -11,6 +11,8 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+
+	merrors "go.f110.dev/go-memcached/errors"
 )
 
 const (
@@ -23,6 +25,10 @@ var (
 	magicResponse byte = 0x81
 )
 
+// binaryStatusInternalError is the status of a reply to a request that failed for another reason than
+// one the protocol has a status for.
+const binaryStatusInternalError uint16 = 0x84
+
 const (
 	OpcodeGet Opcode = iota
 	OpcodeSet
@@ -44,11 +50,15 @@ const (
 )
 
 var (
-	textProtoEnd     = []byte("END\r\n")
-	textProtoOk      = []byte("OK\r\n")
-	textProtoStored  = []byte("STORED\r\n")
-	textProtoDeleted = []byte("DELETED\r\n")
-	textProtoTouched = []byte("TOUCHED\r\n")
+	textProtoEnd       = []byte("END\r\n")
+	textProtoOk        = []byte("OK\r\n")
+	textProtoStored    = []byte("STORED\r\n")
+	textProtoNotStored = []byte("NOT_STORED\r\n")
+	textProtoExists    = []byte("EXISTS\r\n")
+	textProtoNotFound  = []byte("NOT_FOUND\r\n")
+	textProtoDeleted   = []byte("DELETED\r\n")
+	textProtoTouched   = []byte("TOUCHED\r\n")
+	textProtoVersion   = []byte("VERSION ")
 )
 
 var (
@@ -56,6 +66,10 @@ var (
 	metaProtoHit     = []byte("HD")
 	metaProtoStored  = []byte("HD")
 	metaProtoDeleted = []byte("HD")
+
+	metaProtoNotStored = []byte("NS\r\n")
+	metaProtoExists    = []byte("EX\r\n")
+	metaProtoNotFound  = []byte("NF\r\n")
 )
 
 var crlf = []byte("\r\n")
@@ -346,8 +360,13 @@ func parseSize(s string) (int, error) {
 	return int(v), nil
 }
 
-func (c *conn) readBinaryRequest() (*Request, error) {
+func (c *conn) readBinaryRequest() (req *Request, err error) {
 	header := make([]byte, 24)
+	defer func() {
+		if req != nil {
+			req.opaque = binary.BigEndian.Uint32(header[12:16])
+		}
+	}()
 	if _, err := io.ReadFull(c.connBuf, header); err != nil {
 		return nil, err
 	}
@@ -494,6 +513,9 @@ type Request struct {
 	GetOpt *GetOpt
 	SetOpt *SetOpt
 	DelOpt *DelOpt
+
+	// opaque is sent back in the reply to a binary request.
+	opaque uint32
 }
 
 type Response struct {
@@ -611,11 +633,18 @@ func (s *Server) writeResponse(conn *conn, req *Request, res []*Response) error
 }
 
 func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) error {
+	if err := responseError(req, res); err != nil {
+		return s.writeAsciiResponseError(conn, req, err)
+	}
+
 	switch req.Opcode {
 	case OpcodeGet:
 		if req.GetOpt == nil {
 			for _, r := range res {
-				if err := s.writeAsciiResponseGet(conn, r); err != nil {
+				if r.Error != nil {
+					continue
+				}
+				if err := s.writeAsciiResponseGet(conn, req, r); err != nil {
 					return err
 				}
 			}
@@ -624,78 +653,78 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 				return err
 			}
 		} else {
-			for _, r := range res {
-				if err := s.writeAsciiResponseMetaGet(conn, req, r); err != nil {
-					return err
-				}
-			}
-			if len(res) == 0 {
-				conn.connBuf.Write(metaProtoEnd)
+			if err := s.writeAsciiResponseMetaGet(conn, req, res[0]); err != nil {
+				return err
 			}
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
 			}
 		}
 	case OpcodeSet, OpcodeAdd, OpcodeReplace:
-		if res[0].Error == nil {
-			if req.SetOpt.Meta {
-				conn.connBuf.Write(metaProtoStored)
-				conn.connBuf.Write(crlf)
-				if err := conn.connBuf.Flush(); err != nil {
-					return err
-				}
-			} else {
-				conn.connBuf.Write(textProtoStored)
-				if err := conn.connBuf.Flush(); err != nil {
-					return err
-				}
+		if req.SetOpt != nil && req.SetOpt.Meta {
+			if req.SetOpt.NoReply {
+				return nil
 			}
-		}
-	case OpcodeDelete:
-		if res[0].Error == nil {
-			if req.DelOpt.Meta {
-				conn.connBuf.Write(metaProtoDeleted)
-				conn.connBuf.Write(crlf)
-				if err := conn.connBuf.Flush(); err != nil {
-					return err
-				}
-			} else {
-				conn.connBuf.Write(textProtoDeleted)
-				if err := conn.connBuf.Flush(); err != nil {
-					return err
-				}
+			conn.connBuf.Write(metaProtoStored)
+			if req.SetOpt.Key {
+				conn.connBuf.WriteString(" k" + req.Key)
+			}
+			if req.SetOpt.Opaque != 0 {
+				conn.connBuf.WriteString(" O" + strconv.FormatInt(req.SetOpt.Opaque, 10))
 			}
-		}
-	case OpcodeIncrement, OpcodeDecrement:
-		if res[0].Error == nil {
-			conn.connBuf.Write(res[0].Value)
 			conn.connBuf.Write(crlf)
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
 			}
-		}
-	case OpcodeVersion:
-		if res[0].Error == nil {
-			conn.connBuf.Write(res[0].Value)
-			conn.connBuf.Write(crlf)
+		} else {
+			conn.connBuf.Write(textProtoStored)
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
 			}
 		}
-	case OpcodeTouch:
-		if res[0].Error == nil {
-			conn.connBuf.Write(textProtoTouched)
+	case OpcodeDelete:
+		if req.DelOpt != nil && req.DelOpt.Meta {
+			conn.connBuf.Write(metaProtoDeleted)
+			conn.connBuf.Write(crlf)
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
 			}
-		}
-	case OpcodeFlush:
-		if res[0].Error == nil {
-			conn.connBuf.Write(textProtoOk)
+		} else {
+			conn.connBuf.Write(textProtoDeleted)
 			if err := conn.connBuf.Flush(); err != nil {
 				return err
 			}
 		}
+	case OpcodeIncrement, OpcodeDecrement:
+		conn.connBuf.Write(res[0].Value)
+		conn.connBuf.Write(crlf)
+		if err := conn.connBuf.Flush(); err != nil {
+			return err
+		}
+	case OpcodeVersion:
+		if !bytes.HasPrefix(res[0].Value, textProtoVersion) {
+			conn.connBuf.Write(textProtoVersion)
+		}
+		conn.connBuf.Write(res[0].Value)
+		conn.connBuf.Write(crlf)
+		if err := conn.connBuf.Flush(); err != nil {
+			return err
+		}
+	case OpcodeTouch:
+		if req.SetOpt != nil && req.SetOpt.Meta {
+			conn.connBuf.Write(metaProtoHit)
+			conn.connBuf.Write(crlf)
+		} else {
+			conn.connBuf.Write(textProtoTouched)
+		}
+		if err := conn.connBuf.Flush(); err != nil {
+			return err
+		}
+	case OpcodeFlush:
+		conn.connBuf.Write(textProtoOk)
+		if err := conn.connBuf.Flush(); err != nil {
+			return err
+		}
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
@@ -703,16 +732,78 @@ func (s *Server) writeAsciiResponse(conn *conn, req *Request, res []*Response) e
 	return nil
 }
 
-func (s *Server) writeAsciiResponseGet(conn *conn, r *Response) error {
+// responseError is the error the handler's responses amount to.
+func responseError(req *Request, res []*Response) error {
+	if len(req.Keys) > 0 {
+		// The keys that are absent are left out of the reply.
+		for _, r := range res {
+			if r.Error != nil && !errors.Is(r.Error, merrors.ItemNotFound) {
+				return r.Error
+			}
+		}
+		return nil
+	}
+	if len(res) == 0 {
+		if req.Opcode == OpcodeGet {
+			return merrors.ItemNotFound
+		}
+		return errors.New("no response")
+	}
+	return res[0].Error
+}
+
+// writeAsciiResponseError writes the reply that tells the client about err.
+func (s *Server) writeAsciiResponseError(conn *conn, req *Request, err error) error {
+	meta := (req.GetOpt != nil && req.GetOpt.Meta) || (req.SetOpt != nil && req.SetOpt.Meta) || (req.DelOpt != nil && req.DelOpt.Meta)
+	notFound, exists := errors.Is(err, merrors.ItemNotFound), errors.Is(err, merrors.ItemExists)
+
+	var reply []byte
+	switch {
+	case meta && notFound && (req.Opcode == OpcodeGet || req.Opcode == OpcodeTouch):
+		if req.GetOpt != nil && req.GetOpt.NoReply {
+			return nil
+		}
+		reply = metaProtoEnd
+	case meta && (notFound && req.Opcode == OpcodeReplace || exists && req.Opcode == OpcodeAdd):
+		reply = metaProtoNotStored
+	case meta && notFound:
+		reply = metaProtoNotFound
+	case meta && exists:
+		reply = metaProtoExists
+	case notFound && req.Opcode == OpcodeGet:
+		reply = textProtoEnd
+	case notFound && req.Opcode == OpcodeReplace, exists && req.Opcode == OpcodeAdd:
+		reply = textProtoNotStored
+	case notFound:
+		reply = textProtoNotFound
+	case exists:
+		reply = textProtoExists
+	default:
+		message := strings.NewReplacer("\r", " ", "\n", " ").Replace(err.Error())
+		reply = []byte("SERVER_ERROR " + message + "\r\n")
+	}
+	if _, err := conn.connBuf.Write(reply); err != nil {
+		return err
+	}
+	return conn.connBuf.Flush()
+}
+
+func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) error {
 	flag := uint32(0)
-	if len(r.Flags) > 0 {
+	if len(r.Flags) == 4 {
 		flag = binary.BigEndian.Uint32(r.Flags)
 	}
+	cas := ""
+	if len(req.Keys) > 0 {
+		// gets
+		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
+	}
 	_, err := conn.connBuf.WriteString(
-		fmt.Sprintf("VALUE %s %d %d\r\n",
+		fmt.Sprintf("VALUE %s %d %d%s\r\n",
 			r.Key,
 			flag,
 			len(r.Value),
+			cas,
 		),
 	)
 	if err != nil {
@@ -772,52 +863,57 @@ func (s *Server) writeAsciiResponseMetaGet(conn *conn, req *Request, r *Response
 }
 
 func (s *Server) writeBinaryResponse(conn *conn, req *Request, res []*Response) error {
-	switch req.Opcode {
-	case OpcodeGet:
-		for _, v := range res {
-			if err := v.writeAsBinaryProtocol(conn, req); err != nil {
-				return err
-			}
-		}
-		if len(res) > 1 {
-			r := &Response{}
-			if err := r.writeAsBinaryProtocol(conn, &Request{Opcode: OpcodeNoop}); err != nil {
-				return err
-			}
+	if err := responseError(req, res); err != nil {
+		if req.GetOpt != nil && req.GetOpt.NoReply && errors.Is(err, merrors.ItemNotFound) {
+			return nil
 		}
-	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeIncrement, OpcodeDecrement,
-		OpcodeVersion, OpcodeFlush, OpcodeTouch, OpcodeNoop:
-		if res[0].Error == nil {
-			return res[0].writeAsBinaryProtocol(conn, req)
+		status := binaryStatusInternalError
+		var e *merrors.MemcachedError
+		if errors.As(err, &e) && e.Status != 0 {
+			status = e.Status
 		}
+		return writeBinaryReply(conn, req, status, 0, nil, "", []byte(err.Error()))
+	}
+
+	r := res[0]
+	switch req.Opcode {
+	case OpcodeGet:
+		flags := make([]byte, 4)
+		if len(r.Flags) == 4 {
+			copy(flags, r.Flags)
+		}
+		key := ""
+		if req.GetOpt != nil && req.GetOpt.Key {
+			key = req.Key
+		}
+		return writeBinaryReply(conn, req, 0, r.Cas, flags, key, r.Value)
+	case OpcodeIncrement, OpcodeDecrement, OpcodeVersion:
+		return writeBinaryReply(conn, req, 0, r.Cas, nil, "", r.Value)
+	case OpcodeSet, OpcodeAdd, OpcodeReplace, OpcodeDelete, OpcodeFlush, OpcodeTouch, OpcodeNoop:
+		return writeBinaryReply(conn, req, 0, r.Cas, nil, "", nil)
 	default:
 		return errors.New("memcached: unknown opcode")
 	}
-
-	return nil
 }
 
-func (r *Response) writeAsBinaryProtocol(conn *conn, req *Request) error {
+func writeBinaryReply(conn *conn, req *Request, status uint16, cas int64, extra []byte, key string, value []byte) error {
 	header := make([]byte, 24)
 	header[0] = magicResponse
 	header[1] = byte(req.Opcode)
 	if req.Opcode == OpcodeGet && req.GetOpt != nil && req.GetOpt.NoReply {
 		header[1] = byte(OpcodeGetKQ)
 	}
-	binary.BigEndian.PutUint16(header[2:4], uint16(len(r.Key)))
-	header[4] = uint8(len(r.Flags))
-	binary.BigEndian.PutUint32(header[8:12], uint32(len(r.Key)+len(r.Flags)+len(r.Value)))
+	binary.BigEndian.PutUint16(header[2:4], uint16(len(key)))
+	header[4] = uint8(len(extra))
+	binary.BigEndian.PutUint16(header[6:8], status)
+	binary.BigEndian.PutUint32(header[8:12], uint32(len(extra)+len(key)+len(value)))
+	binary.BigEndian.PutUint32(header[12:16], req.opaque)
+	binary.BigEndian.PutUint64(header[16:24], uint64(cas))
 
 	conn.connBuf.Write(header)
-	if len(r.Flags) > 0 {
-		conn.connBuf.Write(r.Flags)
-	}
-	if len(r.Key) > 0 {
-		conn.connBuf.Write([]byte(r.Key))
-	}
-	if len(r.Value) > 0 {
-		conn.connBuf.Write(r.Value)
-	}
+	conn.connBuf.Write(extra)
+	conn.connBuf.WriteString(key)
+	conn.connBuf.Write(value)
 	if err := conn.connBuf.Flush(); err != nil {
 		return err
 	}
-- 
2.43.0


From 7a14bd348c96d42ae18335769efae64138e525e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 30/33] fix: the router answers every key with flags and CAS
 token and keeps the flags of a meta set

---
 proxy/replica_pool.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/proxy/replica_pool.go b/proxy/replica_pool.go
index d49bf31..412a997 100644
--- a/proxy/replica_pool.go
+++ b/proxy/replica_pool.go
@@ -1,6 +1,7 @@
 package proxy
 
 import (
+	"encoding/binary"
 	"errors"
 
 	"go.f110.dev/go-memcached/client"
@@ -20,6 +21,17 @@ func NewReplicaProxy(pool *cluster.ReplicaPool) *ReplicaProxy {
 func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, error) {
 	switch req.Opcode {
 	case server.OpcodeGet:
+		if len(req.Keys) > 0 {
+			items, err := p.pool.GetMulti(req.Keys...)
+			if err != nil {
+				return nil, err
+			}
+			res := make([]*server.Response, 0, len(items))
+			for _, item := range items {
+				res = append(res, response(item))
+			}
+			return res, nil
+		}
 		res, err := p.pool.Get(req.Key)
 		if err != nil {
 			if _, ok := err.(*merrors.MemcachedError); ok {
@@ -27,12 +39,20 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 			}
 			return nil, err
 		}
-		return []*server.Response{{Key: res.Key, Value: res.Value}}, nil
+		return []*server.Response{response(res)}, nil
 	case server.OpcodeSet:
+		if req.SetOpt.Invalidate {
+			return nil, errors.New("proxy: invalidation is not supported")
+		}
+		flags := req.Flags
+		if req.SetOpt.Meta {
+			flags = make([]byte, 4)
+			binary.BigEndian.PutUint32(flags, uint32(req.SetOpt.Flag))
+		}
 		err := p.pool.Set(&client.Item{
 			Key:        req.Key,
 			Value:      req.Value,
-			Flags:      req.Flags,
+			Flags:      flags,
 			Expiration: req.SetOpt.Expiration,
 			Cas:        req.SetOpt.CasValue,
 		})
@@ -47,3 +67,12 @@ func (p *ReplicaProxy) ServeRequest(req *server.Request) ([]*server.Response, er
 		return nil, errors.New("proxy: unknown opcode")
 	}
 }
+
+func response(item *client.Item) *server.Response {
+	ttl := int64(item.Expiration)
+	if ttl == 0 {
+		// The item never expires.
+		ttl = -1
+	}
+	return &server.Response{Key: item.Key, Flags: item.Flags, Value: item.Value, Cas: int64(item.Cas), TTL: ttl}
+}
-- 
2.43.0


From c411c0e3e4d70c6326e7cacc985fab877951ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 31/33] fix: an error reply longer than the read buffer is
 consumed to its end

---
 client/server.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/client/server.go b/client/server.go
index d690095..c93f9e6 100644
--- a/client/server.go
+++ b/client/server.go
@@ -345,7 +345,7 @@ func (s *ServerWithTextProtocol) GetMulti(keys ...string) ([]*Item, error) {
 func (s *ServerWithTextProtocol) parseGetResponse(r *bufio.Reader) ([]*Item, error) {
 	res := make([]*Item, 0)
 	for {
-		b, err := r.ReadSlice('\n')
+		b, err := r.ReadBytes('\n')
 		if err != nil {
 			return nil, err
 		}
@@ -427,7 +427,7 @@ func (s *ServerWithTextProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -473,7 +473,7 @@ func (s *ServerWithTextProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return 0, err
 	}
@@ -513,7 +513,7 @@ func (s *ServerWithTextProtocol) Touch(key string, expiration int) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -567,7 +567,7 @@ func (s *ServerWithTextProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	buf, err := s.conn.ReadSlice('\n')
+	buf, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -614,7 +614,7 @@ func (s *ServerWithTextProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -660,7 +660,7 @@ func (s *ServerWithTextProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -695,7 +695,7 @@ func (s *ServerWithTextProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -728,7 +728,7 @@ func (s *ServerWithTextProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return "", err
 	}
@@ -915,7 +915,7 @@ MultiRead:
 }
 
 func (s *ServerWithMetaProtocol) parseGetResponse(conn *bufio.ReadWriter) (*Item, error) {
-	b, err := conn.ReadSlice('\n')
+	b, err := conn.ReadBytes('\n')
 	if err != nil {
 		return nil, err
 	}
@@ -1027,7 +1027,7 @@ func (s *ServerWithMetaProtocol) Set(item *Item) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1073,7 +1073,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1116,7 +1116,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1151,7 +1151,7 @@ func (s *ServerWithMetaProtocol) Delete(key string) error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1199,7 +1199,7 @@ func (s *ServerWithMetaProtocol) incrOrDecr(op, key string, delta int) (int64, e
 	if err := s.conn.Flush(); err != nil {
 		return 0, err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return 0, err
 	}
@@ -1236,7 +1236,7 @@ func (s *ServerWithMetaProtocol) Touch(key string, expiration int) error {
 		return err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1266,7 +1266,7 @@ func (s *ServerWithMetaProtocol) Flush() error {
 	if err := s.conn.Flush(); err != nil {
 		return err
 	}
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return err
 	}
@@ -1295,7 +1295,7 @@ func (s *ServerWithMetaProtocol) Version() (string, error) {
 		return "", err
 	}
 
-	b, err := s.conn.ReadSlice('\n')
+	b, err := s.conn.ReadBytes('\n')
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 014f4c7838f33a93ec969545e6c870cf57c1b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:54 +0000
Subject: [PATCH 32/33] fix: a text get is answered with the requested key even
 if the handler leaves it out

---
 server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/server.go b/server/server.go
index 6186710..82ed3c2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -798,9 +798,13 @@ func (s *Server) writeAsciiResponseGet(conn *conn, req *Request, r *Response) er
 		// gets
 		cas = " " + strconv.FormatUint(uint64(r.Cas), 10)
 	}
+	key := r.Key
+	if len(req.Keys) == 0 {
+		key = req.Key
+	}
 	_, err := conn.connBuf.WriteString(
 		fmt.Sprintf("VALUE %s %d %d%s\r\n",
-			r.Key,
+			key,
 			flag,
 			len(r.Value),
 			cas,
-- 
2.43.0


From 1bd7ad43253622a128fafaeea5c5817729f4d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:07 +0000
Subject: [PATCH 33/33] fix: meta add and replace take the flags from items as
 set does

---
 client/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/server.go b/client/server.go
index c93f9e6..b29f840 100644
--- a/client/server.go
+++ b/client/server.go
@@ -1061,7 +1061,7 @@ func (s *ServerWithMetaProtocol) Add(item *Item) error {
 
 	// FIXME: should use new text protocol
 	flags := uint32(0)
-	if len(item.Flags) == 4 {
+	if len(item.Flags) >= 4 {
 		flags = binary.BigEndian.Uint32(item.Flags)
 	}
 	if _, err := fmt.Fprintf(s.conn, "add %s %d %d %d\r\n", item.Key, flags, item.Expiration, len(item.Value)); err != nil {
@@ -1104,7 +1104,7 @@ func (s *ServerWithMetaProtocol) Replace(item *Item) error {
 
 	// FIXME: should use new text protocol
 	flags := uint32(0)
-	if len(item.Flags) == 4 {
+	if len(item.Flags) >= 4 {
 		flags = binary.BigEndian.Uint32(item.Flags)
 	}
 	if _, err := fmt.Fprintf(s.conn, "replace %s %d %d %d\r\n", item.Key, flags, item.Expiration, len(item.Value)); err != nil {
-- 
2.43.0

