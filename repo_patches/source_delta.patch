From f69e9f3f085ff79d297cb6b03520e1678401cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 01/47] fix: lineproto: do not index an empty buffer after an
 empty read

---
 lineproto/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 153828a..ca41afb 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -75,7 +75,7 @@ func (r *bufReader) peek() error {
 }
 
 func (r *bufReader) ReadByte() (byte, error) {
-	if r.off >= len(r.buf) {
+	for r.off >= len(r.buf) { // a read may return no data and no error
 		if err := r.peek(); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 8f858cc8186c6ea9e1e5566568ba5780e1f58da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 02/47] fix: lineproto: apply the line limit to lines received
 in one chunk

---
 lineproto/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index ca41afb..762b924 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -204,6 +204,9 @@ read:
 			continue
 		}
 		r.line = append(r.line, pref...)
+		if r.maxLine > 0 && len(r.line) > r.maxLine {
+			return nil, errBufferExhausted
+		}
 		if err != nil {
 			return r.line, err
 		} else if more {
-- 
2.43.0


From e525d05aa4a8634bef1d2538882e547c27fb7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 03/47] fix: lineproto: keep the error of a failed raw write,
 so nothing is sent after a gap

---
 lineproto/writer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 6be1d9b..ce76a94 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -176,7 +176,11 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
-	return w.cur.Write(p)
+	n, err := w.cur.Write(p)
+	if err != nil {
+		w.setError(err)
+	}
+	return n, err
 }
 
 // WriteLine writes a single protocol message.
-- 
2.43.0


From 926245ae1fcab87847fbdc55235af3b5882f4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 04/47] fix: lineproto: arm the write timeout for raw writes

---
 lineproto/writer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index ce76a94..df9bd5e 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -176,6 +176,14 @@ func (w *Writer) Write(p []byte) (int, error) {
 			return 0, err
 		}
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return 0, err
+		}
+		defer w.Timeout(false)
+	}
 	n, err := w.cur.Write(p)
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From dbf4e2357b593c3daf1cf301456c8367e84b798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 05/47] fix: lineproto: arm the write timeout when compression
 is switched off and on close

---
 lineproto/writer.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index df9bd5e..9738ec6 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,21 +65,34 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
-	last := w.bw.Flush()
+	last := w.flushClose()
 	if w.err == nil {
 		w.err = errWriterClosed
 	}
+	w.zlibOn = false
+	w.zlibW = nil
+	w.bw = nil
+	w.cur = nil
+	w.w = nil
+	w.onLine = nil
+	return last
+}
+
+// flushClose flushes the buffer and terminates the compressed section, if there is one.
+func (w *Writer) flushClose() error {
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			return err
+		}
+		defer w.Timeout(false)
+	}
+	last := w.bw.Flush()
 	if w.zlibOn {
 		if err := w.zlibW.Close(); err != nil {
 			last = err
 		}
-		w.zlibOn = false
-		w.zlibW = nil
 	}
-	w.bw = nil
-	w.cur = nil
-	w.w = nil
-	w.onLine = nil
 	return last
 }
 
@@ -121,6 +134,14 @@ func (w *Writer) DisableZlib() error {
 	} else if !w.zlibOn {
 		return errZlibNotActive
 	}
+	if w.Timeout != nil {
+		err := w.Timeout(true)
+		if err != nil {
+			w.setError(err)
+			return err
+		}
+		defer w.Timeout(false)
+	}
 	err := w.bw.Flush()
 	if err != nil {
 		w.setError(err)
-- 
2.43.0


From ecaf9eaeb96c93d5d8cf37983c91c9c28c712381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 06/47] fix: lineproto: allow closing a writer more than once

---
 lineproto/writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 9738ec6..310fa15 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -65,6 +65,9 @@ func (w *Writer) Err() error {
 
 // Close flushes the writer and frees its resources. It won't close the underlying writer.
 func (w *Writer) Close() error {
+	if w.bw == nil {
+		return nil // already closed
+	}
 	last := w.flushClose()
 	if w.err == nil {
 		w.err = errWriterClosed
-- 
2.43.0


From 31755852d76d57acad4cfbb09520b95da0256676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 07/47] fix: lineproto: do not mark compression as active when
 it could not be enabled

---
 lineproto/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineproto/writer.go b/lineproto/writer.go
index 310fa15..daff103 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -114,7 +114,6 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	if err := w.Flush(); err != nil {
 		return err
 	}
-	w.zlibOn = true
 	if w.zlibW == nil || w.zlibLvl != lvl {
 		z, err := zlib.NewWriterLevel(w.w, lvl)
 		if err != nil {
@@ -125,6 +124,7 @@ func (w *Writer) EnableZlibLevel(lvl int) error {
 	} else {
 		w.zlibW.Reset(w.w)
 	}
+	w.zlibOn = true
 	w.cur = w.zlibW
 	w.bw.Reset(w.cur)
 	return nil
-- 
2.43.0


From 1e302e1c36c9cb4cec7c508205d773150a7c2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 08/47] fix: nmdc: do not let a dropped or ignored message
 decide the type of the next one

---
 nmdc/reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 5cc36e3..05c2dda 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -147,8 +147,10 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
+	first := *ptr
 read:
 	for {
+		*ptr = first // a dropped message must not affect the next one
 		line, err := r.ReadLine()
 		if err != nil {
 			return err
-- 
2.43.0


From 1754ea48a58b94a98b0573b62c73eb9e35f12484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 09/47] fix: nmdc: copy the received payload into unexpected
 command errors

---
 nmdc/reader.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index 05c2dda..c49d113 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -145,6 +145,11 @@ func (r *Reader) ReadMsgToAny(arr ...Message) (Message, error) {
 	return m, nil
 }
 
+// copyBytes makes a copy of the data that stays valid after the next read.
+func copyBytes(p []byte) []byte {
+	return append([]byte{}, p...)
+}
+
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
 	dec := r.Decoder()
 	first := *ptr
@@ -222,7 +227,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Typ: typ, Data: args,
+							Typ: typ, Data: copyBytes(args),
 						},
 					}
 				}
@@ -235,14 +240,14 @@ read:
 				return &ErrUnexpectedCommand{
 					Expected: "", // chat
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: copyBytes(args),
 					},
 				}
 			} else if out.Type() != typ {
 				return &ErrUnexpectedCommand{
 					Expected: out.Type(),
 					Received: &RawMessage{
-						Typ: typ, Data: args,
+						Typ: typ, Data: copyBytes(args),
 					},
 				}
 			}
@@ -272,7 +277,7 @@ read:
 					return &ErrUnexpectedCommand{
 						Expected: allowed[0].Type(),
 						Received: &RawMessage{
-							Data: args,
+							Data: copyBytes(args),
 						},
 					}
 				}
@@ -285,7 +290,7 @@ read:
 					Expected: out.Type(),
 					Received: &RawMessage{
 						// chat
-						Data: args,
+						Data: copyBytes(args),
 					},
 				}
 			}
-- 
2.43.0


From 38481d217bf713b6350803f108ffe10c5a74ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 10/47] fix: nmdc: when a hook drops one message of a batch,
 still write the others

---
 nmdc/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nmdc/writer.go b/nmdc/writer.go
index 0f9d1b7..17c5746 100644
--- a/nmdc/writer.go
+++ b/nmdc/writer.go
@@ -65,10 +65,13 @@ func (w *Writer) WriteMsg(msg ...Message) error {
 		return err
 	}
 	enc := w.Encoder()
+write:
 	for _, m := range msg {
 		for _, fnc := range w.onMessage {
-			if ok, err := fnc(m); err != nil || !ok {
+			if ok, err := fnc(m); err != nil {
 				return err
+			} else if !ok {
+				continue write // drop
 			}
 		}
 		w.mbuf.Reset()
-- 
2.43.0


From cd739e89e10d643483206a902b0dc7c9b2578a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 11/47] fix: nmdc: do not overwrite the preceding byte when
 encoding an empty chat message

---
 nmdc/message.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nmdc/message.go b/nmdc/message.go
index 851e3f8..5a65a77 100644
--- a/nmdc/message.go
+++ b/nmdc/message.go
@@ -116,7 +116,8 @@ func (m *RawMessage) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
 // MarshalTo encodes NMDC message into a buffer. It will write a command name,
 // a payload and '|' delimiter.
 func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
-	if typ := m.Type(); typ != "" {
+	typ := m.Type()
+	if typ != "" {
 		buf.Grow(1 + len(typ) + 2)
 		buf.WriteByte('$')
 		buf.WriteString(typ)
@@ -126,7 +127,7 @@ func MarshalTo(enc *TextEncoder, buf *bytes.Buffer, m Message) error {
 	if err := m.MarshalNMDC(enc, buf); err != nil {
 		return err
 	}
-	if n == buf.Len() {
+	if typ != "" && n == buf.Len() {
 		// no payload
 		buf.Bytes()[n-1] = Delimiter // ' ' -> '|'
 		return nil
-- 
2.43.0


From 00da9e0f4c6b47176edbde8c93f9ad56eb5d5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 12/47] fix: tiger: fill whole blocks when a reader returns
 less than requested

---
 tiger/tth.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiger/tth.go b/tiger/tth.go
index 2ce7abe..e7e404a 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -8,13 +8,23 @@ const tthBlock = 1024
 // the single parts of a certain file.
 type Leaves []Hash
 
+// readBlock reads until the block is full or the reader returns an error.
+func readBlock(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nn int
+		nn, err = r.Read(buf[n:])
+		n += nn
+	}
+	return n, err
+}
+
 // TreeLeaves computes the TTH leaves of a reader.
 func TreeLeaves(r io.Reader) (lvl Leaves, err error) {
 	buf := make([]byte, tthBlock+1)
 	var n int
 
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
@@ -62,7 +72,7 @@ func TreeHash(r io.Reader) (root Hash, err error) {
 	)
 	buf := make([]byte, tthBlock+1)
 	for err != io.EOF {
-		n, err = r.Read(buf[1:])
+		n, err = readBlock(r, buf[1:])
 		if err != nil && err != io.EOF {
 			return
 		}
-- 
2.43.0


From 2cc08b0bb9591b3f322e4b6e4bd11159dd53e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 13/47] fix: tiger: report too long base32 hashes instead of
 panicking

---
 tiger/tiger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiger/tiger.go b/tiger/tiger.go
index 79309ab..34fd09b 100644
--- a/tiger/tiger.go
+++ b/tiger/tiger.go
@@ -80,6 +80,9 @@ func (h Hash) MarshalBase32(buf []byte) error {
 
 // UnmarshalBase32 decodes the hash from a given buffer.
 func (h *Hash) UnmarshalBase32(buf []byte) error {
+	if n := base32Enc.DecodedLen(len(buf)); n > Size {
+		return fmt.Errorf("wrong base32 encoded size: %d vs %d", n, Size)
+	}
 	n, err := base32Enc.Decode((*h)[:], buf)
 	if err != nil {
 		return err
-- 
2.43.0


From a17ecefa7696cfed9551ad104b18da1bf279c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 14/47] fix: adc: report missing positional fields instead of
 panicking

---
 adc/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adc/marshal.go b/adc/marshal.go
index b30e546..2f744dc 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -117,6 +117,9 @@ func Unmarshal(s []byte, o interface{}) error {
 		if tag == "" || tag == "-" {
 			continue
 		} else if tag == "#" {
+			if len(sub) == 0 {
+				return fmt.Errorf("error on field %s: no value", fld.Name)
+			}
 			v := sub[0]
 			sub = sub[1:]
 			if err := unmarshalValue(v, rv.Field(i)); err != nil {
-- 
2.43.0


From da4444d73bb75f750c61ebdccb9a4cb192e80a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 15/47] fix: adc: decode the flag value 0 as false

---
 adc/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 2f744dc..8b76c59 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -89,7 +89,7 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		} else if len(s) != 1 {
 			return errors.New("invalid bool value: " + string(s))
 		}
-		rv.SetBool(s[0] != 0)
+		rv.SetBool(s[0] != '0')
 		return nil
 	}
 	return fmt.Errorf("unknown type: %v", rv.Type())
-- 
2.43.0


From 2f3ac37ddb44beab388838257f0731ea6cf82870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 16/47] fix: adc: unescape the values of generic fields

---
 adc/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/messages.go b/adc/messages.go
index 953e680..156b8b0 100644
--- a/adc/messages.go
+++ b/adc/messages.go
@@ -141,7 +141,7 @@ func (f *Fields) UnmarshalADC(data []byte) error {
 		if err := s.UnmarshalADC(v); err != nil {
 			return fmt.Errorf("cannot unmarshal field %s: %v", string(k[:]), err)
 		}
-		mp = append(mp, Field{Tag: k, Value: string(v)})
+		mp = append(mp, Field{Tag: k, Value: string(s)})
 	}
 	*f = mp
 	return nil
-- 
2.43.0


From 67303c091a4b7204a2b20a2b17cfe5923c1b126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:02 +0000
Subject: [PATCH 17/47] fix: adc: read the whole private id from the random
 source

---
 adc/types/types.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adc/types/types.go b/adc/types/types.go
index ad0a6c5..d019eac 100644
--- a/adc/types/types.go
+++ b/adc/types/types.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	"encoding"
 	"fmt"
+	"io"
 
 	"github.com/direct-connect/go-dc/tiger"
 )
@@ -147,6 +148,6 @@ type PID = CID
 
 // NewPID generates a new Private ID using a cryptographic random source.
 func NewPID() (id PID, err error) {
-	_, err = rand.Reader.Read(id[:])
+	_, err = io.ReadFull(rand.Reader, id[:])
 	return
 }
-- 
2.43.0


From c2c2f98a525422376d8d3bdeb6b3681a984a3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 18/47] fix: nmdc: use the decoded text for the path of a
 search result

---
 nmdc/msg_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 972e42f..13bf9fa 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -359,7 +359,7 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if err := spath.UnmarshalNMDC(dec, path); err != nil {
 		return err
 	}
-	m.Path = strings.Split(string(path), "\\")
+	m.Path = strings.Split(string(spath), "\\")
 
 	i = bytes.IndexByte(slots, '/')
 	if i < 0 {
-- 
2.43.0


From 63376dbfd9dc1619ca85e58eba0927a5bb3ef0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 19/47] fix: nmdc: do not turn escaped dollar signs of a search
 pattern into spaces

---
 nmdc/msg_search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 13bf9fa..086c7e2 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -192,12 +192,14 @@ func (m *Search) unmarshalString(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
+		// '$' stands for a space, while a literal '$' is escaped
+		field = bytes.Replace(field, []byte("$"), []byte(" "), -1)
 		var str String
 		err := str.UnmarshalNMDC(dec, field)
 		if err != nil {
 			return err
 		}
-		m.Pattern = strings.Replace(string(str), "$", " ", -1)
+		m.Pattern = string(str)
 	}
 	return nil
 }
-- 
2.43.0


From 7eb6b45ade0b8d444414ab80569fe97e2f34d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 20/47] fix: adc: report a short feature selector instead of
 panicking

---
 adc/packets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index e451eb5..3a686f0 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -693,7 +693,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	for i := 0; i < len(data); i++ {
 		if data[i] == '+' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
@@ -701,7 +701,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			i += 4
 		} else if data[i] == '-' {
 			if f := data[i:]; len(f) < 5 {
-				return fmt.Errorf("short feature: '%s'", string(data[i:i+5]))
+				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
 			copy(fea[:], data[i+1:i+5])
-- 
2.43.0


From 7baf08b7df774482703837b5a5bd5d51c57ccb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 21/47] fix: adc: do not accept the packet delimiter as a part
 of a session id

---
 adc/packets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 3a686f0..19b1576 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -313,7 +313,7 @@ func (p *BroadcastPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *BroadcastPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return errors.New("short broadcast command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -408,7 +408,7 @@ func (p *DirectPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *DirectPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short direct command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -504,7 +504,7 @@ func (p *EchoPacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *EchoPacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 9 {
+	if len(data) < 10 {
 		return fmt.Errorf("short echo command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
@@ -673,7 +673,7 @@ func (p *FeaturePacket) MarshalPacketADC(buf *bytes.Buffer) error {
 }
 
 func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
-	if len(data) < 4 {
+	if len(data) < 5 {
 		return fmt.Errorf("short feature command")
 	} else if data[len(data)-1] != lineDelim {
 		return errors.New("invalid packet delimiter")
-- 
2.43.0


From be2ff22e9adc520ae2ece16bbb0dab2232e0a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 22/47] fix: nmdc: do not panic when responding to a lock that
 is too short

---
 nmdc/msg_lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_lock.go b/nmdc/msg_lock.go
index 3ba3587..1157df6 100644
--- a/nmdc/msg_lock.go
+++ b/nmdc/msg_lock.go
@@ -108,6 +108,10 @@ func (m *Lock) CustomKey(magic byte, full bool) *Key {
 	lock := []byte(m.LockString(full))
 
 	n := len(lock)
+	if n < 2 {
+		// too short to calculate a response
+		return &Key{}
+	}
 	key := make([]byte, n)
 
 	key[0] = byte((lock[0] ^ lock[n-1] ^ lock[n-2] ^ magic) & 0xFF)
-- 
2.43.0


From e91321688cbea097a234a63803533b30a879f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 23/47] fix: nmdc: do not cut a chat name that ends the message

The end of the name was computed relative to the previous '>' character.
---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 25112d9..7f0ebf3 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -77,7 +77,7 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 				break
 			}
 			if base+j == len(data)-1 {
-				i = j
+				i = base + j
 				off = 1
 				break
 			}
-- 
2.43.0


From dab487ff9db42ea20eeb7e10d09a3576a84838e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 24/47] fix: nmdc: report text in an unknown encoding for all
 fields

The identifier of ADCGET and ADCSND and the path of UserCommand hid the error,
so the unknown encoding hook was not called for them. The path is split after
it is decoded: a backslash byte may be a part of a multi-byte character.
---
 nmdc/msg_chat.go  | 17 ++++++++---------
 nmdc/msg_files.go |  4 ++--
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 7f0ebf3..486b88c 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -325,22 +326,20 @@ func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	if i < 1 {
 		return fmt.Errorf("invalid raw user command: %q", string(data))
 	}
-	path := bytes.TrimRight(val[:i], " ")
-	sub := bytes.Split(path, []byte("\\"))
+	var s String
+	if err := s.UnmarshalNMDC(dec, bytes.TrimRight(val[:i], " ")); err != nil {
+		return err
+	}
+	sub := strings.Split(string(s), "\\")
 	m.Path = make([]string, 0, len(sub))
 	for _, p := range sub {
 		if len(p) == 0 {
 			continue
 		}
-		var s String
-		err := s.UnmarshalNMDC(dec, p)
-		if err != nil {
-			return errors.New("invalid path user command")
-		}
-		m.Path = append(m.Path, string(s))
+		m.Path = append(m.Path, p)
 	}
 
-	var s String
+	s = ""
 	if err := s.UnmarshalNMDC(dec, val[i+1:]); err != nil {
 		return err
 	}
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 3bb3432..d9f5f13 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -67,7 +67,7 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCGet: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
@@ -170,7 +170,7 @@ func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	}
 	identifier, data := data[:i], data[i+1:]
 	if err := m.Identifier.UnmarshalNMDC(dec, identifier); err != nil {
-		return errors.New("ADCSnd: unable to parse field 2")
+		return err
 	}
 
 	i = bytes.IndexByte(data, ' ')
-- 
2.43.0


From f4d05caa63846f3d08337962506aae119b190fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 25/47] fix: nmdc: decode empty FailOver and UserIP lists as
 empty

They were decoded as lists with a single empty entry.
---
 nmdc/msg_hub.go       | 4 ++++
 nmdc/msg_user_list.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/nmdc/msg_hub.go b/nmdc/msg_hub.go
index 935f1cd..913947d 100644
--- a/nmdc/msg_hub.go
+++ b/nmdc/msg_hub.go
@@ -96,6 +96,10 @@ func (m *FailOver) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *FailOver) UnmarshalNMDC(_ *TextDecoder, data []byte) error {
+	if len(data) == 0 {
+		m.Host = nil
+		return nil
+	}
 	hosts := bytes.Split(data, []byte(","))
 	m.Host = make([]string, 0, len(hosts))
 	for _, host := range hosts {
diff --git a/nmdc/msg_user_list.go b/nmdc/msg_user_list.go
index 85b0306..1f0ed26 100644
--- a/nmdc/msg_user_list.go
+++ b/nmdc/msg_user_list.go
@@ -110,6 +110,10 @@ func (m *UserIP) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 func (m *UserIP) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	data = bytes.TrimSuffix(data, []byte("\r"))
 	data = bytes.TrimSuffix(data, []byte("$$"))
+	if len(data) == 0 {
+		m.List = nil
+		return nil
+	}
 	sub := bytes.Split(data, []byte("$$"))
 	m.List = make([]UserAddress, 0, len(sub))
 	for _, s := range sub {
-- 
2.43.0


From 047fcfe164b3780bb2618f471a9767ae41e793b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 26/47] fix: nmdc: decode the placeholder of an unknown user
 mode in a tag

An unknown mode is written as a space, but it was not read back as unknown.
---
 nmdc/msg_user.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index 8579128..d6632d6 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -341,7 +341,7 @@ func (m *MyINFO) unmarshalTag(tag []byte) error {
 		case 'V':
 			m.Client.Version = string(val)
 		case 'M':
-			if len(val) == 1 {
+			if len(val) == 1 && val[0] != ' ' {
 				m.Mode = UserMode(val[0])
 			} else {
 				m.Mode = UserModeUnknown
-- 
2.43.0


From 949a94ebe411c81fd0c7d0ba91764d661fe7481b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 27/47] fix: nmdc: reset optional fields when decoding into a
 reused message

ReadMsgTo and ReadMsgToAny decode into the same message again when a hook
dropped the previous one, and callers may reuse a message as well. Optional
fields that are missing from the second message kept the values of the first.
---
 nmdc/msg_chat.go   | 2 ++
 nmdc/msg_ctm.go    | 1 +
 nmdc/msg_errors.go | 2 ++
 nmdc/msg_files.go  | 2 ++
 nmdc/msg_ping.go   | 1 +
 nmdc/msg_search.go | 2 ++
 nmdc/msg_user.go   | 1 +
 7 files changed, 11 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 486b88c..3a7c599 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -50,6 +50,7 @@ func (m *ChatMessage) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ChatMessage{}
 	// <user> message text|
 	// or
 	// message text|
@@ -296,6 +297,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = UserCommand{}
 	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
diff --git a/nmdc/msg_ctm.go b/nmdc/msg_ctm.go
index a5711cf..601ad39 100644
--- a/nmdc/msg_ctm.go
+++ b/nmdc/msg_ctm.go
@@ -70,6 +70,7 @@ func (m *ConnectToMe) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ConnectToMe) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ConnectToMe{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid ConnectToMe command")
diff --git a/nmdc/msg_errors.go b/nmdc/msg_errors.go
index b4ca982..f9e3f88 100644
--- a/nmdc/msg_errors.go
+++ b/nmdc/msg_errors.go
@@ -29,6 +29,7 @@ func (m *Failed) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Failed) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Failed{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
@@ -58,6 +59,7 @@ func (m *Error) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Error) UnmarshalNMDC(dec *TextDecoder, text []byte) error {
+	*m = Error{}
 	var str String
 	if err := str.UnmarshalNMDC(dec, text); err != nil {
 		return err
diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index d9f5f13..65b6f67 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -52,6 +52,7 @@ func (m *ADCGet) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCGet{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCGet: missing separator after field 'ContentType'")
@@ -155,6 +156,7 @@ func (m *ADCSnd) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *ADCSnd) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = ADCSnd{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("ADCSnd: missing separator after field 1")
diff --git a/nmdc/msg_ping.go b/nmdc/msg_ping.go
index cb05964..33da759 100644
--- a/nmdc/msg_ping.go
+++ b/nmdc/msg_ping.go
@@ -108,6 +108,7 @@ func (m *HubINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *HubINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = HubINFO{}
 	fields := bytes.SplitN(data, []byte("$"), 13)
 	for i, field := range fields {
 		switch i {
diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 086c7e2..66b8ab2 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -106,6 +106,7 @@ func (m *Search) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *Search) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = Search{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid search command")
@@ -291,6 +292,7 @@ func (m *SR) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = SR{}
 	i := bytes.IndexByte(data, ' ')
 	if i < 0 {
 		return errors.New("invalid SR command: missing name")
diff --git a/nmdc/msg_user.go b/nmdc/msg_user.go
index d6632d6..f591360 100644
--- a/nmdc/msg_user.go
+++ b/nmdc/msg_user.go
@@ -193,6 +193,7 @@ func (m *MyINFO) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 }
 
 func (m *MyINFO) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
+	*m = MyINFO{}
 	const infoPref = "$ALL "
 	if !bytes.HasPrefix(data, []byte(infoPref)) {
 		return errors.New("invalid info command: wrong prefix")
-- 
2.43.0


From 77709b72e91e10566f6acfedded06f735735a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 28/47] fix: nmdc: do not panic when encoding an empty list of
 extensions

Buffer.Grow was called with a negative size.
---
 nmdc/extensions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nmdc/extensions.go b/nmdc/extensions.go
index 23bec78..f612eb5 100644
--- a/nmdc/extensions.go
+++ b/nmdc/extensions.go
@@ -43,6 +43,9 @@ func (m *Supports) Intersect(m2 *Supports) Supports {
 }
 
 func (m *Supports) MarshalNMDC(_ *TextEncoder, buf *bytes.Buffer) error {
+	if len(m.Ext) == 0 {
+		return nil
+	}
 	n := len(m.Ext) - 1
 	for _, ext := range m.Ext {
 		n += len(ext)
-- 
2.43.0


From 6ec3f14638a815fe4e7054ebfe4c8782debc354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 29/47] fix: nmdc: use the current decoder for each message

It was loaded once per read call, so a decoder set by a hook of a dropped
message or a keep-alive, or while the read was waiting for data, was not used
for the next message.
---
 nmdc/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/reader.go b/nmdc/reader.go
index c49d113..964b53e 100644
--- a/nmdc/reader.go
+++ b/nmdc/reader.go
@@ -151,7 +151,6 @@ func copyBytes(p []byte) []byte {
 }
 
 func (r *Reader) readMsgTo(ptr *Message, allowed ...Message) error {
-	dec := r.Decoder()
 	first := *ptr
 read:
 	for {
@@ -295,6 +294,7 @@ read:
 				}
 			}
 		}
+		dec := r.Decoder()
 		err = out.UnmarshalNMDC(dec, args)
 		if r.OnUnknownEncoding != nil {
 			if e, ok := err.(*errUnknownEncoding); ok {
-- 
2.43.0


From b41ab141d7228cc08500f1f93ff12b6dfdfcb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 30/47] fix: nmdc: report a chat message that ends right after
 the name is opened

It was decoded as an empty message.
---
 nmdc/msg_chat.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 3a7c599..5698a5b 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -56,6 +56,11 @@ func (m *ChatMessage) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	// message text|
 	if len(data) != 0 && data[0] == '<' {
 		data = data[1:]
+		if len(data) == 0 {
+			return &ErrProtocolViolation{
+				Err: errors.New("name in chat message should have a closing token"),
+			}
+		}
 		var (
 			i    int // index where name ends
 			off  = 0 // space between the name and the message
-- 
2.43.0


From 11e937cde0b6c6af66c911e1d011d015b6ce4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 31/47] fix: adc: report numbers that are not integers instead
 of dropping them

---
 adc/marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 8b76c59..0ee6b04 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -62,8 +62,8 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 			vf, err2 := strconv.ParseFloat(sv, bits)
 			if err2 != nil {
 				return err
-			} else if math.Round(vf) != vf {
-				return err2
+			} else if math.Round(vf) != vf || math.Abs(vf) >= math.MaxInt64 {
+				return err
 			}
 			vi = int64(vf)
 		}
-- 
2.43.0


From ef574468143ca9a6ba25c75d71ca8aef7156e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 32/47] fix: adc: do not accept a session id with a separator
 in it

---
 adc/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adc/types/types.go b/adc/types/types.go
index d019eac..3cc462e 100644
--- a/adc/types/types.go
+++ b/adc/types/types.go
@@ -46,7 +46,7 @@ func (id SID) MarshalADC(buf *bytes.Buffer) error {
 
 // UnmarshalADC implements adc.Unmarshaler.
 func (id *SID) UnmarshalADC(s []byte) error {
-	if len(s) != 4 {
+	if len(s) != 4 || bytes.IndexByte(s, ' ') >= 0 {
 		return fmt.Errorf("wrong SID format: %q", s)
 	}
 	var buf [4]byte
-- 
2.43.0


From ba262150f7906093886f5afe9f079fc6f98ebcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 33/47] fix: adc: report malformed feature selectors

---
 adc/packets.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/adc/packets.go b/adc/packets.go
index 19b1576..24a82d4 100644
--- a/adc/packets.go
+++ b/adc/packets.go
@@ -692,7 +692,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 	p.Sel = make([]FeatureSel, 0, len(data)/5)
 	for i := 0; i < len(data); i++ {
 		if data[i] == '+' {
-			if f := data[i:]; len(f) < 5 {
+			if f := data[i:]; len(f) < 5 || bytes.IndexByte(f[:5], ' ') >= 0 {
 				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
@@ -700,7 +700,7 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			p.Sel = append(p.Sel, FeatureSel{Fea: fea, Sel: true})
 			i += 4
 		} else if data[i] == '-' {
-			if f := data[i:]; len(f) < 5 {
+			if f := data[i:]; len(f) < 5 || bytes.IndexByte(f[:5], ' ') >= 0 {
 				return fmt.Errorf("short feature: '%s'", string(f))
 			}
 			var fea Feature
@@ -711,6 +711,9 @@ func (p *FeaturePacket) UnmarshalPacketADC(name MsgType, data []byte) error {
 			data = data[i:]
 			i = 0
 		} else {
+			if i > 0 && data[i-1] != ' ' {
+				return fmt.Errorf("separator expected after a feature: '%s'", string(data[:i+1]))
+			}
 			data = data[i:]
 			break
 		}
-- 
2.43.0


From 1ffa4327c08e5496abae405fc1c16cff4ec42a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 34/47] fix: lineproto: do not let a huge binary section length
 become negative

---
 lineproto/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 762b924..16d78db 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 )
 
 const (
@@ -288,6 +289,9 @@ func (r *Reader) Binary(sz uint64) (io.ReadCloser, error) {
 	if r.original == nil {
 		return nil, errReaderClosed
 	}
+	if sz > math.MaxInt64 {
+		sz = math.MaxInt64 // must not become a negative limit
+	}
 	return &binaryReader{r: io.LimitReader(r, int64(sz))}, nil
 }
 
-- 
2.43.0


From 156be130c1b9f9fdfad09710793d9771bc7d26dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 35/47] fix: nmdc: do not keep the line buffer in an unknown
 encoding error

---
 nmdc/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nmdc/types.go b/nmdc/types.go
index c893cc8..3a75dfa 100644
--- a/nmdc/types.go
+++ b/nmdc/types.go
@@ -112,7 +112,7 @@ func (s *Name) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 	}
 	if !utf8.Valid(data) {
-		return &errUnknownEncoding{text: data}
+		return &errUnknownEncoding{text: copyBytes(data)}
 	}
 	*s = Name(data)
 	return nil
@@ -146,7 +146,7 @@ func (s *String) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		}
 	}
 	if !utf8.Valid(data) {
-		return &errUnknownEncoding{text: data}
+		return &errUnknownEncoding{text: copyBytes(data)}
 	}
 	*s = String(data)
 	return nil
-- 
2.43.0


From 2ddad802091e8a0650b9978332d32b28c08dfd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 36/47] fix: tlskp: accept only keyprints the peer has proven
 to belong to it

---
 keyprint/tlskp/tlskp.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/keyprint/tlskp/tlskp.go b/keyprint/tlskp/tlskp.go
index aae8422..2f06563 100644
--- a/keyprint/tlskp/tlskp.go
+++ b/keyprint/tlskp/tlskp.go
@@ -18,7 +18,10 @@ func (e *ErrInvalidKeyPrint) Error() string {
 
 // GetKeyPrints returns keyprints of all certificates provided by a peer on a given TLS connection.
 func GetKeyPrints(c *tls.Conn) []string {
-	st := c.ConnectionState()
+	return getKeyPrints(c.ConnectionState())
+}
+
+func getKeyPrints(st tls.ConnectionState) []string {
 	kps := make([]string, 0, len(st.PeerCertificates))
 	for _, cr := range st.PeerCertificates {
 		v := keyprint.FromBytes(cr.Raw)
@@ -27,13 +30,22 @@ func GetKeyPrints(c *tls.Conn) []string {
 	return kps
 }
 
-// VerifyKeyPrint checks if a given keyprint matches any certificates provided by the peer on a given TLS connection.
+// VerifyKeyPrint checks if a given keyprint matches the certificate of the peer on a given TLS connection,
+// or one of the certificates provided by the peer that lead from it to its issuer. The peer only proves that
+// it owns the first certificate, so certificates that did not issue it are ignored.
+// The TLS handshake must be completed, otherwise the peer has proven nothing yet.
 // It also returns all keyprints for peer certificates.
 func VerifyKeyPrint(c *tls.Conn, kp string) ([]string, error) {
-	kps := GetKeyPrints(c)
-	for _, k := range kps {
-		if k == kp {
-			return kps, nil
+	st := c.ConnectionState()
+	kps := getKeyPrints(st)
+	if st.HandshakeComplete {
+		for i, k := range kps {
+			if i > 0 && st.PeerCertificates[i-1].CheckSignatureFrom(st.PeerCertificates[i]) != nil {
+				break
+			}
+			if k == kp {
+				return kps, nil
+			}
 		}
 	}
 	return kps, &ErrInvalidKeyPrint{Expected: kp, Actual: kps}
-- 
2.43.0


From 729adf42e09a22f9c40b969d2b09b3a1ce43c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 37/47] fix: dc: do not take NMDC addresses that begin with adc
 for ADC ones

The scheme of an address was told by the first three letters, so the hub
adchub.example.org was refused as an unknown protocol, and so was an ADC
address with its scheme in another case.
---
 conn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 877da6c..fc86d9e 100644
--- a/conn.go
+++ b/conn.go
@@ -8,9 +8,15 @@ import (
 	"github.com/direct-connect/go-dc/nmdc"
 )
 
+// isADC checks if the address has a scheme of the ADC protocol.
+func isADC(addr string) bool {
+	i := strings.Index(addr, "://")
+	return i >= 0 && (strings.EqualFold(addr[:i], adc.SchemaADC) || strings.EqualFold(addr[:i], adc.SchemaADCS))
+}
+
 // ParseAddr parses an DC address as a URL.
 func ParseAddr(addr string) (*url.URL, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.ParseAddr(addr)
 	}
 	return nmdc.ParseAddr(addr)
@@ -18,7 +24,7 @@ func ParseAddr(addr string) (*url.URL, error) {
 
 // NormalizeAddr parses and normalizes the address to scheme://host[:port] format.
 func NormalizeAddr(addr string) (string, error) {
-	if strings.HasPrefix(addr, adc.SchemaADC) {
+	if isADC(addr) {
 		return adc.NormalizeAddr(addr)
 	}
 	return nmdc.NormalizeAddr(addr)
-- 
2.43.0


From 01827c3cc9866c808916b1865be426d5be0df1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 38/47] fix: adc: do not append to the previous path when
 decoding into a reused message

---
 adc/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/adc/types.go b/adc/types.go
index 086701b..de6e19b 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -289,12 +289,14 @@ func (p Path) MarshalADC(buf *bytes.Buffer) error {
 
 func (p *Path) UnmarshalADC(data []byte) error {
 	arr := bytes.Split(data, []byte("/"))
+	list := make(Path, 0, len(arr))
 	for _, a := range arr {
 		var path String
 		if err := path.UnmarshalADC(a); err != nil {
 			return err
 		}
-		*p = append(*p, string(path))
+		list = append(list, string(path))
 	}
+	*p = list
 	return nil
 }
-- 
2.43.0


From 014b725e001a70fb9b6a55ee9a488196d843caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 39/47] fix: adc: let an empty feature list clear the previous
 one

---
 adc/types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adc/types.go b/adc/types.go
index de6e19b..d91b5f0 100644
--- a/adc/types.go
+++ b/adc/types.go
@@ -226,6 +226,7 @@ func (f ExtFeatures) MarshalADC(buf *bytes.Buffer) error {
 
 func (f *ExtFeatures) UnmarshalADC(s []byte) error {
 	if len(s) < 1 {
+		*f = nil
 		return nil
 	}
 	sub := bytes.Split(s, []byte(","))
-- 
2.43.0


From 46c0a0f2a04528485331f5f95ae93e8b085c4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 40/47] fix: adc: reset the compression flag when decoding into
 a reused GET or SND

---
 adc/files.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/adc/files.go b/adc/files.go
index 9959464..ea0d633 100644
--- a/adc/files.go
+++ b/adc/files.go
@@ -94,6 +94,7 @@ func (m *GetRequest) UnmarshalADC(data []byte) error {
 		return errors.New("ADCGET: unable to parse field 4")
 	}
 
+	m.Compressed = false
 	if len(data) > 0 {
 		if !bytes.Equal(data, []byte("ZL1")) {
 			return errors.New("ADCGET: invalid field 5")
-- 
2.43.0


From cc044c80ec2f63fe8a81af197bcbc16d736f111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 41/47] fix: adc: reject numbers that do not fit the field
 instead of truncating them

---
 adc/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/adc/marshal.go b/adc/marshal.go
index 0ee6b04..877b66b 100644
--- a/adc/marshal.go
+++ b/adc/marshal.go
@@ -59,7 +59,7 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 		sv := string(s)
 		vi, err := strconv.ParseInt(sv, 10, bits)
 		if err != nil {
-			vf, err2 := strconv.ParseFloat(sv, bits)
+			vf, err2 := strconv.ParseFloat(sv, 64)
 			if err2 != nil {
 				return err
 			} else if math.Round(vf) != vf || math.Abs(vf) >= math.MaxInt64 {
@@ -67,6 +67,9 @@ func unmarshalValue(s []byte, rv reflect.Value) error {
 			}
 			vi = int64(vf)
 		}
+		if rv.OverflowInt(vi) {
+			return fmt.Errorf("value out of range: %s", sv)
+		}
 		rv.SetInt(vi)
 		return nil
 	case reflect.String:
-- 
2.43.0


From 33f4e34e436b90a26075fedc0cf6a325e6628d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 42/47] fix: nmdc: reject an ADCGET length that does not fit
 instead of making it negative

---
 nmdc/msg_files.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmdc/msg_files.go b/nmdc/msg_files.go
index 65b6f67..ff85779 100644
--- a/nmdc/msg_files.go
+++ b/nmdc/msg_files.go
@@ -3,6 +3,7 @@ package nmdc
 import (
 	"bytes"
 	"errors"
+	"math"
 	"strconv"
 )
 
@@ -96,6 +97,9 @@ func (m *ADCGet) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 		if err != nil {
 			return errors.New("ADCGet: unable to parse field 'Lenght'")
 		}
+		if lengthNum > math.MaxInt64 {
+			return errors.New("ADCGet: field 'Length' is out of range")
+		}
 		m.Length = int64(lengthNum)
 	}
 
-- 
2.43.0


From 71e407cf285c1f609f7b392384ec2ac8ea7bf100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 43/47] fix: tiger: do not panic when computing the root of an
 empty list of leaves

---
 tiger/tth.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiger/tth.go b/tiger/tth.go
index e7e404a..9a9c7a7 100644
--- a/tiger/tth.go
+++ b/tiger/tth.go
@@ -61,6 +61,9 @@ func (in Leaves) TreeHash() Hash {
 		}
 		lvl = lvl[:n]
 	}
+	if len(lvl) == 0 {
+		return Hash{} // even an empty file has a leaf
+	}
 	return lvl[0]
 }
 
-- 
2.43.0


From e7899454369688f13960ca7d5d7379fab5fe51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 44/47] fix: nmdc: take the last brackets of a search result
 for the hub address

---
 nmdc/msg_search.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_search.go b/nmdc/msg_search.go
index 66b8ab2..968d3e0 100644
--- a/nmdc/msg_search.go
+++ b/nmdc/msg_search.go
@@ -392,7 +392,12 @@ func (m *SR) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 			return err
 		}
 	} else {
-		i = bytes.Index(data, []byte(" ("))
+		// the hub name may contain brackets, the last ones belong to the address
+		head := data
+		if j := bytes.IndexByte(head, srSep); j >= 0 {
+			head = head[:j]
+		}
+		i = bytes.LastIndex(head, []byte(" ("))
 		if i < 0 {
 			return errors.New("invalid SR command: missing TTH or hub name")
 		}
-- 
2.43.0


From 51cbbc128c1f7e626fd4663e2ad16e62fc05ace5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 45/47] fix: nmdc: keep the spaces at the end of a user command

---
 nmdc/msg_chat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 5698a5b..4c435aa 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -303,7 +303,11 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 
 func (m *UserCommand) UnmarshalNMDC(dec *TextDecoder, data []byte) error {
 	*m = UserCommand{}
-	arr := bytes.SplitN(bytes.TrimSpace(data), []byte(" "), 3)
+	// spaces at the end belong to the command, if there is one
+	arr := bytes.SplitN(bytes.TrimLeftFunc(data, unicode.IsSpace), []byte(" "), 3)
+	if len(arr) == 3 && len(bytes.TrimSpace(arr[2])) == 0 {
+		arr = arr[:2]
+	}
 	if len(arr) < 2 {
 		return errors.New("invalid user command")
 	}
-- 
2.43.0


From df9b8e316519506d3b6e9a072b507e86386cda21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:52 +0000
Subject: [PATCH 46/47] fix: nmdc: write the separator of a user command
 without a command

---
 nmdc/msg_chat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmdc/msg_chat.go b/nmdc/msg_chat.go
index 4c435aa..b117baf 100644
--- a/nmdc/msg_chat.go
+++ b/nmdc/msg_chat.go
@@ -291,7 +291,7 @@ func (m *UserCommand) MarshalNMDC(enc *TextEncoder, buf *bytes.Buffer) error {
 	} else {
 		buf.Write(bi)
 	}
-	if m.Command == "" {
+	if m.Command == "" && len(m.Path) == 0 {
 		return nil
 	}
 	buf.WriteString(" $")
-- 
2.43.0


From 386c96902e11f76a75d9af828edc3fccdd0dd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:17 +0000
Subject: [PATCH 47/47] fix: lineproto: closing the reader or the writer in one
 of its line hooks must not panic

---
 lineproto/reader.go | 3 +++
 lineproto/writer.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lineproto/reader.go b/lineproto/reader.go
index 16d78db..6d23c17 100644
--- a/lineproto/reader.go
+++ b/lineproto/reader.go
@@ -220,6 +220,9 @@ read:
 				return nil, err
 			} else if !ok {
 				// hook commands to drop the message
+				if r.original == nil {
+					return nil, errReaderClosed // closed by the hook
+				}
 				r.line = r.line[:0]
 				continue read
 			}
diff --git a/lineproto/writer.go b/lineproto/writer.go
index daff103..d58bdd8 100644
--- a/lineproto/writer.go
+++ b/lineproto/writer.go
@@ -228,6 +228,9 @@ func (w *Writer) WriteLine(data []byte) error {
 			return nil
 		}
 	}
+	if w.err != nil {
+		return w.err // closed by a hook
+	}
 	if w.Timeout != nil {
 		err := w.Timeout(true)
 		if err != nil {
-- 
2.43.0

