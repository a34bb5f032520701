From b62f5d472069806625374d02a085882d910cbe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 01/68] fix: control characters in PO strings made the encoder
 panic and could not be read back

---
 catalog/po/po_string.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..6adcedc 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -295,7 +296,7 @@ func escapePoString(s string) string {
 			default:
 				buf.WriteByte('x')
 				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				buf.WriteByte(hex[b&0xF])
 			}
 			i++
 			start = i
@@ -397,6 +398,15 @@ func unescapePoBytes(s []byte) []byte {
 				b[w] = '\v'
 				r++
 				w++
+			case 'x':
+				if v, ok := unescapeHex(s[r+1:]); ok {
+					b[w] = v
+					r += 3
+					w++
+					break
+				}
+				b[w] = '\\'
+				w++
 			default:
 				b[w] = '\\'
 				w++
@@ -417,3 +427,12 @@ func unescapePoBytes(s []byte) []byte {
 	}
 	return b[0:w]
 }
+
+// unescapeHex reads the two hexadecimal digits that follow \x.
+func unescapeHex(s []byte) (byte, bool) {
+	if len(s) < 2 {
+		return 0, false
+	}
+	v, err := strconv.ParseUint(string(s[:2]), 16, 8)
+	return byte(v), err == nil
+}
-- 
2.43.0


From 39fb34411f7b8b66c72433536c58cf4870b6d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 02/68] fix: unquoting a PO string that ends in a backslash
 never returned

---
 catalog/po/po_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index 6adcedc..8bf584d 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -362,6 +362,10 @@ func unescapePoBytes(s []byte) []byte {
 		switch c := s[r]; {
 		case c == '\\':
 			if r+1 >= len(s) {
+				// A backslash without a following character stands for itself.
+				b[w] = '\\'
+				r++
+				w++
 				break
 			}
 			r++
-- 
2.43.0


From c57dc955adeff790d3a4f72b3eee69556d917984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 03/68] fix: translations written without a space after msgstr
 were read as empty

---
 catalog/po/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..c277d61 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -178,7 +178,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
+			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
@@ -191,7 +191,7 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
+			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
 		case msgStrPluralLine:
 			lastIdx := len(msg.Str) - 1
-- 
2.43.0


From 4a8c36251aca31cd400e030113b500b5775835a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 04/68] fix: continuation lines of a plural form were added to
 another form when indices are not consecutive

---
 catalog/po/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index c277d61..664cf36 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -134,6 +134,7 @@ func (p *Parser) parseMessage() (*Message, error) {
 	p.unscan()
 
 	msg := NewMessage()
+	lastIdx := -1 // index of the last msgstr[x] read
 loop:
 	for {
 		tok, _ := p.scan()
@@ -193,8 +194,8 @@ loop:
 
 			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
+			lastIdx = idx
 		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
 			if lastIdx < 0 {
 				return nil, p.buildPosError()
 			}
-- 
2.43.0


From 307b9a89b8b1551f22da2f5961519c02314baf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 05/68] fix: the first comment line after an entry was lost
 when no blank line separates the entries

---
 catalog/po/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 664cf36..1e263a5 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -53,6 +53,7 @@ func (p *Parser) SetIgnoreComments(ignore bool) { p.ignoreComments = ignore }
 func (p *Parser) reset() {
 	p.messages = make(Messages, avgContextsPerFile)
 	p.header = nil
+	p.n = 0
 }
 
 func (p *Parser) Parse(r io.Reader) (*File, error) {
@@ -159,8 +160,12 @@ loop:
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
 			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			// Message completed, the comment belongs to the next message
+			p.unscan()
+			return msg, nil
+		case eof, whitespace:
 			// Message completed
 			return msg, nil
 		case msgContext:
-- 
2.43.0


From b5be64df007c09a0f65e9a721095aec4d4e9c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 06/68] fix: entries that are not separated by a blank line
 were merged into one

---
 catalog/po/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 1e263a5..71cfb81 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -157,6 +157,12 @@ loop:
 
 	for {
 		tok, lit := p.scan()
+		if (tok == msgContext || tok == msgID) && len(msg.Str) > 0 {
+			// Message completed, the next one follows without a blank line
+			p.unscan()
+			return msg, nil
+		}
+
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-- 
2.43.0


From 315354e3ae3880f79a05da927c55b7cc60c2b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 07/68] fix: read errors were taken for the end of a PO file,
 leaving an incomplete catalog

---
 catalog/po/parser.go  | 10 +++++++++-
 catalog/po/scanner.go |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 71cfb81..40e39e9 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -63,11 +63,19 @@ func (p *Parser) Parse(r io.Reader) (*File, error) {
 
 	// special case, empty file
 	if tok, _ := p.scan(); tok == eof {
+		if err := p.s.err(); err != nil {
+			return nil, err
+		}
 		return nil, errors.New("po file cannot be empty")
 	}
 	p.unscan()
 
-	return p.parseFile()
+	file, err := p.parseFile()
+	if errRead := p.s.err(); errRead != nil {
+		// The file was not read to its end
+		return nil, errRead
+	}
+	return file, err
 }
 
 func (p *Parser) parseFile() (*File, error) {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..02ec4ea 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -184,7 +184,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 func (s *scanner) scanWhitespace() (tok token, lit string) {
 	for {
 		line, err := s.read()
-		if err == io.EOF {
+		if err != nil {
 			break
 		}
 
@@ -206,6 +206,9 @@ func (s *scanner) read() (string, error) {
 	}
 
 	if !s.lineScanner.Scan() {
+		if err := s.err(); err != nil {
+			return "", err
+		}
 		return "", io.EOF
 	}
 	if s.lineScanner.Err() != nil {
@@ -216,5 +219,7 @@ func (s *scanner) read() (string, error) {
 	return s.lineScanner.Text(), nil
 }
 
+// err returns the first error, other than io.EOF, that occurred while reading.
+func (s *scanner) err() error          { return s.lineScanner.Err() }
 func (s *scanner) currentLine() string { return s.lineScanner.Text() }
 func (s *scanner) unread()             { s.n = 1 }
-- 
2.43.0


From cff95b51fe614b18112bff080f376828b77311f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 08/68] fix: PO files with lines longer than 64 KiB could not
 be read

---
 catalog/po/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 02ec4ea..7a8b5e9 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bufio"
 	"io"
+	"math"
 	"regexp"
 	"strings"
 )
@@ -39,9 +40,11 @@ type scanner struct {
 
 func newScanner(r io.Reader) *scanner {
 	// content = bytes.ReplaceAll(content, []byte("\r"), []byte(""))
-	return &scanner{
+	s := &scanner{
 		lineScanner: bufio.NewScanner(r),
 	}
+	s.lineScanner.Buffer(nil, math.MaxInt) // lines may have any length
+	return s
 }
 
 func (s *scanner) scan() (tok token, lit string) {
-- 
2.43.0


From 8bfddc96830cbb02832faa9a86a3d2dd66870155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 09/68] fix: short reads left the rest of an MO string filled
 with NUL bytes

---
 internal/mo/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..b685bea 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -251,6 +251,6 @@ func (p *parser) binaryRead(data any) error {
 }
 
 func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
+	_, err := io.ReadFull(p.r, d)
 	return err
 }
-- 
2.43.0


From 976b65f2914e77f4d0c7fedc93c39d274255a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 10/68] fix: MO files with tables or strings outside the file
 caused huge allocations

---
 internal/mo/parser.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index b685bea..d7438fd 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -24,6 +24,7 @@ type parser struct {
 	bo binary.ByteOrder
 	r  io.ReadSeeker
 
+	size         int64 // size of the whole file
 	magicNumber  uint32
 	majorVersion uint16
 	minorVersion uint16
@@ -128,6 +129,18 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
+	size, err := p.r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+	p.size = size
+
+	// Each table holds two 32-bit numbers per message.
+	tableSize := 8 * int64(p.msgIDCount)
+	if !p.isInFile(p.msgIDOffset, tableSize) || !p.isInFile(p.msgStrOffset, tableSize) {
+		return io.ErrUnexpectedEOF
+	}
+
 	p.messageData = make([]*msgData, p.msgIDCount)
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
@@ -206,6 +219,10 @@ func (p *parser) parseMessages() (*po.File, error) {
 }
 
 func (p *parser) parseMessage(data *msgData) (id string, localized string, err error) {
+	if !p.isInFile(data.idOffset, int64(data.idLength)) || !p.isInFile(data.translationOffset, int64(data.translationLength)) {
+		return "", "", io.ErrUnexpectedEOF
+	}
+
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
@@ -250,6 +267,11 @@ func (p *parser) binaryRead(data any) error {
 	return binary.Read(p.r, p.bo, data)
 }
 
+// isInFile reports whether length bytes from offset on lie within the file.
+func (p *parser) isInFile(offset uint32, length int64) bool {
+	return int64(offset)+length <= p.size
+}
+
 func (p *parser) read(d []byte) error {
 	_, err := io.ReadFull(p.r, d)
 	return err
-- 
2.43.0


From 8f2a6e61668d48f7eec4ea82f35de7e1395f8009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 11/68] fix: the order of messages and header fields written to
 a PO file was random

---
 catalog/po/encoder.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..99be7b9 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -95,9 +95,9 @@ func (enc *Encoder) encode(f *File) []byte {
 
 	if f.Messages != nil {
 		messages := make([]*Message, 0, len(f.Messages))
-		for ctx := range f.Messages {
-			for _, msg := range f.Messages[ctx] {
-				messages = append(messages, msg)
+		for _, ctx := range slices.Sorted(maps.Keys(f.Messages)) {
+			for _, id := range slices.Sorted(maps.Keys(f.Messages[ctx])) {
+				messages = append(messages, f.Messages[ctx][id])
 			}
 		}
 		if enc.sortFunction != nil {
@@ -137,8 +137,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
-- 
2.43.0


From 421d7cc72d2e50b66b75b84379f4c6d6f2155229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 12/68] fix: encoding a plural message with only form 1
 discarded its translation

---
 catalog/po/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 99be7b9..f73edaa 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -258,7 +258,11 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	if plural {
 		if len(m) == 1 {
 			// Plural needs at least two entries
-			m[1] = `""`
+			if _, ok := m[0]; ok {
+				m[1] = `""`
+			} else {
+				m[0] = `""`
+			}
 		}
 
 		keys := slices.Sorted(maps.Keys(m))
-- 
2.43.0


From df96e342e0cdcff378c192dac7e4aae57c58bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 13/68] fix: quotes and backslashes in PO header values were
 written unescaped

---
 catalog/po/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index f73edaa..fb4b8e2 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -166,7 +166,7 @@ msgstr ""
 		buff.WriteRune('"')
 		buff.WriteString(header.key)
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
-- 
2.43.0


From df54d44ddbf95022eef6c5e9224f6c9e61ba7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 14/68] fix: setting an unknown header field in another case
 stored it twice

---
 catalog/po/file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/catalog/po/file.go b/catalog/po/file.go
index 1409424..32c9147 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -151,6 +151,12 @@ func (h *Header) Set(key, val string) {
 		if h.UnknownFields == nil {
 			h.UnknownFields = make(map[string]string, 1)
 		}
+		for k := range h.UnknownFields {
+			if strings.EqualFold(k, key) {
+				key = k // keys are case-insensitive
+				break
+			}
+		}
 		h.UnknownFields[key] = val
 	}
 }
-- 
2.43.0


From d3405d63b2068f0568f4104af443f6bf600ca4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 15/68] fix: GettextCatalog.Messages panicked on every catalog
 with messages

---
 catalog/po.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..4b9ad8f 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,7 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+			msg := c.lookupMap[ctx][msgID]
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
-- 
2.43.0


From 7edaec8e418c59c611e57ce274cce8706ebbef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 16/68] fix: gettext catalogs did not know their domain

---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From a8b17300fffaa86afceab02ee45e346b83fa3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 17/68] fix: decoding the JSON document null returned neither a
 catalog nor an error

---
 catalog/json_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..ff30804 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,7 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 46e67ba1b9a345b1ceb2e30f6e50f39f99a6ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:06 +0000
Subject: [PATCH 18/68] fix: errors and category values of JSON catalogs
 depended on map iteration order

---
 catalog/json.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..fff831e 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -77,8 +77,8 @@ func NewJSONCatalogWithMessages(lang language.Tag, domain string, messages JSONM
 		pluralSet: pluralSet,
 	}
 
-	for key, msg := range messages {
-		if err := cat.setMessage(key, msg); err != nil {
+	for _, key := range slices.Sorted(maps.Keys(messages)) {
+		if err := cat.setMessage(key, messages[key]); err != nil {
 			return nil, err
 		}
 	}
@@ -203,8 +203,8 @@ func (c *jsonCatalog) UnmarshalJSON(data []byte) error {
 		return errors.New("spreak: File contains no translations")
 	}
 
-	for msgID, msg := range file {
-		if err := c.setMessage(msgID, msg); err != nil {
+	for _, msgID := range slices.Sorted(maps.Keys(file)) {
+		if err := c.setMessage(msgID, file[msgID]); err != nil {
 			return err
 		}
 	}
@@ -323,7 +323,8 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
-- 
2.43.0


From 1e442143f2e6367b3c45a8ad2f099b0cd083df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 19/68] fix: the CLDR operand i was negative for negative
 numbers that are not integers

---
 catalog/cldrplural/cldr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..a1c1477 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -139,7 +139,7 @@ func newOperandsString(raw string) (*Operands, error) {
 	}
 
 	op.N = math.Abs(src)
-	op.I = int64(src)
+	op.I = int64(op.N)
 
 	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
 		fractionDigits := raw[pointIdx+1:]
-- 
2.43.0


From 5affc26e59f09f8fb510c7dda5ee8d720ffeebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 20/68] fix: numbers Go prints with an exponent had no or wrong
 CLDR plural operands

---
 catalog/cldrplural/cldr.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index a1c1477..0263b64 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -2,7 +2,6 @@ package cldrplural
 
 import (
 	"errors"
-	"fmt"
 	"math"
 	"strconv"
 	"strings"
@@ -102,15 +101,15 @@ func NewOperands(a any) (*Operands, error) {
 	case int:
 		return newOperandsInt(int64(v)), nil
 	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(float64(v), 'f', -1, 32))
 	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
 	default:
 		num, err := cast.ToNumber(v)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
-- 
2.43.0


From bf901666dba37f0870a884e56a2da9a7bd0bac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 21/68] fix: plural rules given as text were tried in random
 order, so 'other' could win over a matching rule

---
 catalog/cldrplural/evaluation.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..0344065 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -1,7 +1,9 @@
 package cldrplural
 
 import (
+	"maps"
 	"math"
+	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
 	"github.com/vorlif/spreak/internal/util"
@@ -21,8 +23,8 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	categories := make([]Category, 0, len(rawRules))
 	rules := make(map[Category]*ast.Rule)
 
-	for cat, rawRule := range rawRules {
-		rule, err := ast.Parse(rawRule)
+	for _, cat := range slices.Sorted(maps.Keys(rawRules)) {
+		rule, err := ast.Parse(rawRules[cat])
 		if err != nil {
 			return nil, err
 		}
@@ -34,10 +36,12 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 		categories = append(categories, Other)
 	}
 
+	// The rules are tried in a fixed order, "other" last. RuleSet.Categories can be changed by the caller.
+	order := slices.Clone(categories)
 	formF := func(rules map[Category]*ast.Rule) FormFunc {
 		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
+			for _, cat := range order {
+				if rule, ok := rules[cat]; ok && evaluate(rule, ops) {
 					return cat
 				}
 			}
-- 
2.43.0


From 734cb85f724a143e9e47c0f22b949d4e2499fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 22/68] fix: some plural rule texts made parsing or evaluation
 hang or panic

---
 catalog/cldrplural/ast/parser.go  | 15 +++++++++++++++
 catalog/cldrplural/ast/scanner.go |  2 +-
 catalog/cldrplural/evaluation.go  |  8 +++-----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 12030e9..c60098b 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -1,6 +1,7 @@
 package ast
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -194,6 +195,10 @@ func (p *parser) expression() (Node, error) {
 			return nil, errValue
 		}
 
+		if valueNode.Value == 0 {
+			return nil, errors.New("division by zero in modulo expression")
+		}
+
 		reminderNode := &ModuloExpr{
 			Op:    operandNode,
 			Value: valueNode.Value,
@@ -310,6 +315,9 @@ func (p *parser) samples() ([]string, error) {
 			samples = append(samples, p.lastLiteral)
 		case sampleRange:
 			rangeValues := parseSampleRange(p.lastLiteral)
+			if len(rangeValues) == 0 {
+				return nil, fmt.Errorf("invalid sample range %q", p.lastLiteral)
+			}
 			samples = append(samples, rangeValues...)
 		default:
 			return nil, fmt.Errorf("expected sample, got %q", p.lastLiteral)
@@ -340,6 +348,9 @@ func (p *parser) scan() (tok Token, lit string) {
 	return
 }
 
+// maxSampleRangeLen limits the number of values of a sample range.
+const maxSampleRangeLen = 10_000
+
 // sampleRange = sampleValue ('~' sampleValue)?
 // sampleValue = value ('.' digit+)? ([ce] digitPos digit+)?
 func parseSampleRange(sampleRange string) []string {
@@ -350,6 +361,10 @@ func parseSampleRange(sampleRange string) []string {
 			if ex == parts[1] {
 				break
 			}
+			if len(sampleValues) >= maxSampleRangeLen {
+				// The range is too long or its end is never reached
+				return nil
+			}
 		}
 	} else {
 		sampleValues = append(sampleValues, parts...)
diff --git a/catalog/cldrplural/ast/scanner.go b/catalog/cldrplural/ast/scanner.go
index f47e20e..fd25ccb 100644
--- a/catalog/cldrplural/ast/scanner.go
+++ b/catalog/cldrplural/ast/scanner.go
@@ -57,7 +57,7 @@ func (s *scanner) Scan() (tok Token, lit string) {
 	case "":
 		return eof, ""
 	case "n", "i", "v", "w", "f", "t", "c", "e":
-		return Operand, lit
+		return Operand, strings.ToLower(lit)
 	case "=":
 		return Equal, lit
 	case "%", "mod":
diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 0344065..c960b01 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -160,11 +160,9 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 			continue
 		}
 
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		// Only the nearest integer can be equal, the range may be too long to check each value
+		if util.FloatEqual(math.Round(x), x) {
+			return true
 		}
 	}
 
-- 
2.43.0


From 604343ac4c8f326dacee81d2b55b0cfa2a5597d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 23/68] fix: conditions in Plural-Forms other than 0 and 1 were
 not taken as true

---
 catalog/poplural/rule.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..72dc327 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -82,16 +82,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From bd306fb60e4fb26e0eaa2eedcc3cbce702749b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 24/68] fix: Plural-Forms with parentheses could select a
 predefined rule with another meaning

---
 catalog/poplural/rule.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 72dc327..e20c5a3 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -2,6 +2,7 @@ package poplural
 
 import (
 	"math"
+	"reflect"
 
 	"github.com/vorlif/spreak/catalog/poplural/ast"
 	"github.com/vorlif/spreak/internal/cast"
@@ -52,7 +53,10 @@ func Parse(raw string) (*Rule, error) {
 	// Use of built-in functions, if available
 	compiledRaw := ast.CompileToString(parsed)
 	if rule := getBuiltInForRawRule(compiledRaw); rule != nil {
-		return rule, nil
+		// The compiled rule lacks some parentheses, so it can denote another rule
+		if reparsed, errRe := ast.Parse(compiledRaw); errRe == nil && reflect.DeepEqual(reparsed, parsed) {
+			return rule, nil
+		}
 	}
 
 	f := &Rule{
-- 
2.43.0


From 41dd0f6b0e99187502c0b3b393ac7c13c9a3bce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 25/68] fix: numbers in Plural-Forms that cannot be represented
 were read as another number

---
 catalog/poplural/ast/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..b808029 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -50,7 +50,11 @@ func (p *parser) Parse() (*Forms, error) {
 	if tok, lit := p.scanIgnoreWhitespace(); tok != Value {
 		return nil, fmt.Errorf("po parser: found %q, expected '=' after nplurals", lit)
 	} else {
-		forms.NPlurals, _ = strconv.Atoi(lit)
+		nPlurals, errN := strconv.Atoi(lit)
+		if errN != nil {
+			return nil, fmt.Errorf("po parser: found %q, expected a number after 'nplurals='", lit)
+		}
+		forms.NPlurals = nPlurals
 	}
 
 	if tok, lit := p.scanIgnoreWhitespace(); tok != semicolon {
@@ -285,7 +289,10 @@ func (p *parser) pmExpression() (Node, error) {
 		}
 		return &OperandExpr{}, nil
 	case Value:
-		value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+		value, errValue := strconv.ParseInt(p.lastLiteral, 10, 64)
+		if errValue != nil {
+			return nil, fmt.Errorf("po parser: found %q, expected a number", p.lastLiteral)
+		}
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
-- 
2.43.0


From 13f5a0ba10a799751f87407bcc062f447fa6324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 26/68] fix: time spans just below a unit were rounded up,
 giving counts larger than the elapsed time

NaturalTime also reported '0 hours ago' half a second before the hour.
---
 humanize/date.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..6c36b63 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -133,9 +133,9 @@ func (h *Humanizer) NaturalTime(i any) string {
 		delta := now.Sub(t)
 		deltaSec := int64(delta.Truncate(time.Second).Seconds())
 
-		if int64(delta.Round(time.Second).Hours()) >= 24 {
+		if deltaSec >= 24*60*60 {
 			entry := naturalTimeStrings["past-day"]
-			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
+			timeSince := h.TimeSince(t, WithNow(now.Add(delta.Truncate(time.Second)-delta)), withTimeStrings(naturalPastSubstrings))
 			return h.loc.Getf(entry.singular, timeSince)
 		} else if deltaSec == 0 {
 			entry := naturalTimeStrings["now"]
@@ -143,7 +143,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 		} else if deltaSec < 60 {
 			entry := naturalTimeStrings["past-second"]
 			return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-		} else if floorDivision(delta.Round(time.Second).Seconds(), 60) < 60 {
+		} else if deltaSec < 60*60 {
 			count := int64(math.Floor(float64(deltaSec) / 60))
 			entry := naturalTimeStrings["past-minute"]
 			return h.loc.NGetf(entry.singular, entry.plural, count, count)
@@ -156,9 +156,9 @@ func (h *Humanizer) NaturalTime(i any) string {
 
 	delta := t.Sub(now)
 	deltaSec := int64(delta.Round(time.Second).Seconds())
-	if int64(delta.Round(time.Second).Hours()) >= 24 {
+	if deltaSec >= 24*60*60 {
 		entry := naturalTimeStrings["future-day"]
-		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings))
+		timeSince := h.TimeUntil(t, WithNow(now.Add(delta-delta.Round(time.Second))), withTimeStrings(naturalFutureSubstrings))
 		return h.loc.Getf(entry.singular, timeSince)
 	} else if deltaSec == 0 {
 		entry := naturalTimeStrings["now"]
@@ -166,7 +166,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	} else if deltaSec < 60 {
 		entry := naturalTimeStrings["future-second"]
 		return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-	} else if floorDivision(float64(deltaSec), 60) < 60 {
+	} else if deltaSec < 60*60 {
 		count := int64(math.Floor(float64(deltaSec) / 60))
 		entry := naturalTimeStrings["future-minute"]
 		return h.loc.NGetf(entry.singular, entry.plural, count, count)
@@ -198,6 +198,17 @@ var timeSinceChunks = []struct {
 	{"minute", 60},
 }
 
+// countChunks returns how many whole units of the given length fit into the elapsed seconds.
+//
+// Years are rounded to three decimal places so that a change of the UTC offset between two dates,
+// for example from local mean time, does not turn "1,000 years" into "999 years, 12 months".
+func countChunks(elapsed, seconds int64) int64 {
+	if seconds == timeSinceChunks[0].seconds {
+		return floorDivision(float64(elapsed), float64(seconds))
+	}
+	return elapsed / seconds
+}
+
 type timeSinceOptions struct {
 	now             time.Time
 	reverse         bool
@@ -327,8 +338,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 
 	i := sort.Search(len(timeSinceChunks), func(i int) bool {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
-		return count != 0
+		return countChunks(since, chunk.seconds) != 0
 	})
 
 	if i == len(timeSinceChunks) {
@@ -340,7 +350,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	currentDepth := 0
 	for i < len(timeSinceChunks) && currentDepth < o.depth {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
+		count := countChunks(since, chunk.seconds)
 		i++
 		if count <= 0 {
 			if o.requireAdjacent {
-- 
2.43.0


From 51065623d5b03e0bd4b1c47fb40360a4d880cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 27/68] fix: NaturalDay missed yesterday and tomorrow around
 daylight saving changes

---
 humanize/date.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/humanize/date.go b/humanize/date.go
index 6c36b63..2bb805b 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -57,7 +57,8 @@ func (h *Humanizer) NaturalDay(i any) string {
 	now := time.Now().In(value.Location())
 	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
 
-	delta := value.Sub(today).Hours() / 24
+	// Days with a daylight saving change are not 24 hours long
+	delta := math.Round(value.Sub(today).Hours() / 24)
 	switch delta {
 	case 0:
 		return h.loc.Get("today")
-- 
2.43.0


From e30267d5950ac32ce2900f66c508db45c9b097dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 28/68] fix: the languages of a humanize collection were
 registered in random order

---
 humanize/humanizer.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..23c7d1f 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -127,11 +127,12 @@ func New(opts ...Option) (*Collection, error) {
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
-		if data.Format != nil {
-			coll.locales[tag] = data.Format
+	for _, loc := range o.locales {
+		if _, seen := coll.locales[loc.Lang]; seen {
+			continue
 		}
+		languages = append(languages, loc.Lang)
+		coll.locales[loc.Lang] = loader.locales[loc.Lang].Format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
-- 
2.43.0


From 6935ec6b2abba7a4917130b51fab6fe7d41a72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 29/68] fix: numbers within a millionth of an integer got the
 CLDR category of the integer

---
 catalog/cldrplural/evaluation.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index c960b01..c82480d 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -6,7 +6,6 @@ import (
 	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -160,8 +159,8 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 			continue
 		}
 
-		// Only the nearest integer can be equal, the range may be too long to check each value
-		if util.FloatEqual(math.Round(x), x) {
+		// Only an integer can be equal, the range may be too long to check each value
+		if math.Trunc(x) == x {
 			return true
 		}
 	}
@@ -171,7 +170,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From f926d39b319cb74a84f1206425eb1290f99a30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 30/68] fix: CLDR decoders ignored the plural rule of the
 header for languages without CLDR rules

---
 catalog/po_decoder.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index ed2ed80..dd6e2ae 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -132,14 +132,17 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 	}
 
 	hasPluralFormHeader := file.Header != nil && file.Header.PluralForms != ""
-	if useCLDRPlural || !hasPluralFormHeader {
+	if !hasPluralFormHeader {
 		cat.pluralFunc = getCLDRPluralFunction(lang)
 		return cat, nil
 	}
 
-	if val := file.Header.Get(poCLDRHeader); strings.EqualFold(val, "true") {
-		cat.pluralFunc = getCLDRPluralFunction(lang)
-		return cat, nil
+	if useCLDRPlural || strings.EqualFold(file.Header.Get(poCLDRHeader), "true") {
+		// Without a matching CLDR rule, the rule of the header is used.
+		if _, found := cldrplural.ForLanguage(lang); found {
+			cat.pluralFunc = getCLDRPluralFunction(lang)
+			return cat, nil
+		}
 	}
 
 	rule, err := poplural.Parse(file.Header.PluralForms)
-- 
2.43.0


From 4885538edf896e099ecf77275ee54b42c9fdf1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 31/68] fix: domains were loaded and languages and domains
 listed in random order

---
 bundle.go    | 13 ++++++++++---
 localizer.go |  5 +++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..bfe8a5a 100644
--- a/bundle.go
+++ b/bundle.go
@@ -139,7 +139,14 @@ func (b *Bundle) CanLocalize() bool { return len(b.locales) > 0 && len(b.domains
 
 // SupportedLanguages returns all languages for which a catalog was found for at least one domain.
 func (b *Bundle) SupportedLanguages() []language.Tag {
-	return slices.AppendSeq(make([]language.Tag, 0, len(b.locales)), maps.Keys(b.locales))
+	languages := make([]language.Tag, 0, len(b.locales))
+	for _, lang := range b.languages {
+		// The source language can be listed more than once.
+		if !slices.Contains(languages, lang) {
+			languages = append(languages, lang)
+		}
+	}
+	return languages
 }
 
 // IsLanguageSupported indicates whether a language can be translated.
@@ -200,8 +207,8 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 
 	catalogs := make(map[string]catalog.Catalog, len(b.domainLoaders))
 
-	for domain, domainLoader := range b.domainLoaders {
-		cat, errD := domainLoader.Load(lang, domain)
+	for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {
+		cat, errD := b.domainLoaders[domain].Load(lang, domain)
 		if errD != nil {
 			var notFoundErr *ErrNotFound
 			if errors.As(errD, &notFoundErr) {
diff --git a/localizer.go b/localizer.go
index 319489e..e9a1843 100644
--- a/localizer.go
+++ b/localizer.go
@@ -108,8 +108,9 @@ func (l *Localizer) HasDomain(domain string) bool {
 
 // Domains return a list of all domains for which a catalog was found.
 func (l *Localizer) Domains() []string {
-	keys := maps.Keys(l.locale.domainCatalogs)
-	return slices.AppendSeq(make([]string, 0, len(l.locale.domainCatalogs)), keys)
+	domains := slices.AppendSeq(make([]string, 0, len(l.locale.domainCatalogs)), maps.Keys(l.locale.domainCatalogs))
+	slices.Sort(domains)
+	return domains
 }
 
 // HasLocale returns whether a matching locale has been found and message translation can take place.
-- 
2.43.0


From 8a90de282b356ff07308579198927d32e15f2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 32/68] fix: a required language loaded as an optional one
 before could be incomplete

---
 bundle.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bundle.go b/bundle.go
index bfe8a5a..c23b9b8 100644
--- a/bundle.go
+++ b/bundle.go
@@ -201,7 +201,17 @@ func (b *bundleBuilder) createLocale(optional bool, lang language.Tag) error {
 		return nil
 	}
 
-	if _, isCached := b.locales[lang]; isCached {
+	if cached, isCached := b.locales[lang]; isCached {
+		if optional {
+			return nil
+		}
+
+		// The language may have been loaded as an optional one, without all of its domains.
+		for _, domain := range slices.Sorted(maps.Keys(b.domainLoaders)) {
+			if _, hasDomain := cached.domainCatalogs[domain]; !hasDomain {
+				return NewErrNotFound(lang, "catalog", "domain=%q", domain)
+			}
+		}
 		return nil
 	}
 
-- 
2.43.0


From 8c253ef10f3b4707eb48c4f449d2ab2e0237402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:01 +0000
Subject: [PATCH 33/68] fix: wrapping an indented comment split its first word

---
 catalog/po/wrap.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/catalog/po/wrap.go b/catalog/po/wrap.go
index bc853b9..a79fb8e 100644
--- a/catalog/po/wrap.go
+++ b/catalog/po/wrap.go
@@ -41,11 +41,6 @@ func wrapString(s string, pageWidth int) []string {
 					currentLine.Reset()
 					lastSpaceBuf.Reset()
 				}
-
-				if lastSpaceBuf.Len() > 0 {
-					lastSpaceBuf.WriteInto(currentLine)
-					currentWordBuf.WriteInto(currentLine)
-				}
 			}
 
 			currentWordBuf.WriteRune(char)
-- 
2.43.0


From 5d5e781a907ea7ed2c06c043a3bbfd168c3d9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:02 +0000
Subject: [PATCH 34/68] fix: the Lithuanian humanize locale registered as
 Latvian

---
 humanize/locale/lt/locale.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/humanize/locale/lt/locale.go b/humanize/locale/lt/locale.go
index 6dff2c2..553f380 100644
--- a/humanize/locale/lt/locale.go
+++ b/humanize/locale/lt/locale.go
@@ -1,4 +1,4 @@
-package lv
+package lt
 
 import (
 	"embed"
@@ -13,16 +13,16 @@ var fsys embed.FS
 
 func New() *humanize.LocaleData {
 	return &humanize.LocaleData{
-		Lang: language.MustParse("lv"),
+		Lang: language.MustParse("lt"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          `Y. \g\a\d\a j. F`,
+			DateFormat:          `Y \m. E j \d.`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
-			YearMonthFormat:     `Y. \g. F`,
-			MonthDayFormat:      "j. F",
-			ShortDateFormat:     `j.m.Y`,
-			ShortDatetimeFormat: "j.m.Y H:i",
+			DateTimeFormat:      `Y \m. E j \d., H:i`,
+			YearMonthFormat:     `Y \m. F`,
+			MonthDayFormat:      `E j \d.`,
+			ShortDateFormat:     "Y-m-d",
+			ShortDatetimeFormat: "Y-m-d H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
-- 
2.43.0


From 56a3d54a05efcf4d2a684c139f555d554f9a9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 35/68] fix: creating a humanizer collection changed the
 caller's locale data

---
 humanize/humanizer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 23c7d1f..c8783b7 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -114,11 +114,14 @@ func New(opts ...Option) (*Collection, error) {
 		}
 	}
 
-	for _, d := range o.locales {
-		if d.Format == nil {
-			d.Format = fallbackFormat
+	// Complete copies: the data of the caller may be shared with other collections
+	for i, d := range o.locales {
+		format := *fallbackFormat
+		if d.Format != nil {
+			format = *d.Format
 		}
-		d.Format.setDefaults()
+		format.setDefaults()
+		o.locales[i] = &LocaleData{Lang: d.Lang, Fs: d.Fs, Format: &format}
 	}
 
 	loader := newLoader(o.locales)
-- 
2.43.0


From d2439355d31cac71119b3cbd6b178bfe0e4797f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 36/68] fix: nil pointers, channels and functions were taken
 for numbers

---
 internal/cast/number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..94736c9 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -50,6 +50,12 @@ func ToNumber(n any) (float64, error) {
 		return res, nil
 	}
 
+	switch reflect.TypeOf(n).Kind() {
+	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan, reflect.Func:
+		// would be formatted as their address
+		return 0, fmt.Errorf("unable to cast %#v of type %T to float64", n, n)
+	}
+
 	if num, errC := ToNumber(fmt.Sprintf("%d", n)); errC == nil {
 		return num, nil
 	}
-- 
2.43.0


From 0b6c87c4e800bed0393d7bd9e7d21188d51ee210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:18 +0000
Subject: [PATCH 37/68] fix: format code I was wrong in years in which a zone
 adopts or gives up daylight saving time

---
 humanize/dateformat.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/humanize/dateformat.go b/humanize/dateformat.go
index 19c76b0..d7e1656 100644
--- a/humanize/dateformat.go
+++ b/humanize/dateformat.go
@@ -262,18 +262,8 @@ func (tf *timeFormatter) F() string {
 
 // I - '1' if daylight saving time, '0' otherwise.
 func (tf *timeFormatter) I() string {
-	_, timeOffset := tf.data.Zone()
-	_, winterOffset := time.Date(tf.data.Year(), 1, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-	_, summerOffset := time.Date(tf.data.Year(), 7, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-
-	if winterOffset > summerOffset {
-		winterOffset, summerOffset = summerOffset, winterOffset
-	}
-
-	if winterOffset != summerOffset { // the location has daylight saving
-		if timeOffset != winterOffset {
-			return "1"
-		}
+	if tf.data.IsDST() {
+		return "1"
 	}
 	return "0"
 }
-- 
2.43.0


From 4252f6a2699000131bb56245a5e67c891726f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:23 +0000
Subject: [PATCH 38/68] fix: Albanian, Marathi and Belarusian humanize texts
 lost the number they are for

---
 humanize/locale/be/django.po |  2 +-
 humanize/locale/mr/django.po |  2 +-
 humanize/locale/sq/django.po | 20 ++++++++++----------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/humanize/locale/be/django.po b/humanize/locale/be/django.po
index dad3962..8f74dc0 100644
--- a/humanize/locale/be/django.po
+++ b/humanize/locale/be/django.po
@@ -27,7 +27,7 @@ msgstr[3] "%[1]d байтаў"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
-msgstr[0] "%(value).s мільярд"
+msgstr[0] "%[1]s мільярд"
 msgstr[1] "%[1]s мільярды"
 msgstr[2] "%[1]s мільярдаў"
 msgstr[3] "%[1]s мільярдаў"
diff --git a/humanize/locale/mr/django.po b/humanize/locale/mr/django.po
index aa9380e..0af4dd8 100644
--- a/humanize/locale/mr/django.po
+++ b/humanize/locale/mr/django.po
@@ -839,4 +839,4 @@ msgstr "%vवा"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "{वा}"
+msgstr "%vवा"
diff --git a/humanize/locale/sq/django.po b/humanize/locale/sq/django.po
index 5902280..34252f3 100644
--- a/humanize/locale/sq/django.po
+++ b/humanize/locale/sq/django.po
@@ -801,7 +801,7 @@ msgstr[1] "%[1]v vjet"
 
 msgctxt "ordinal 0"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 1"
 msgid "%vst"
@@ -809,36 +809,36 @@ msgstr ""
 
 msgctxt "ordinal 11, 12, 13"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 2"
 msgid "%vnd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 3"
 msgid "%vrd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 4"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 5"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 6"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 7"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 8"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
-- 
2.43.0


From 62a1b31461923f6ebcf65df5ae6c0e1814851483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 39/68] fix: TimeSinceFrom, TimeUntil and TimeUntilFrom could
 overwrite options of the caller's slice

---
 humanize/date.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 2bb805b..8bb5dd6 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -372,7 +372,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now))
+	opts = append(opts[:len(opts):len(opts)], WithNow(now))
 	return h.TimeSince(d, opts...)
 }
 
@@ -385,14 +385,14 @@ func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
 		return formatErrorMessage(d)
 	}
 
-	opts = append(opts, WithReverse(true))
+	opts = append(opts[:len(opts):len(opts)], WithReverse(true))
 	return h.TimeSince(parsedTime, opts...)
 }
 
 // TimeUntilFrom works like TimeUntil, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeUntil(d, WithNow(now)).
 func (h *Humanizer) TimeUntilFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now), WithReverse(true))
+	opts = append(opts[:len(opts):len(opts)], WithNow(now), WithReverse(true))
 	return h.TimeSince(d, opts...)
 }
 
-- 
2.43.0


From 5e8bacf4d7cac26f0a5644f05c1953a47613c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:30 +0000
Subject: [PATCH 40/68] fix: Intword named 10^33 in nonillions

---
 humanize/numbers.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..13d9d82 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -49,21 +49,22 @@ func (h *Humanizer) Apnumber(val any) string {
 
 // A tuple of standard large number to their converters.
 var intwordConverters = []struct {
-	exponent int
+	value    float64
+	limit    float64 // first value of the next power of ten
 	singular string
 	plural   string
 }{
-	{6, "%[1]s million", "%[1]s million"},
-	{9, "%[1]s billion", "%[1]s billion"},
-	{12, "%[1]s trillion", "%[1]s trillion"},
-	{15, "%[1]s quadrillion", "%[1]s quadrillion"},
-	{18, "%[1]s quintillion", "%[1]s quintillion"},
-	{21, "%[1]s sextillion", "%[1]s sextillion"},
-	{24, "%[1]s septillion", "%[1]s septillion"},
-	{27, "%[1]s octillion", "%[1]s octillion"},
-	{30, "%[1]s nonillion", "%[1]s nonillion"},
-	{33, "%[1]s decillion", "%[1]s decillion"},
-	{100, "%[1]s googol", "%[1]s googol"},
+	{1e6, 1e9, "%[1]s million", "%[1]s million"},
+	{1e9, 1e12, "%[1]s billion", "%[1]s billion"},
+	{1e12, 1e15, "%[1]s trillion", "%[1]s trillion"},
+	{1e15, 1e18, "%[1]s quadrillion", "%[1]s quadrillion"},
+	{1e18, 1e21, "%[1]s quintillion", "%[1]s quintillion"},
+	{1e21, 1e24, "%[1]s sextillion", "%[1]s sextillion"},
+	{1e24, 1e27, "%[1]s septillion", "%[1]s septillion"},
+	{1e27, 1e30, "%[1]s octillion", "%[1]s octillion"},
+	{1e30, 1e33, "%[1]s nonillion", "%[1]s nonillion"},
+	{1e33, 1e36, "%[1]s decillion", "%[1]s decillion"},
+	{1e100, 1e103, "%[1]s googol", "%[1]s googol"},
 }
 
 // Intword convert a large integer to a friendly text representation. Works best
@@ -87,9 +88,8 @@ func (h *Humanizer) Intword(i any) string {
 	}
 
 	for _, converter := range intwordConverters {
-		largeNumber := math.Pow10(converter.exponent)
-		if absValue < (largeNumber * float64(1000)) {
-			newValue := value / largeNumber
+		if absValue < converter.limit {
+			newValue := value / converter.value
 			roundedValue := int64(math.Ceil(newValue-1)) + 1
 			if roundedValue < 0 {
 				roundedValue = int64(math.Abs(math.Floor(newValue)))
-- 
2.43.0


From a468d1be4e738143d85b636a4ed80b190cbe6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 41/68] fix: header fields stored in several spellings were
 read in random order

---
 catalog/po/file.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/catalog/po/file.go b/catalog/po/file.go
index 32c9147..37f9bd6 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -151,11 +151,8 @@ func (h *Header) Set(key, val string) {
 		if h.UnknownFields == nil {
 			h.UnknownFields = make(map[string]string, 1)
 		}
-		for k := range h.UnknownFields {
-			if strings.EqualFold(k, key) {
-				key = k // keys are case-insensitive
-				break
-			}
+		if k, ok := h.unknownKey(key); ok {
+			key = k // keys are case-insensitive
 		}
 		h.UnknownFields[key] = val
 	}
@@ -191,17 +188,23 @@ func (h *Header) Get(key string) string {
 		return h.XGenerator
 	}
 
-	if len(h.UnknownFields) == 0 {
-		return ""
+	if k, ok := h.unknownKey(key); ok {
+		return h.UnknownFields[k]
 	}
 
-	for unknownHeader, val := range h.UnknownFields {
-		if strings.EqualFold(unknownHeader, key) {
-			return val
+	return ""
+}
+
+// unknownKey returns the key under which an unknown field is stored.
+// Should there be several spellings of it, the choice does not depend on the order of the map.
+func (h *Header) unknownKey(key string) (string, bool) {
+	found, ok := "", false
+	for k := range h.UnknownFields {
+		if strings.EqualFold(k, key) && (!ok || k < found) {
+			found, ok = k, true
 		}
 	}
-
-	return ""
+	return found, ok
 }
 
 // PlaceholderHeader creates a placeholder header for an empty PO file.
-- 
2.43.0


From 3b18c2c632a0ecb0d849e23a72bcf42446de5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 42/68] fix: the Vietnamese date and time format lost its hour

---
 humanize/locale/vi/locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/vi/locale.go b/humanize/locale/vi/locale.go
index 36ccfc3..2af0fe1 100644
--- a/humanize/locale/vi/locale.go
+++ b/humanize/locale/vi/locale.go
@@ -18,7 +18,7 @@ func New() *humanize.LocaleData {
 		Format: &humanize.FormatData{
 			DateFormat:          `\N\gà\y d \t\há\n\g n \nă\m Y`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `:i \N\gà\y d \t\há\n\g n \nă\m Y`,
+			DateTimeFormat:      `H:i \N\gà\y d \t\há\n\g n \nă\m Y`,
 			YearMonthFormat:     "F Y",
 			MonthDayFormat:      "j F",
 			ShortDateFormat:     "d-m-Y",
-- 
2.43.0


From 0a3ce4338a112e69972114d47917b5c0c27ee448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 43/68] fix: the Armenian abbreviation of April was March

---
 humanize/locale/hy/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/hy/django.po b/humanize/locale/hy/django.po
index 640db74..0e4c475 100644
--- a/humanize/locale/hy/django.po
+++ b/humanize/locale/hy/django.po
@@ -576,7 +576,7 @@ msgstr "երեկ"
 
 msgctxt "abbrev. month"
 msgid "April"
-msgstr "Մարտ"
+msgstr "Ապրիլ"
 
 msgctxt "abbrev. month"
 msgid "Aug."
-- 
2.43.0


From de5239fe3894131250c33e1b0e92b9af066fcc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 44/68] fix: the Tajik abbreviation of Tuesday was Sunday

---
 humanize/locale/tg/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/tg/django.po b/humanize/locale/tg/django.po
index 187f235..20880e3 100644
--- a/humanize/locale/tg/django.po
+++ b/humanize/locale/tg/django.po
@@ -434,7 +434,7 @@ msgid "Traditional Chinese"
 msgstr "Хитоӣ"
 
 msgid "Tue"
-msgstr "Яш"
+msgstr "Сш"
 
 msgid "Tuesday"
 msgstr "Сешанбе"
-- 
2.43.0


From 9e670f2ab766dc09d5d587bf9add8b109d204682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 45/68] fix: integers beyond 2^53 got the Plural-Forms form of
 another number

---
 catalog/poplural/rule.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index e20c5a3..020cf0d 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -22,15 +22,39 @@ type Rule struct {
 // If the value is not an integer, it is formatted accordingly.
 // If formatting is not possible, an error is returned.
 func (f *Rule) Evaluate(a any) (int, error) {
+	// Not every integer can be represented as a float64
+	if num, ok := exactInteger(a); ok {
+		return f.FormFunc(num), nil
+	}
+
 	num, err := cast.ToNumber(a)
 	if err != nil {
 		return 0, err
 	}
 
 	num = math.RoundToEven(math.Abs(num))
+	if num >= math.MaxInt64 {
+		return f.FormFunc(math.MaxInt64), nil
+	}
 	return f.FormFunc(int64(num)), nil
 }
 
+// exactInteger returns the absolute value of a, if a is an integer and the value can be represented as an int64.
+func exactInteger(a any) (int64, bool) {
+	switch v := reflect.ValueOf(cast.Indirect(a)); {
+	case !v.IsValid():
+		return 0, false
+	case v.CanInt() && v.Int() >= 0:
+		return v.Int(), true
+	case v.CanInt() && v.Int() > math.MinInt64:
+		return -v.Int(), true
+	case v.CanUint() && v.Uint() <= math.MaxInt64:
+		return int64(v.Uint()), true
+	default:
+		return 0, false
+	}
+}
+
 // MustParse is like Parse, but panics if the given rule string cannot be parsed.
 // It simplifies safe initialization of Rule values.
 func MustParse(raw string) *Rule {
-- 
2.43.0


From 2e11f77fa87b768ce71781ec0bf9f1a7b7ede800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 46/68] fix: the default order of PO messages was not a
 consistent order

---
 catalog/po/encoder.go | 47 ++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index fb4b8e2..91bb456 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -2,6 +2,7 @@ package po
 
 import (
 	"bytes"
+	"cmp"
 	"fmt"
 	"io"
 	"maps"
@@ -276,37 +277,21 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 }
 
+// DefaultSortFunction orders messages by their references, then by context and ID.
+// Messages without references come first.
 func DefaultSortFunction(a *Message, b *Message) int {
-	if a.Comment != nil && b.Comment != nil {
+	var aRefs, bRefs []*Reference
+	if a.Comment != nil {
 		a.Comment.sort()
+		aRefs = a.Comment.References
+	}
+	if b.Comment != nil {
 		b.Comment.sort()
+		bRefs = b.Comment.References
+	}
 
-		for i := 0; i < len(a.Comment.References); i++ {
-			if i >= len(b.Comment.References) {
-				break
-			}
-			if c := strings.Compare(a.Comment.References[i].Path, b.Comment.References[i].Path); c != 0 {
-				return c
-			}
-			if c, k := a.Comment.References[i].Line, b.Comment.References[i].Line; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-			if c, k := a.Comment.References[i].Column, b.Comment.References[i].Column; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-
-			if c, k := a.Comment.References[i].Path, b.Comment.References[i].Path; c != "" && k != "" {
-				return strings.Compare(c, k)
-			}
-		}
+	if c := slices.CompareFunc(aRefs, bRefs, compareReferences); c != 0 {
+		return c
 	}
 
 	if c := strings.Compare(a.Context, b.Context); c != 0 {
@@ -319,3 +304,11 @@ func DefaultSortFunction(a *Message, b *Message) int {
 
 	return 0
 }
+
+func compareReferences(a, b *Reference) int {
+	return cmp.Or(
+		strings.Compare(a.Path, b.Path),
+		cmp.Compare(a.Line, b.Line),
+		cmp.Compare(a.Column, b.Column),
+	)
+}
-- 
2.43.0


From 3a4db9f7286667496249f8d7d8f42bdcea54cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 47/68] fix: compiled plural rules keep the parentheses they
 need

---
 catalog/poplural/ast/compile.go | 116 ++++++++++++++++++++++++--------
 1 file changed, 87 insertions(+), 29 deletions(-)

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..4eeb0d9 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -2,57 +2,115 @@ package ast
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
-	"strings"
 )
 
+// CompileToString returns a uniform spelling of the forms.
 func CompileToString(forms *Forms) string {
-	return fmt.Sprintf("nplurals=%d; plural=%s;", forms.NPlurals, compileNode(forms.Root))
+	return fmt.Sprintf("nplurals=%d; plural=%s;", forms.NPlurals, appendNode(nil, forms.Root))
 }
 
-func compileNode(node Node) string {
+// The operators by how tightly they bind. Expressions with || are always put into parentheses.
+const (
+	precedenceQuestion = iota
+	precedenceAnd
+	precedenceEquality
+	precedenceRelation
+	precedenceReminder
+	precedenceAtom
+)
+
+func precedence(node Node) int {
+	if node == nil {
+		return precedenceAtom
+	}
+
+	switch node.Type() {
+	case Question:
+		return precedenceQuestion
+	case LogicalAnd:
+		return precedenceAnd
+	case Equal, NotEqual:
+		return precedenceEquality
+	case Greater, GreaterOrEqual, Less, LessOrEqual:
+		return precedenceRelation
+	case Reminder:
+		return precedenceReminder
+	default:
+		return precedenceAtom
+	}
+}
+
+func appendNode(b []byte, node Node) []byte {
 	switch v := node.(type) {
 	case *ValueExpr:
-		return strconv.FormatInt(v.Value, 10)
+		return strconv.AppendInt(b, v.Value, 10)
 	case *OperandExpr:
-		return "n"
+		return append(b, 'n')
 	case *QuestionMarkExpr:
-		cond := compileNode(v.Cond)
-		then := compileNode(v.T)
-		other := compileNode(v.F)
-
-		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
-			cond = "(" + cond + ")"
-		}
-		if len(then) > 1 {
-			then = "(" + then + ")"
+		start := len(b)
+		b = appendNode(b, v.Cond)
+		if cond := b[start:]; precedence(v.Cond) == precedenceQuestion || len(cond) > 1 && (cond[0] != '(' || cond[len(cond)-1] != ')') {
+			b = enclose(b, start)
 		}
-		if len(other) > 1 {
-			other = "(" + other + ")"
-		}
-
-		return fmt.Sprintf("%s ? %s : %s", cond, then, other)
+		b = append(b, " ? "...)
+		b = appendBranch(b, v.T)
+		b = append(b, " : "...)
+		return appendBranch(b, v.F)
 	case *BinaryExpr:
 		switch v.Type() {
 		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
+			return appendBinary(b, v, " && ", precedenceAnd)
 		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
+			b = append(b, '(')
+			b = appendBinary(b, v, " || ", precedenceAnd)
+			return append(b, ')')
 		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
+			return appendBinary(b, v, " == ", precedenceRelation)
 		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
+			return appendBinary(b, v, " != ", precedenceRelation)
 		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
+			return appendBinary(b, v, " > ", precedenceReminder)
 		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
+			return appendBinary(b, v, " >= ", precedenceReminder)
 		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
+			return appendBinary(b, v, " < ", precedenceReminder)
 		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
+			return appendBinary(b, v, " <= ", precedenceReminder)
 		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+			return appendBinary(b, v, " % ", precedenceAtom)
 		}
 	}
-	return ""
+	return b
+}
+
+// appendBinary appends both operands, in parentheses where they bind less tightly than required.
+func appendBinary(b []byte, v *BinaryExpr, op string, required int) []byte {
+	for i, node := range []Node{v.X, v.Y} {
+		if i > 0 {
+			b = append(b, op...)
+		}
+		start := len(b)
+		b = appendNode(b, node)
+		if precedence(node) < required {
+			b = enclose(b, start)
+		}
+	}
+	return b
+}
+
+// appendBranch appends a branch of a ?: expression, in parentheses unless it is a single character.
+func appendBranch(b []byte, node Node) []byte {
+	start := len(b)
+	b = appendNode(b, node)
+	if len(b)-start > 1 {
+		b = enclose(b, start)
+	}
+	return b
+}
+
+func enclose(b []byte, start int) []byte {
+	b = slices.Insert(b, start, '(')
+	return append(b, ')')
 }
-- 
2.43.0


From 66be85f0e11b27e0d8cdd2f9878bb5c9b0a6fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 48/68] fix: deeply nested plural rules exhausted the stack

---
 catalog/poplural/ast/parser.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index b808029..1206391 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -12,11 +12,17 @@ type Forms struct {
 	Root     Node
 }
 
+// maxDepth limits the nesting of expressions, which would otherwise exhaust the stack.
+const maxDepth = 100_000
+
+var errTooDeep = errors.New("po parser: plural expression is nested too deeply")
+
 type parser struct {
 	s           *scanner
 	lastToken   Token  // last read Token
 	lastLiteral string // last read literal
 	n           int    // buffer size (max=1)
+	depth       int    // current nesting
 }
 
 func MustParse(rule string) *Forms {
@@ -93,6 +99,11 @@ func (p *parser) Parse() (*Forms, error) {
 }
 
 func (p *parser) expression() (Node, error) {
+	if p.depth++; p.depth > maxDepth {
+		return nil, errTooDeep
+	}
+	defer func() { p.depth-- }()
+
 	n, err := p.logicalOrExpression()
 	if err != nil {
 		return nil, err
@@ -133,6 +144,11 @@ func (p *parser) expression() (Node, error) {
 }
 
 func (p *parser) logicalOrExpression() (Node, error) {
+	if p.depth++; p.depth > maxDepth {
+		return nil, errTooDeep
+	}
+	defer func() { p.depth-- }()
+
 	ln, err := p.logicalAndExpression()
 	if err != nil {
 		return nil, err
@@ -168,6 +184,11 @@ func (p *parser) logicalOrExpression() (Node, error) {
 }
 
 func (p *parser) logicalAndExpression() (Node, error) {
+	if p.depth++; p.depth > maxDepth {
+		return nil, errTooDeep
+	}
+	defer func() { p.depth-- }()
+
 	ln, err := p.equalityExpression() // left
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c072a665e5a96c284d5204505190bedda438a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 49/68] fix: printers were asked for print functions before
 their initialization

---
 bundle.go | 10 +++++++++-
 locale.go |  2 --
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bundle.go b/bundle.go
index c23b9b8..6740b7c 100644
--- a/bundle.go
+++ b/bundle.go
@@ -113,7 +113,6 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 	}
 
 	builder.languageMatcher = builder.languageMatcherBuilder(builder.languages)
-	builder.printer.Init(builder.languages)
 
 	if sourceLocale, hasSource := builder.locales[builder.sourceLanguage]; hasSource {
 		builder.sourceLocale = sourceLocale
@@ -127,6 +126,15 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		builder.fallbackLocale = builder.sourceLocale
 	}
 
+	// The printer can only be used after all languages are known.
+	builder.printer.Init(builder.languages)
+	for _, lang := range builder.SupportedLanguages() {
+		builder.locales[lang].printFunc = builder.printer.GetPrintFunc(lang)
+	}
+	if builder.sourceLocale.printFunc == nil {
+		builder.sourceLocale.printFunc = builder.printer.GetPrintFunc(builder.sourceLanguage)
+	}
+
 	return builder.Bundle, nil
 }
 
diff --git a/locale.go b/locale.go
index af3826f..2b22734 100644
--- a/locale.go
+++ b/locale.go
@@ -22,7 +22,6 @@ func buildLocale(bundle *Bundle, lang language.Tag, catalogs map[string]catalog.
 		bundle:         bundle,
 		language:       lang,
 		domainCatalogs: catalogs,
-		printFunc:      bundle.printer.GetPrintFunc(lang),
 	}
 
 	l.pluralFunc, _ = poplural.ForLanguage(lang)
@@ -34,7 +33,6 @@ func buildSourceLocale(bundle *Bundle, sourceLang language.Tag) *locale {
 	l := &locale{
 		bundle:           bundle,
 		language:         sourceLang,
-		printFunc:        bundle.printer.GetPrintFunc(sourceLang),
 		isSourceLanguage: true,
 	}
 	l.pluralFunc, _ = poplural.ForLanguage(sourceLang)
-- 
2.43.0


From e346042367986c26b8c3a45c5a13c5d91ff12c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 50/68] fix: no file could be opened through WithSystemFs

---
 loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loader.go b/loader.go
index 62d1562..8474da3 100644
--- a/loader.go
+++ b/loader.go
@@ -180,8 +180,8 @@ func WithPath(path string) FsOption {
 // WithSystemFs stores the root path as filesystem.
 // Lets the creation of the FilesystemLoader fail, if a filesystem was already deposited.
 //
-// Shorthand for WithPath("").
-func WithSystemFs() FsOption { return WithPath("") }
+// Shorthand for WithPath("/").
+func WithSystemFs() FsOption { return WithPath("/") }
 
 // WithResolver stores the resolver of a FilesystemLoader.
 // Lets the creation of the FilesystemLoader fail, if a Resolver was already deposited.
-- 
2.43.0


From f8f9497ae798685c109140821b76841af4002b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 51/68] fix: PO files with millions of skipped comment lines
 exhausted the stack

---
 catalog/po/scanner.go | 52 +++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 7a8b5e9..bf9ba7c 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -48,34 +48,41 @@ func newScanner(r io.Reader) *scanner {
 }
 
 func (s *scanner) scan() (tok token, lit string) {
-	line, err := s.read()
 	defer func() {
 		s.lastToken = tok
 	}()
 
-	if err != nil {
-		return eof, ""
-	}
+	for {
+		line, err := s.read()
+		if err != nil {
+			return eof, ""
+		}
 
-	// Short path for better performance
-	if len(line) == 0 {
-		return s.scanWhitespace()
-	}
+		// Short path for better performance
+		if len(line) == 0 {
+			return s.scanWhitespace()
+		}
 
-	line = strings.TrimSpace(line)
-	if len(line) == 0 {
-		return s.scanWhitespace()
-	}
+		line = strings.TrimSpace(line)
+		if len(line) == 0 {
+			return s.scanWhitespace()
+		}
 
-	if line[0] == '#' {
-		return s.scanComment(line)
-	}
+		if line[0] == '#' {
+			tokk, l := s.scanComment(line)
+			if tokk == none {
+				// The comment is skipped
+				continue
+			}
+			return tokk, l
+		}
 
-	if tokk, l := s.scanMessage(line); tokk != none {
-		return tokk, l
-	}
+		if tokk, l := s.scanMessage(line); tokk != none {
+			return tokk, l
+		}
 
-	return failure, line
+		return failure, line
+	}
 }
 
 func (s *scanner) scanMessage(line string) (token, string) {
@@ -124,13 +131,14 @@ func (s *scanner) scanMessage(line string) (token, string) {
 	return none, line
 }
 
+// scanComment returns the token none for a comment that has to be skipped.
 func (s *scanner) scanComment(line string) (token, string) {
 	lineLen := len(line)
 
 	// comment without content
 	if lineLen == 1 {
 		if s.ignoreComments {
-			return s.scan()
+			return none, line
 		}
 		return commentTranslator, line
 	}
@@ -139,7 +147,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	if lineLen == 2 {
 		switch line[1] {
 		case '.', ':', ',', '|':
-			return s.scan()
+			return none, line
 		}
 	}
 
@@ -149,7 +157,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 			// Flag comments will always be read
 			break
 		default:
-			return s.scan()
+			return none, line
 		}
 	}
 
-- 
2.43.0


From de082487fd76d98df83332b8926235df9ce74227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 52/68] fix: reading PO messages and comments of very many
 lines took quadratic time

---
 catalog/po/parser.go | 71 +++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 40e39e9..7af3c1f 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -143,7 +143,23 @@ func (p *Parser) parseMessage() (*Message, error) {
 	p.unscan()
 
 	msg := NewMessage()
-	lastIdx := -1 // index of the last msgstr[x] read
+
+	// Long texts can have very many lines, they are put together when they are complete.
+	var text strings.Builder
+	var store func(s string)
+	finish := func() {
+		if store != nil {
+			store(text.String())
+		}
+		text.Reset()
+		store = nil
+	}
+	begin := func(s string, f func(s string)) {
+		finish()
+		text.WriteString(DecodePoString(s))
+		store = f
+	}
+	defer finish()
 loop:
 	for {
 		tok, _ := p.scan()
@@ -184,24 +200,17 @@ loop:
 			return msg, nil
 		case msgContext:
 			line := lit[8:] // msgctxt
-			msg.Context = DecodePoString(line)
-		case msgContextLine:
-			msg.Context += DecodePoString(lit)
+			begin(line, func(s string) { msg.Context = s })
 		case msgID:
 			line := lit[6:] // msgid
-			msg.ID = DecodePoString(line)
-		case msgIDLine:
-			msg.ID += DecodePoString(lit)
+			begin(line, func(s string) { msg.ID = s })
 		case msgIDPlural:
 			line := lit[13:] // msgid_plural
-			msg.IDPlural = DecodePoString(line)
-		case msgIDPluralLine:
-			msg.IDPlural += DecodePoString(lit)
+			begin(line, func(s string) { msg.IDPlural = s })
 		case msgStr:
 			line := lit[6:] // msgstr
-			msg.Str[0] = DecodePoString(line)
-		case msgStrLine:
-			msg.Str[0] += DecodePoString(lit)
+			msg.Str[0] = ""
+			begin(line, func(s string) { msg.Str[0] = s })
 		case msgStrPlural:
 			left := strings.Index(lit, "[")
 			right := strings.Index(lit, "]")
@@ -212,13 +221,10 @@ loop:
 			}
 
 			line := lit[right+1:] // msgstr[x]
-			msg.Str[idx] = DecodePoString(line)
-			lastIdx = idx
-		case msgStrPluralLine:
-			if lastIdx < 0 {
-				return nil, p.buildPosError()
-			}
-			msg.Str[lastIdx] += DecodePoString(lit)
+			msg.Str[idx] = ""
+			begin(line, func(s string) { msg.Str[idx] = s })
+		case msgContextLine, msgIDLine, msgIDPluralLine, msgStrLine, msgStrPluralLine:
+			text.WriteString(DecodePoString(lit))
 		default:
 			return nil, p.buildPosError()
 		}
@@ -227,6 +233,7 @@ loop:
 
 func (p *Parser) parseComment() (*Comment, error) {
 	comment := NewComment()
+	var translator, extracted, prevMsgContext, prevMsgID strings.Builder
 	for {
 		tok, line := p.scan()
 
@@ -237,16 +244,16 @@ func (p *Parser) parseComment() (*Comment, error) {
 			return nil, p.buildPosError()
 		case commentTranslator:
 			line = strings.TrimSpace(line[1:]) // #
-			if comment.Translator != "" {
-				comment.Translator += "\n"
+			if translator.Len() > 0 {
+				translator.WriteByte('\n')
 			}
-			comment.Translator += line
+			translator.WriteString(line)
 		case commentExtracted:
 			line = strings.TrimSpace(line[2:]) // #.
-			if comment.Extracted != "" {
-				comment.Extracted += "\n"
+			if extracted.Len() > 0 {
+				extracted.WriteByte('\n')
 			}
-			comment.Extracted += line
+			extracted.WriteString(line)
 		case commentFlags:
 			line = strings.TrimSpace(line[2:]) // #,
 			rawFlags := strings.FieldsFunc(line, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })
@@ -256,19 +263,19 @@ func (p *Parser) parseComment() (*Comment, error) {
 			if line == "" {
 				continue
 			}
-			comment.PrevMsgContext += DecodePoString(line)
+			prevMsgContext.WriteString(DecodePoString(line))
 		case commentPrevContextLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
-			comment.PrevMsgContext += DecodePoString(line)
+			prevMsgContext.WriteString(DecodePoString(line))
 		case commentPrevMsgID:
 			line = strings.TrimSpace(line[8:]) // #| msgid
 			if line == "" {
 				continue
 			}
-			comment.PrevMsgID += DecodePoString(line)
+			prevMsgID.WriteString(DecodePoString(line))
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
-			comment.PrevMsgID += DecodePoString(line)
+			prevMsgID.WriteString(DecodePoString(line))
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
@@ -298,6 +305,10 @@ func (p *Parser) parseComment() (*Comment, error) {
 			}
 		default:
 			p.unscan()
+			comment.Translator = translator.String()
+			comment.Extracted = extracted.String()
+			comment.PrevMsgContext = prevMsgContext.String()
+			comment.PrevMsgID = prevMsgID.String()
 			return comment, nil
 		}
 	}
-- 
2.43.0


From 6a2b40aa08f28e20783bca145c37413245c5faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 53/68] fix: counts of a named float type used the text of its
 String method

---
 internal/cast/number.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/cast/number.go b/internal/cast/number.go
index 94736c9..3059abd 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -50,7 +50,10 @@ func ToNumber(n any) (float64, error) {
 		return res, nil
 	}
 
-	switch reflect.TypeOf(n).Kind() {
+	switch t := reflect.TypeOf(n); t.Kind() {
+	case reflect.Float32, reflect.Float64:
+		// the type may have a String method, which need not return the number
+		return ToNumber(strconv.FormatFloat(reflect.ValueOf(n).Float(), 'g', -1, t.Bits()))
 	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan, reflect.Func:
 		// would be formatted as their address
 		return 0, fmt.Errorf("unable to cast %#v of type %T to float64", n, n)
-- 
2.43.0


From 5c15715dd2c149a5df06c1afe9db5492dedffae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 54/68] fix: a JSON catalog read from several files wrote one
 of two messages of a key at random

---
 catalog/json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index fff831e..a494d5c 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -118,7 +118,7 @@ func (c jsonCatalog) Language() language.Tag { return c.language }
 func (c jsonCatalog) Messages() JSONMessages {
 	cpy := make(JSONMessages, len(c.lookupMap))
 
-	for ctx := range c.lookupMap {
+	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
 		for key := range c.lookupMap[ctx] {
 			msg := c.lookupMap[ctx][key]
 			cpy[key] = msg.Clone()
@@ -215,7 +215,7 @@ func (c *jsonCatalog) UnmarshalJSON(data []byte) error {
 func (c jsonCatalog) MarshalJSON() ([]byte, error) {
 	messages := make(JSONMessages, len(c.lookupMap))
 
-	for ctx := range c.lookupMap {
+	for _, ctx := range slices.Sorted(maps.Keys(c.lookupMap)) {
 		for key := range c.lookupMap[ctx] {
 			messages[key] = c.lookupMap[ctx][key]
 		}
-- 
2.43.0


From 9b1d48a0c1e3cef3cac17bc5b7cb2de42344c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 55/68] fix: a JSON message with a single category other than
 other was written as an empty text

---
 catalog/json.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index a494d5c..86203c6 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -369,8 +369,9 @@ func (m JSONMessage) MarshalJSON() ([]byte, error) {
 
 	// If only Other is set, only Other is returned.
 	if m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
-		other := m.Translations[cldrplural.Other]
-		return json.Marshal(other)
+		if other, hasOther := m.Translations[cldrplural.Other]; hasOther {
+			return json.Marshal(other)
+		}
 	}
 
 	var buf bytes.Buffer
-- 
2.43.0


From ae742a6a5e1a98b737dd97207c4322453f82c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 56/68] fix: the previous plural of a PO message was appended
 to its previous text

---
 catalog/po/parser.go  |  8 ++++++--
 catalog/po/scanner.go | 11 ++++++++---
 catalog/po/token.go   |  2 ++
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 7af3c1f..0ea5353 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -165,7 +165,8 @@ loop:
 		tok, _ := p.scan()
 		switch tok {
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine,
+			commentPrevPlural, commentPrevPluralLine:
 			p.unscan()
 			comment, err := p.parseComment()
 			if err != nil {
@@ -191,7 +192,8 @@ loop:
 		case failure:
 			return nil, p.buildPosError()
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine,
+			commentPrevPlural, commentPrevPluralLine:
 			// Message completed, the comment belongs to the next message
 			p.unscan()
 			return msg, nil
@@ -276,6 +278,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
 			prevMsgID.WriteString(DecodePoString(line))
+		case commentPrevPlural, commentPrevPluralLine:
+			// A comment has no place for the previous plural
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index bf9ba7c..5a08614 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -9,9 +9,10 @@ import (
 )
 
 var (
-	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)  // #| msgctxt
-	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)    // #| msgid
-	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`) // #| "message"
+	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)      // #| msgctxt
+	rePrevPluralComments     = regexp.MustCompile(`^#\|\s+msgid_plural`) // #| msgid_plural
+	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)        // #| msgid
+	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`)     // #| "message"
 
 	reMsgContext   = regexp.MustCompile(`^msgctxt\s+".*"\s*$`)           // msgctxt
 	reMsgID        = regexp.MustCompile(`^msgid\s+".*"\s*$`)             // msgid
@@ -172,6 +173,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 		// #| "..."
 		if rePrevMsgContextComments.MatchString(line) {
 			return commentPrevContext, line
+		} else if rePrevPluralComments.MatchString(line) {
+			return commentPrevPlural, line
 		} else if rePrevMsgIDComments.MatchString(line) {
 			return commentPrevMsgID, line
 		} else if rePrevStringLineComments.MatchString(line) {
@@ -180,6 +183,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 				return commentPrevContextLine, line
 			case commentPrevMsgID, commentPrevMsgIDLine:
 				return commentPrevMsgIDLine, line
+			case commentPrevPlural, commentPrevPluralLine:
+				return commentPrevPluralLine, line
 			default:
 				return commentPrevUnknown, line
 			}
diff --git a/catalog/po/token.go b/catalog/po/token.go
index f655731..258246b 100644
--- a/catalog/po/token.go
+++ b/catalog/po/token.go
@@ -14,6 +14,8 @@ const (
 	commentPrevContextLine              // "#| \"prev-ctx\""
 	commentPrevMsgID                    // "#| msgid"
 	commentPrevMsgIDLine                // "#| \"prev-msg\""
+	commentPrevPlural                   // "#| msgid_plural"
+	commentPrevPluralLine               // "#| \"prev-plural\""
 	commentPrevUnknown                  // "#| \"unknown\""
 	msgContext                          // "msgctxt"
 	msgContextLine                      // "\"more context\""
-- 
2.43.0


From 7479f7074f69a075f6595704bc5f7fcd7bd991f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 57/68] fix: PO keywords followed by a tab or directly by the
 text were not read

---
 catalog/po/parser.go  | 10 +++++-----
 catalog/po/scanner.go | 22 +++++++++++-----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 0ea5353..95b805a 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -201,13 +201,13 @@ loop:
 			// Message completed
 			return msg, nil
 		case msgContext:
-			line := lit[8:] // msgctxt
+			line := lit[7:] // msgctxt
 			begin(line, func(s string) { msg.Context = s })
 		case msgID:
-			line := lit[6:] // msgid
+			line := lit[5:] // msgid
 			begin(line, func(s string) { msg.ID = s })
 		case msgIDPlural:
-			line := lit[13:] // msgid_plural
+			line := lit[12:] // msgid_plural
 			begin(line, func(s string) { msg.IDPlural = s })
 		case msgStr:
 			line := lit[6:] // msgstr
@@ -261,7 +261,7 @@ func (p *Parser) parseComment() (*Comment, error) {
 			rawFlags := strings.FieldsFunc(line, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })
 			comment.Flags = append(comment.Flags, rawFlags...)
 		case commentPrevContext:
-			line = strings.TrimSpace(line[10:]) // #| msgctxt
+			line = strings.TrimSpace(line[strings.Index(line, msgCtxPrefix)+len(msgCtxPrefix):]) // #| msgctxt
 			if line == "" {
 				continue
 			}
@@ -270,7 +270,7 @@ func (p *Parser) parseComment() (*Comment, error) {
 			line = strings.TrimSpace(line[2:]) // #| "..."
 			prevMsgContext.WriteString(DecodePoString(line))
 		case commentPrevMsgID:
-			line = strings.TrimSpace(line[8:]) // #| msgid
+			line = strings.TrimSpace(line[strings.Index(line, msgIDPrefix)+len(msgIDPrefix):]) // #| msgid
 			if line == "" {
 				continue
 			}
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 5a08614..a7f685d 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -9,21 +9,21 @@ import (
 )
 
 var (
-	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)      // #| msgctxt
-	rePrevPluralComments     = regexp.MustCompile(`^#\|\s+msgid_plural`) // #| msgid_plural
-	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)        // #| msgid
-	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`)     // #| "message"
-
-	reMsgContext   = regexp.MustCompile(`^msgctxt\s+".*"\s*$`)           // msgctxt
-	reMsgID        = regexp.MustCompile(`^msgid\s+".*"\s*$`)             // msgid
-	reMsgIDPlural  = regexp.MustCompile(`^msgid_plural\s+".*"\s*$`)      // msgid_plural
+	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s*msgctxt`)      // #| msgctxt
+	rePrevPluralComments     = regexp.MustCompile(`^#\|\s*msgid_plural`) // #| msgid_plural
+	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s*msgid`)        // #| msgid
+	rePrevStringLineComments = regexp.MustCompile(`^#\|\s*".*"\s*$`)     // #| "message"
+
+	reMsgContext   = regexp.MustCompile(`^msgctxt\s*".*"\s*$`)           // msgctxt
+	reMsgID        = regexp.MustCompile(`^msgid\s*".*"\s*$`)             // msgid
+	reMsgIDPlural  = regexp.MustCompile(`^msgid_plural\s*".*"\s*$`)      // msgid_plural
 	reMsgStr       = regexp.MustCompile(`^msgstr\s*".*"\s*$`)            // msgstr
 	reMsgStrPlural = regexp.MustCompile(`^msgstr\s*(\[\d+])\s*".*"\s*$`) // msgstr[0]
 	reMsgLine      = regexp.MustCompile(`^\s*".*"\s*$`)                  // "message"
 
-	msgCtxPrefix      = "msgctxt "
-	msgIDPrefix       = "msgid "
-	msgIDPluralPrefix = "msgid_plural "
+	msgCtxPrefix      = "msgctxt"
+	msgIDPrefix       = "msgid"
+	msgIDPluralPrefix = "msgid_plural"
 	msgStrPrefix      = "msgstr"
 	emptyMessageStr   = `msgstr ""`
 )
-- 
2.43.0


From e2eddd022d45555f0082538755150c645d4121c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 58/68] fix: the previous context and text of a PO message were
 not written

---
 catalog/po/encoder.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 91bb456..bc64349 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -220,6 +220,21 @@ func (enc *Encoder) encodeComment(buff *bytes.Buffer, c *Comment) {
 		buff.WriteString(strings.Join(c.Flags, ", "))
 		buff.WriteString("\n")
 	}
+
+	enc.encodePrevious(buff, "msgctxt", c.PrevMsgContext)
+	enc.encodePrevious(buff, "msgid", c.PrevMsgID)
+}
+
+func (enc *Encoder) encodePrevious(buff *bytes.Buffer, keyword, text string) {
+	if text == "" {
+		return
+	}
+
+	for _, line := range strings.Split(keyword+" "+EncodePoString(text, enc.wrapWidth), "\n") {
+		buff.WriteString("#| ")
+		buff.WriteString(line)
+		buff.WriteString("\n")
+	}
 }
 
 func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
-- 
2.43.0


From 64443913cc79518fdbf1eb24d5098ffcdbf027aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 59/68] fix: bound the work for plural operands with a huge
 compact exponent

---
 catalog/cldrplural/cldr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 0263b64..15f303e 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -166,6 +166,9 @@ func newOperandsString(raw string) (*Operands, error) {
 	return op, nil
 }
 
+// maxAppendedZeros is larger than the largest decimal exponent of a float64.
+const maxAppendedZeros = 400
+
 func shiftDecimalPoint(raw string, c int) string {
 	var s strings.Builder
 
@@ -185,7 +188,8 @@ func shiftDecimalPoint(raw string, c int) string {
 		s.WriteRune(r)
 	}
 
-	for i := 0; i < c; i++ {
+	// More zeros cannot be represented, the value is out of range anyway (or zero)
+	for i := 0; i < min(c, maxAppendedZeros); i++ {
 		s.WriteRune('0')
 	}
 	return s.String()
-- 
2.43.0


From 182275a3532611fea6f5011eafd14fa5c808e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 60/68] fix: Ordinal, Apnumber and FilesizeFormat of numbers
 beyond the int64 range

---
 humanize/helper.go  | 50 +++++++++++++++++++++++++++++++--------------
 humanize/numbers.go | 19 ++++++++---------
 2 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 7f871bb..6d548bf 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -40,11 +40,11 @@ func (h *Humanizer) Language() language.Tag {
 }
 
 const (
-	kb = int64(1) << 10
-	mb = int64(1) << 20
-	gb = int64(1) << 30
-	tb = int64(1) << 40
-	pb = int64(1) << 50
+	kb = float64(1 << 10)
+	mb = float64(1 << 20)
+	gb = float64(1 << 30)
+	tb = float64(1 << 40)
+	pb = float64(1 << 50)
 )
 
 // FilesizeFormat format the value like a 'human-readable' file size (i.e. 13 KB, 4.1 MB, 102 bytes, etc.).
@@ -52,16 +52,16 @@ const (
 // Valid inputs are byte arrays or any numeric value.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) FilesizeFormat(v any) string {
-	var count int64
+	var count float64
 	switch val := v.(type) {
 	case []byte:
-		count = int64(len(val))
+		count = float64(len(val))
 	default:
-		value, err := cast.ToNumber(v)
+		value, err := toWhole(v)
 		if err != nil {
 			return formatErrorMessage(v)
 		}
-		count = int64(value)
+		count = value
 	}
 
 	isNegative := count < 0
@@ -71,21 +71,21 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 
 	var result string
 	if count < kb {
-		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", count, count)
+		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", int64(count), int64(count))
 	} else if count < mb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(kb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/kb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s KB", formatted)
 	} else if count < gb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(mb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/mb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s MB", formatted)
 	} else if count < tb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(gb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/gb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s GB", formatted)
 	} else if count < pb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(tb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/tb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s TB", formatted)
 	} else {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(pb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/pb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s PB", formatted)
 	}
 
@@ -95,6 +95,26 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 	return result
 }
 
+// toWhole interprets a value as a whole number. The decimals are dropped.
+func toWhole(v any) (float64, error) {
+	num, err := cast.ToNumber(v)
+	if err != nil {
+		return 0, err
+	}
+	if math.IsNaN(num) || math.IsInf(num, 0) {
+		return 0, fmt.Errorf("%v is not a whole number", num)
+	}
+	return math.Trunc(num), nil
+}
+
+// wholeNumber returns a value which is formatted as an integer, also if num cannot be represented as an int64.
+func wholeNumber(num float64) any {
+	if math.Abs(num) < 1<<63 {
+		return int64(num)
+	}
+	return number.Decimal(num, number.MaxFractionDigits(0))
+}
+
 func floorDivision(a, b float64) int64 {
 	return int64(math.Floor(toFixed(a/b, 3)))
 }
diff --git a/humanize/numbers.go b/humanize/numbers.go
index 13d9d82..e0b7636 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -34,17 +34,16 @@ var apnumbers = []string{
 //
 // - 10 becomes 10.
 func (h *Humanizer) Apnumber(val any) string {
-	fl, err := cast.ToNumber(val)
+	num, err := toWhole(val)
 	if err != nil {
 		return formatErrorMessage(val)
 	}
 
-	num := int64(fl)
 	if num <= 0 || num >= 10 {
-		return h.loc.Print("%d", num)
+		return h.loc.Print("%v", wholeNumber(num))
 	}
 
-	return h.loc.Get(apnumbers[num-1])
+	return h.loc.Get(apnumbers[int(num)-1])
 }
 
 // A tuple of standard large number to their converters.
@@ -145,21 +144,21 @@ var ordinalTemplates = []struct {
 //
 // Valid inputs are all values that can be interpreted as a number.
 func (h *Humanizer) Ordinal(i any) string {
-	floatValue, err := cast.ToNumber(i)
+	num, err := toWhole(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	if floatValue < 0 {
-		return strconv.FormatInt(int64(floatValue), 10)
+	if num < 0 {
+		return strconv.FormatFloat(num, 'f', 0, 64)
 	}
 
-	value := int64(floatValue)
-	switch value % 100 {
+	value := wholeNumber(num)
+	switch math.Mod(num, 100) {
 	case 11, 12, 13:
 		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)
 	}
 
-	template := ordinalTemplates[value%10]
+	template := ordinalTemplates[int(math.Mod(num, 10))]
 	return h.loc.PGetf(template.Context, template.ID, value)
 }
-- 
2.43.0


From ca92c8e05145e0301e3311da235d8e997dce8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 61/68] fix: numbers that no point in time can represent

---
 internal/cast/time.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cast/time.go b/internal/cast/time.go
index 1e02410..56b0158 100644
--- a/internal/cast/time.go
+++ b/internal/cast/time.go
@@ -3,9 +3,13 @@ package cast
 import (
 	"errors"
 	"fmt"
+	"math"
 	"time"
 )
 
+// maxUnixSeconds limits the seconds since the Unix epoch, a time.Time cannot represent many more.
+const maxUnixSeconds = math.MaxInt64 - 1<<37
+
 func ToTime(i any) (t time.Time, err error) {
 	i = Indirect(i)
 	if i == nil {
@@ -19,7 +23,7 @@ func ToTime(i any) (t time.Time, err error) {
 		return time.Now().Add(v), nil
 	}
 
-	if num, err := ToNumber(i); err == nil {
+	if num, err := ToNumber(i); err == nil && math.Abs(num) <= maxUnixSeconds {
 		return time.Unix(int64(num), 0), nil
 	}
 	return time.Time{}, fmt.Errorf("unable to cast %#v of type %T to Time", i, i)
-- 
2.43.0


From 176eef8be547fdd8e0a61590c4c637e45c898257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 62/68] fix: NaturalTime of instants more than 292 years away
 lost a second

---
 humanize/date.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 8bb5dd6..a90d760 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -135,8 +135,10 @@ func (h *Humanizer) NaturalTime(i any) string {
 		deltaSec := int64(delta.Truncate(time.Second).Seconds())
 
 		if deltaSec >= 24*60*60 {
+			// delta is limited to about 292 years, the fraction of a second is not
+			fraction := time.Duration(now.Nanosecond()-t.Nanosecond()+int(time.Second)) % time.Second
 			entry := naturalTimeStrings["past-day"]
-			timeSince := h.TimeSince(t, WithNow(now.Add(delta.Truncate(time.Second)-delta)), withTimeStrings(naturalPastSubstrings))
+			timeSince := h.TimeSince(t, WithNow(now.Add(-fraction)), withTimeStrings(naturalPastSubstrings))
 			return h.loc.Getf(entry.singular, timeSince)
 		} else if deltaSec == 0 {
 			entry := naturalTimeStrings["now"]
@@ -158,8 +160,9 @@ func (h *Humanizer) NaturalTime(i any) string {
 	delta := t.Sub(now)
 	deltaSec := int64(delta.Round(time.Second).Seconds())
 	if deltaSec >= 24*60*60 {
+		fraction := time.Duration(t.Nanosecond()-now.Nanosecond()+int(time.Second)) % time.Second
 		entry := naturalTimeStrings["future-day"]
-		timeSince := h.TimeUntil(t, WithNow(now.Add(delta-delta.Round(time.Second))), withTimeStrings(naturalFutureSubstrings))
+		timeSince := h.TimeUntil(t, WithNow(now.Add(fraction-fraction.Round(time.Second))), withTimeStrings(naturalFutureSubstrings))
 		return h.loc.Getf(entry.singular, timeSince)
 	} else if deltaSec == 0 {
 		entry := naturalTimeStrings["now"]
-- 
2.43.0


From 32a247e6ad84007af13df85d38113d9cb02fb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 63/68] fix: names of PO header fields were written without
 escaping

---
 catalog/po/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index bc64349..4bbe4d0 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -165,7 +165,7 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
 		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
-- 
2.43.0


From a97ceb3a471671f7a2ecf4a2b68b462dfecf0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 64/68] fix: CLDR rules with a range that ends at 0 or at a
 number with leading zeros were refused

---
 catalog/cldrplural/ast/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/scanner.go b/catalog/cldrplural/ast/scanner.go
index fd25ccb..98d3564 100644
--- a/catalog/cldrplural/ast/scanner.go
+++ b/catalog/cldrplural/ast/scanner.go
@@ -28,7 +28,7 @@ const (
 
 var (
 	reValue       = regexp.MustCompile(`^\d+$`)
-	reRange       = regexp.MustCompile(`^\d+\.\.[1-9]\d*$`)
+	reRange       = regexp.MustCompile(`^(?:\d+\.\.0*[1-9]\d*|0+\.\.0+)$`)
 	reSampleValue = regexp.MustCompile(`^((?:0|[1-9]\d*c?\d*)(?:\.\d*)?|(?:0|[1-9]\d*\d*)(?:\.\d*c?\d*)?)$`)
 	reSampleRange = regexp.MustCompile(`^(?:0|[1-9]\d*)(?:\.\d*)?~(?:0|[1-9]\d*)(?:\.\d*)?$`)
 )
-- 
2.43.0


From 1697e20d4c3b5ebe8ff54c8429a9394270d8df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 65/68] fix: a PO entry with blank lines between its parts was
 torn apart

---
 catalog/po/parser.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 95b805a..6928b98 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -154,8 +154,10 @@ func (p *Parser) parseMessage() (*Message, error) {
 		text.Reset()
 		store = nil
 	}
+	started, hasID := false, false
 	begin := func(s string, f func(s string)) {
 		finish()
+		started = true
 		text.WriteString(DecodePoString(s))
 		store = f
 	}
@@ -197,7 +199,15 @@ loop:
 			// Message completed, the comment belongs to the next message
 			p.unscan()
 			return msg, nil
-		case eof, whitespace:
+		case eof:
+			// Message completed
+			return msg, nil
+		case whitespace:
+			finish()
+			if started && p.isContinued(msg, hasID) {
+				// A blank line between the parts of a message has no meaning
+				continue
+			}
 			// Message completed
 			return msg, nil
 		case msgContext:
@@ -205,6 +215,7 @@ loop:
 			begin(line, func(s string) { msg.Context = s })
 		case msgID:
 			line := lit[5:] // msgid
+			hasID = true
 			begin(line, func(s string) { msg.ID = s })
 		case msgIDPlural:
 			line := lit[12:] // msgid_plural
@@ -233,6 +244,23 @@ loop:
 	}
 }
 
+// isContinued reports whether the next token belongs to a message of which a part was already read.
+func (p *Parser) isContinued(msg *Message, hasID bool) bool {
+	tok, _ := p.scan()
+	p.unscan()
+
+	switch tok {
+	case msgID:
+		return !hasID
+	case msgIDPlural, msgStr:
+		return len(msg.Str) == 0
+	case msgStrPlural:
+		return true
+	default:
+		return false
+	}
+}
+
 func (p *Parser) parseComment() (*Comment, error) {
 	comment := NewComment()
 	var translator, extracted, prevMsgContext, prevMsgID strings.Builder
-- 
2.43.0


From 21518e996e499f71751f448dc9f8768ca31af699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:19 +0000
Subject: [PATCH 66/68] fix: the CLDR generator called a function that does not
 exist for two ranges of an integer operand

---
 catalog/cldrplural/generator/compiler.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/catalog/cldrplural/generator/compiler.go b/catalog/cldrplural/generator/compiler.go
index df507b9..99ebbb1 100644
--- a/catalog/cldrplural/generator/compiler.go
+++ b/catalog/cldrplural/generator/compiler.go
@@ -56,17 +56,17 @@ func compileNode(node ast.Node) string {
 
 		var b strings.Builder
 		if valueCount := len(valueRanges); valueCount > 0 {
-			if valueCount == 2 && !isFloatOperand {
-				b.WriteString(fmt.Sprintf("(%[1]s >= %[2]s && %[1]s <= %[3]s)", compiledExpr, valueRanges[0], valueRanges[1]))
-			} else {
-				if isFloatOperand {
-					b.WriteString(fmt.Sprintf("isFloatInRange(%s, ", compiledExpr))
-				} else {
-					b.WriteString(fmt.Sprintf("isIntInRange(%s, ", compiledExpr))
-				}
-
+			if isFloatOperand {
+				b.WriteString(fmt.Sprintf("isFloatInRange(%s, ", compiledExpr))
 				b.WriteString(strings.Join(valueRanges, ","))
 				b.WriteString(")")
+			} else {
+				for i := 0; i < valueCount; i += 2 {
+					if i > 0 {
+						b.WriteString(" || ")
+					}
+					b.WriteString(fmt.Sprintf("(%[1]s >= %[2]s && %[1]s <= %[3]s)", compiledExpr, valueRanges[i], valueRanges[i+1]))
+				}
 			}
 		}
 
-- 
2.43.0


From 5577066e5cfea46cec3ad281fb1116b9fcd0012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 67/68] fix: the CLDR generator took the same condition in
 different categories for the same rules

---
 catalog/cldrplural/generator/json.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/catalog/cldrplural/generator/json.go b/catalog/cldrplural/generator/json.go
index 38c17ad..80e1edf 100644
--- a/catalog/cldrplural/generator/json.go
+++ b/catalog/cldrplural/generator/json.go
@@ -79,12 +79,10 @@ func (j *ruleJSON) ToData() []*ruleData {
 
 func (j *ruleJSON) hash() string {
 	h := sha256.New()
-	h.Write([]byte(j.Zero))
-	h.Write([]byte(j.One))
-	h.Write([]byte(j.Two))
-	h.Write([]byte(j.Few))
-	h.Write([]byte(j.Many))
-	h.Write([]byte(j.Other))
+	for _, rule := range []string{j.Zero, j.One, j.Two, j.Few, j.Many, j.Other} {
+		h.Write([]byte(rule))
+		h.Write([]byte{0}) // the same text is another rule in another category
+	}
 	return hex.EncodeToString(h.Sum(nil))
 }
 
-- 
2.43.0


From ca76989c954dcd15ffde2c3e2457b361dc7af8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:19 +0000
Subject: [PATCH 68/68] fix: references separated by several blanks or tabs
 were read with empty paths

---
 catalog/po/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 6928b98..db72b68 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -309,11 +309,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentPrevPlural, commentPrevPluralLine:
 			// A comment has no place for the previous plural
 		case commentReference:
-			line = strings.TrimSpace(line[2:]) // #:
-
-			rawReferences := strings.Split(line, " ")
-			for _, rawRef := range rawReferences {
-				rawRef = strings.TrimSpace(rawRef)
+			// #:
+			for _, rawRef := range strings.Fields(line[2:]) {
 				colonIdx := strings.Index(rawRef, ":")
 				if colonIdx <= 0 {
 					// no line number
-- 
2.43.0

