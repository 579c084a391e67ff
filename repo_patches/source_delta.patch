From 8d044f7a4a878a02d5ed94472ef1effa1447fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 01/51] fix: escape and unescape control characters in PO
 strings

EncodePoString panicked for control characters without a short escape
sequence, and DecodePoString did not understand the \xHH form it writes.
---
 catalog/po/po_string.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..73b36c6 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -295,7 +296,7 @@ func escapePoString(s string) string {
 			default:
 				buf.WriteByte('x')
 				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				buf.WriteByte(hex[b&0xF])
 			}
 			i++
 			start = i
@@ -323,6 +324,18 @@ func escapePoString(s string) string {
 	return buf.String()
 }
 
+// unescapeHex decodes the two hex digits of a \xHH escape sequence of an ASCII character.
+func unescapeHex(s []byte) (byte, bool) {
+	if len(s) < 2 {
+		return 0, false
+	}
+	v, err := strconv.ParseUint(string(s[:2]), 16, 8)
+	if err != nil || v >= utf8.RuneSelf {
+		return 0, false
+	}
+	return byte(v), true
+}
+
 func unescapePoBytes(s []byte) []byte {
 	// Check for unusual characters. If there are none,
 	// then no unquoting is needed, so return a slice of the
@@ -397,6 +410,15 @@ func unescapePoBytes(s []byte) []byte {
 				b[w] = '\v'
 				r++
 				w++
+			case 'x':
+				// Control characters are written as \xHH
+				if v, ok := unescapeHex(s[r+1:]); ok {
+					b[w] = v
+					r += 3
+				} else {
+					b[w] = '\\'
+				}
+				w++
 			default:
 				b[w] = '\\'
 				w++
-- 
2.43.0


From c8ff7809eca2caea19e2727f08887b07481c161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 02/51] fix: do not loop forever on a PO string ending with a
 backslash

---
 catalog/po/po_string.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index 73b36c6..8dcd21f 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -374,6 +374,10 @@ func unescapePoBytes(s []byte) []byte {
 		switch c := s[r]; {
 		case c == '\\':
 			if r+1 >= len(s) {
+				// A backslash at the end escapes nothing
+				b[w] = c
+				r++
+				w++
 				break
 			}
 			r++
-- 
2.43.0


From 42b090be0c21742f600c47ad2d03f6e7cbdf073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 03/51] fix: keep plural forms when the first one is missing
 while encoding a PO file

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..7749fd5 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -250,8 +250,8 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 		m[k] = EncodePoString(v, enc.wrapWidth)
 	}
 
-	// We need at least one entry
-	if len(m) == 0 {
+	// We need at least the first entry
+	if _, ok := m[0]; !ok {
 		m[0] = `""`
 	}
 
-- 
2.43.0


From f9b4a332bb5924d63ffb82d6ba54e23d96ed5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 04/51] fix: write unknown PO header fields in a stable order

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 7749fd5..84456d1 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -137,8 +137,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
-- 
2.43.0


From 604062cec22e2d6d0550b62c37e3ec1aa0eb850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 05/51] fix: escape PO header fields while encoding

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 84456d1..dfe0a55 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -164,9 +164,9 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
-- 
2.43.0


From f23204414d5cc7716d1528deea4990d6b7337af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 06/51] fix: read PO translations independent of the spacing
 before the text

---
 catalog/po/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..c277d61 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -178,7 +178,7 @@ loop:
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
+			line := lit[6:] // msgstr
 			msg.Str[0] = DecodePoString(line)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
@@ -191,7 +191,7 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
+			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
 		case msgStrPluralLine:
 			lastIdx := len(msg.Str) - 1
-- 
2.43.0


From 0715adc7466cda76d5075d335a8b9475043e94f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 07/51] fix: append a continued PO plural translation to the
 form it belongs to

---
 catalog/po/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index c277d61..1ab9055 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -153,6 +153,7 @@ loop:
 		}
 	}
 
+	lastIdx := -1 // index of the plural translation read last
 	for {
 		tok, lit := p.scan()
 		switch tok {
@@ -193,8 +194,8 @@ loop:
 
 			line := lit[right+1:] // msgstr[x]
 			msg.Str[idx] = DecodePoString(line)
+			lastIdx = idx
 		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
 			if lastIdx < 0 {
 				return nil, p.buildPosError()
 			}
-- 
2.43.0


From 6caf912cf0582960795bc3cdb65ca3987408373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 08/51] fix: read PO references separated by several blanks

---
 catalog/po/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 1ab9055..5792e0a 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -253,9 +253,7 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
-			rawReferences := strings.Split(line, " ")
-			for _, rawRef := range rawReferences {
-				rawRef = strings.TrimSpace(rawRef)
+			for _, rawRef := range strings.Fields(line) {
 				colonIdx := strings.Index(rawRef, ":")
 				if colonIdx <= 0 {
 					// no line number
-- 
2.43.0


From bed3aefb5bd431c5531749d243f452cccc3a0ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:02 +0000
Subject: [PATCH 09/51] fix: do not lose PO messages and comments without or
 with additional blank lines

---
 catalog/po/parser.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5792e0a..831a6c3 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -153,22 +153,47 @@ loop:
 		}
 	}
 
+	started, hasID := false, false
 	lastIdx := -1 // index of the plural translation read last
 	for {
 		tok, lit := p.scan()
+		if !hasID && (tok == msgIDPlural || tok == msgStr || tok == msgStrPlural) {
+			return nil, p.buildPosError()
+		}
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+		case eof:
 			// Message completed
 			return msg, nil
+		case whitespace:
+			if !started {
+				// Detached comments
+				return msg, nil
+			}
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			// Message completed, the comment belongs to the next one
+			p.unscan()
+			return msg, nil
 		case msgContext:
+			if started {
+				// Next message without a separating blank line
+				p.unscan()
+				return msg, nil
+			}
+			started = true
 			line := lit[8:] // msgctxt
 			msg.Context = DecodePoString(line)
 		case msgContextLine:
 			msg.Context += DecodePoString(lit)
 		case msgID:
+			if hasID {
+				// Next message without a separating blank line
+				p.unscan()
+				return msg, nil
+			}
+			started, hasID = true, true
 			line := lit[6:] // msgid
 			msg.ID = DecodePoString(line)
 		case msgIDLine:
-- 
2.43.0


From 9f18d49b4129a773e62e84240ba4755ff44a00dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 10/51] fix: report read errors instead of returning a
 truncated PO file

---
 catalog/po/parser.go  |  3 +++
 catalog/po/scanner.go | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 831a6c3..265c1f0 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -330,6 +330,9 @@ func (p *Parser) parseHeader(msg *Message) (*Header, error) {
 }
 
 func (p *Parser) buildPosError() error {
+	if p.s.err != nil {
+		return fmt.Errorf("po file could not be read: line %d: %w", p.s.pos, p.s.err)
+	}
 	return fmt.Errorf("po file could not be parsed: line %d %q", p.s.pos, p.s.currentLine())
 }
 
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..45c0e9d 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -33,6 +33,8 @@ type scanner struct {
 	// pos is the current line number
 	pos int
 	n   int
+	// err is the error of the underlying reader
+	err error
 
 	ignoreComments bool
 }
@@ -50,8 +52,11 @@ func (s *scanner) scan() (tok token, lit string) {
 		s.lastToken = tok
 	}()
 
-	if err != nil {
+	if err == io.EOF {
 		return eof, ""
+	} else if err != nil {
+		s.err = err
+		return failure, ""
 	}
 
 	// Short path for better performance
@@ -184,7 +189,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 func (s *scanner) scanWhitespace() (tok token, lit string) {
 	for {
 		line, err := s.read()
-		if err == io.EOF {
+		if err != nil {
 			break
 		}
 
@@ -206,11 +211,11 @@ func (s *scanner) read() (string, error) {
 	}
 
 	if !s.lineScanner.Scan() {
+		if err := s.lineScanner.Err(); err != nil {
+			return "", err
+		}
 		return "", io.EOF
 	}
-	if s.lineScanner.Err() != nil {
-		return "", s.lineScanner.Err()
-	}
 
 	s.pos++
 	return s.lineScanner.Text(), nil
-- 
2.43.0


From cbe807c4b0c087233f25ae829047e3d9b857bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 11/51] fix: order PO messages by a total order so that the
 encoded file is reproducible

---
 catalog/po/encoder.go | 54 +++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index dfe0a55..e843470 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -2,6 +2,7 @@ package po
 
 import (
 	"bytes"
+	"cmp"
 	"fmt"
 	"io"
 	"maps"
@@ -272,46 +273,33 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 }
 
+// DefaultSortFunction orders messages by their references, then by context and ID.
+// Messages without references come first.
 func DefaultSortFunction(a *Message, b *Message) int {
-	if a.Comment != nil && b.Comment != nil {
-		a.Comment.sort()
-		b.Comment.sort()
-
-		for i := 0; i < len(a.Comment.References); i++ {
-			if i >= len(b.Comment.References) {
-				break
-			}
-			if c := strings.Compare(a.Comment.References[i].Path, b.Comment.References[i].Path); c != 0 {
-				return c
-			}
-			if c, k := a.Comment.References[i].Line, b.Comment.References[i].Line; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-			if c, k := a.Comment.References[i].Column, b.Comment.References[i].Column; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-
-			if c, k := a.Comment.References[i].Path, b.Comment.References[i].Path; c != "" && k != "" {
-				return strings.Compare(c, k)
-			}
-		}
+	if c := slices.CompareFunc(sortedReferences(a), sortedReferences(b), compareReferences); c != 0 {
+		return c
 	}
 
 	if c := strings.Compare(a.Context, b.Context); c != 0 {
 		return c
 	}
 
-	if c := strings.Compare(a.ID, b.ID); c != 0 {
-		return c
+	return strings.Compare(a.ID, b.ID)
+}
+
+func sortedReferences(m *Message) []*Reference {
+	if m.Comment == nil {
+		return nil
 	}
 
-	return 0
+	m.Comment.sort()
+	return m.Comment.References
+}
+
+func compareReferences(a, b *Reference) int {
+	return cmp.Or(
+		strings.Compare(a.Path, b.Path),
+		cmp.Compare(a.Line, b.Line),
+		cmp.Compare(a.Column, b.Column),
+	)
 }
-- 
2.43.0


From a744f0e9b66d141dbf6f2236af5b673a7d6ab1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 12/51] fix: do not panic when copying the messages of a
 gettext catalog

---
 catalog/po.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..59fc9eb 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -67,8 +67,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
 		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
-			cpy[ctx][msgID] = msg.Clone()
+			cpy[ctx][msgID] = c.lookupMap[ctx][msgID].Clone()
 		}
 	}
 	return cpy
-- 
2.43.0


From d90b7d3e018a79c3e2d1cf2c2ad6aeab045dd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 13/51] fix: keep the domain of a decoded gettext catalog

---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From 4576b66c0ca91f2bea9d9133916698f565ad0814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 14/51] fix: reject truncated MO files instead of filling them
 up, without allocating by untrusted lengths

---
 internal/mo/parser.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..35a64cb 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -128,17 +128,14 @@ func (p *parser) parseHeader() error {
 }
 
 func (p *parser) parseMessageData() error {
-	p.messageData = make([]*msgData, p.msgIDCount)
-
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
 		return err
 	}
 
-	for i := 0; i < len(p.messageData); i++ {
-		p.messageData[i] = &msgData{}
-	}
-
-	for _, d := range p.messageData {
+	// The count is not trusted, entries are only created for existing data
+	for range p.msgIDCount {
+		d := &msgData{}
+		p.messageData = append(p.messageData, d)
 		if err := p.binaryRead(&d.idLength); err != nil {
 			return err
 		}
@@ -209,21 +206,15 @@ func (p *parser) parseMessage(data *msgData) (id string, localized string, err e
 	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
 		return
 	}
-	tmp := make([]byte, data.idLength)
-	if err = p.read(tmp); err != nil {
+	if id, err = p.readString(data.idLength); err != nil {
 		return
 	}
-	id = string(tmp)
 
 	if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {
 		return
 	}
 
-	tmp = make([]byte, data.translationLength)
-	if err = p.read(tmp); err != nil {
-		return
-	}
-	localized = string(tmp)
+	localized, err = p.readString(data.translationLength)
 	return
 }
 
@@ -250,7 +241,14 @@ func (p *parser) binaryRead(data any) error {
 	return binary.Read(p.r, p.bo, data)
 }
 
-func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
-	return err
+// readString reads exactly n bytes, without trusting n.
+func (p *parser) readString(n uint32) (string, error) {
+	d, err := io.ReadAll(io.LimitReader(p.r, int64(n)))
+	if err != nil {
+		return "", err
+	}
+	if len(d) != int(n) {
+		return "", io.ErrUnexpectedEOF
+	}
+	return string(d), nil
 }
-- 
2.43.0


From 11a96576172bb68c40985d0bed483479ddc8389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:28 +0000
Subject: [PATCH 15/51] fix: do not apply the flags of an obsolete PO message
 to the next message

---
 catalog/po/parser.go  | 7 +++++++
 catalog/po/scanner.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 265c1f0..eb1c3dc 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -242,6 +242,13 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case failure:
 			return nil, p.buildPosError()
 		case commentTranslator:
+			if strings.HasPrefix(line, "#~") {
+				// The flags read so far belong to an obsolete message
+				comment.Flags = comment.Flags[:0]
+				if p.ignoreComments {
+					continue
+				}
+			}
 			line = strings.TrimSpace(line[1:]) // #
 			if comment.Translator != "" {
 				comment.Translator += "\n"
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 45c0e9d..1213d30 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -150,6 +150,9 @@ func (s *scanner) scanComment(line string) (token, string) {
 		case ',':
 			// Flag comments will always be read
 			break
+		case '~':
+			// Obsolete messages end the flags that stand before them
+			break
 		default:
 			return s.scan()
 		}
-- 
2.43.0


From cd749c62f6ef3205e05c79699ef8bbd8952e99bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 16/51] fix: treat every value but zero as true in plural form
 expressions

---
 catalog/poplural/rule.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..72dc327 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -82,16 +82,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From 3544ef576b6d4e1fcb04cc40846318aa0b713c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 17/51] fix: never select a plural form beyond nplurals

---
 catalog/poplural/rule.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 72dc327..39e375b 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -68,7 +68,11 @@ func generateFormFunc(forms *ast.Forms) func(n int64) int {
 	}
 
 	return func(n int64) int {
-		return int(evaluateNode(forms.Root, n))
+		// Like gettext, fall back to the first form if the expression does not fit nplurals
+		if form := evaluateNode(forms.Root, n); form >= 0 && form < int64(forms.NPlurals) {
+			return int(form)
+		}
+		return 0
 	}
 }
 
-- 
2.43.0


From 012a6c7ba19398fce41839d48f699fed256cef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 18/51] fix: reject plural form headers with invalid numbers

---
 catalog/poplural/ast/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..003351e 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -50,7 +50,11 @@ func (p *parser) Parse() (*Forms, error) {
 	if tok, lit := p.scanIgnoreWhitespace(); tok != Value {
 		return nil, fmt.Errorf("po parser: found %q, expected '=' after nplurals", lit)
 	} else {
-		forms.NPlurals, _ = strconv.Atoi(lit)
+		count, err := strconv.Atoi(lit)
+		if err != nil || count < 1 {
+			return nil, fmt.Errorf("po parser: found %q, expected a positive number after nplurals", lit)
+		}
+		forms.NPlurals = count
 	}
 
 	if tok, lit := p.scanIgnoreWhitespace(); tok != semicolon {
@@ -285,7 +289,10 @@ func (p *parser) pmExpression() (Node, error) {
 		}
 		return &OperandExpr{}, nil
 	case Value:
-		value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+		value, err := strconv.ParseInt(p.lastLiteral, 10, 64)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: found invalid number %q", p.lastLiteral)
+		}
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
-- 
2.43.0


From 63fe8f4d3b088acffc3aff826b91ccf794f05cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:10 +0000
Subject: [PATCH 19/51] fix: do not end a plural forms header at a NUL
 character

---
 catalog/poplural/ast/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/poplural/ast/scanner.go b/catalog/poplural/ast/scanner.go
index b5320b6..250fb1c 100644
--- a/catalog/poplural/ast/scanner.go
+++ b/catalog/poplural/ast/scanner.go
@@ -167,4 +167,4 @@ func isLetter(ch rune) bool { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && c
 func isDigit(ch rune) bool { return ch >= '0' && ch <= '9' }
 
 // eof represents a marker rune for the end of the reader.
-var scannerEOF = rune(0)
+var scannerEOF = rune(-1)
-- 
2.43.0


From 55163be04012c520b846aaf25fc7618d12ef4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 20/51] fix: keep the parentheses of plural form expressions
 when searching a built-in rule

---
 catalog/poplural/ast/compile.go | 61 +++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..e4d6699 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -21,7 +21,7 @@ func compileNode(node Node) string {
 		then := compileNode(v.T)
 		other := compileNode(v.F)
 
-		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
+		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")") || precedenceOf(v.Cond) == precedenceCondition) {
 			cond = "(" + cond + ")"
 		}
 		if len(then) > 1 {
@@ -35,24 +35,65 @@ func compileNode(node Node) string {
 	case *BinaryExpr:
 		switch v.Type() {
 		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceAnd) + " && " + compileOperand(v.Y, precedenceAnd)
 		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
+			return fmt.Sprintf("(%s || %s)", compileOperand(v.X, precedenceAnd), compileOperand(v.Y, precedenceAnd))
 		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceRelational) + " == " + compileOperand(v.Y, precedenceRelational)
 		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceRelational) + " != " + compileOperand(v.Y, precedenceRelational)
 		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceReminder) + " > " + compileOperand(v.Y, precedenceReminder)
 		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceReminder) + " >= " + compileOperand(v.Y, precedenceReminder)
 		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceReminder) + " < " + compileOperand(v.Y, precedenceReminder)
 		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
+			return compileOperand(v.X, precedenceReminder) + " <= " + compileOperand(v.Y, precedenceReminder)
 		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+			return compileOperand(v.X, precedencePrimary) + " % " + compileOperand(v.Y, precedencePrimary)
 		}
 	}
 	return ""
 }
+
+const (
+	precedenceCondition = iota
+	precedenceAnd
+	precedenceEquality
+	precedenceRelational
+	precedenceReminder
+	precedencePrimary
+)
+
+// compileOperand compiles an operand and encloses it in parentheses
+// if it binds weaker than the operator it belongs to requires.
+func compileOperand(node Node, minPrecedence int) string {
+	compiled := compileNode(node)
+	if precedenceOf(node) < minPrecedence {
+		return "(" + compiled + ")"
+	}
+	return compiled
+}
+
+func precedenceOf(node Node) int {
+	if _, isCondition := node.(*QuestionMarkExpr); isCondition {
+		return precedenceCondition
+	}
+
+	if binary, isBinary := node.(*BinaryExpr); isBinary {
+		switch binary.Type() {
+		case LogicalAnd:
+			return precedenceAnd
+		case Equal, NotEqual:
+			return precedenceEquality
+		case Greater, GreaterOrEqual, Less, LessOrEqual:
+			return precedenceRelational
+		case Reminder:
+			return precedenceReminder
+		}
+	}
+
+	// Operands, values and the always enclosed alternatives
+	return precedencePrimary
+}
-- 
2.43.0


From 847614529249e556dc407a8e5ee175b60ef32db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 21/51] fix: evaluate plural forms of large integers exactly
 and reject NaN and infinity

---
 catalog/poplural/rule.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 39e375b..d192ab6 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -1,7 +1,9 @@
 package poplural
 
 import (
+	"fmt"
 	"math"
+	"reflect"
 
 	"github.com/vorlif/spreak/catalog/poplural/ast"
 	"github.com/vorlif/spreak/internal/cast"
@@ -21,13 +23,40 @@ type Rule struct {
 // If the value is not an integer, it is formatted accordingly.
 // If formatting is not possible, an error is returned.
 func (f *Rule) Evaluate(a any) (int, error) {
+	num, err := toCount(a)
+	if err != nil {
+		return 0, err
+	}
+
+	return f.FormFunc(num), nil
+}
+
+// toCount returns the absolute value of a number as integer.
+// Integers keep their exact value, everything else is rounded.
+func toCount(a any) (int64, error) {
+	switch v := reflect.ValueOf(cast.Indirect(a)); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if num := v.Int(); num >= 0 {
+			return num, nil
+		} else if num != math.MinInt64 {
+			return -num, nil
+		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if num := v.Uint(); num <= math.MaxInt64 {
+			return int64(num), nil
+		}
+	}
+
 	num, err := cast.ToNumber(a)
 	if err != nil {
 		return 0, err
 	}
 
 	num = math.RoundToEven(math.Abs(num))
-	return f.FormFunc(int64(num)), nil
+	if !(num < math.MaxInt64) {
+		return 0, fmt.Errorf("unable to determine the plural form of %v", num)
+	}
+	return int64(num), nil
 }
 
 // MustParse is like Parse, but panics if the given rule string cannot be parsed.
-- 
2.43.0


From 730d72c773659e74e0d7bc53ec4f3073d4c8f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:01 +0000
Subject: [PATCH 22/51] fix: report a nil pointer as missing number instead of
 zero

---
 internal/cast/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..2539217 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -9,7 +9,7 @@ import (
 
 func ToNumber(n any) (float64, error) {
 	n = Indirect(n)
-	if n == nil {
+	if n == nil || reflect.TypeOf(n).Kind() == reflect.Ptr {
 		return 0, errors.New("number is nil")
 	}
 
-- 
2.43.0


From c1ded55349227820bdec26402bf7b5ee5fad77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 23/51] fix: derive the integer digits of a negative number
 from its absolute value

---
 catalog/cldrplural/cldr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..a1c1477 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -139,7 +139,7 @@ func newOperandsString(raw string) (*Operands, error) {
 	}
 
 	op.N = math.Abs(src)
-	op.I = int64(src)
+	op.I = int64(op.N)
 
 	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
 		fractionDigits := raw[pointIdx+1:]
-- 
2.43.0


From 70845daf72b0a6e3e1168663f334f4a011d7b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 24/51] fix: derive plural operands of a number independent of
 its type

---
 catalog/cldrplural/cldr.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index a1c1477..f62227b 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"math"
+	"reflect"
 	"strconv"
 	"strings"
 
@@ -94,31 +95,37 @@ func NewOperands(a any) (*Operands, error) {
 		return nil, errors.New("operands value is nil")
 	}
 
-	switch v := a.(type) {
-	case string:
-		return newOperandsString(v)
-	case int64:
-		return newOperandsInt(v), nil
-	case int:
-		return newOperandsInt(int64(v)), nil
-	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
-	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+	switch v := reflect.ValueOf(a); v.Kind() {
+	case reflect.String:
+		return newOperandsString(v.String())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return newOperandsInt(v.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if v.Uint() > math.MaxInt64 {
+			return nil, fmt.Errorf("operands value %d is out of range", v.Uint())
+		}
+		return newOperandsInt(int64(v.Uint()))
+	case reflect.Float32:
+		return newOperandsString(strconv.FormatFloat(v.Float(), 'f', -1, 32))
+	case reflect.Float64:
+		return newOperandsString(strconv.FormatFloat(v.Float(), 'f', -1, 64))
 	default:
-		num, err := cast.ToNumber(v)
+		num, err := cast.ToNumber(a)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
-func newOperandsInt(i int64) *Operands {
+func newOperandsInt(i int64) (*Operands, error) {
+	if i == math.MinInt64 {
+		return nil, fmt.Errorf("operands value %d is out of range", i)
+	}
 	if i < 0 {
 		i = -i
 	}
-	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
+	return &Operands{float64(i), i, 0, 0, 0, 0, 0}, nil
 }
 
 func newOperandsString(raw string) (*Operands, error) {
-- 
2.43.0


From 7dca09b284f0ded12565597efa8de96d639dc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 25/51] fix: reject texts that are no numbers or out of range
 as plural operands

---
 catalog/cldrplural/cldr.go | 45 +++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index f62227b..5d3f9e0 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -131,13 +131,31 @@ func newOperandsInt(i int64) (*Operands, error) {
 func newOperandsString(raw string) (*Operands, error) {
 	op := &Operands{}
 
+	// Only the absolute value is relevant
+	if raw != "" && (raw[0] == '+' || raw[0] == '-') {
+		raw = raw[1:]
+	}
+
 	if cIdx := strings.Index(raw, "c"); cIdx >= 0 {
-		c, err := strconv.Atoi(raw[cIdx+1:])
+		c, err := strconv.ParseUint(raw[cIdx+1:], 10, 8)
 		if err != nil {
 			return nil, err
 		}
+		if !isDecimal(raw[:cIdx]) {
+			return nil, fmt.Errorf("operands value %q is not a number", raw)
+		}
 		op.C = int64(c)
-		raw = shiftDecimalPoint(raw[:cIdx], c)
+		raw = shiftDecimalPoint(raw[:cIdx], int(c))
+	} else if eIdx := strings.IndexAny(raw, "eE"); eIdx >= 0 && isDecimal(raw[:eIdx]) {
+		num, err := strconv.ParseFloat(raw, 64)
+		if err != nil {
+			return nil, err
+		}
+		raw = strconv.FormatFloat(num, 'f', -1, 64)
+	}
+
+	if !isDecimal(raw) {
+		return nil, fmt.Errorf("operands value %q is not a number", raw)
 	}
 
 	src, errP := strconv.ParseFloat(raw, 64)
@@ -145,10 +163,21 @@ func newOperandsString(raw string) (*Operands, error) {
 		return nil, errP
 	}
 
-	op.N = math.Abs(src)
-	op.I = int64(op.N)
+	op.N = src
+	pointIdx := strings.Index(raw, ".")
+	integerDigits := raw
+	if pointIdx >= 0 {
+		integerDigits = raw[:pointIdx]
+	}
+	if integerDigits != "" {
+		i, err := strconv.ParseInt(integerDigits, 10, 64)
+		if err != nil {
+			return nil, err
+		}
+		op.I = i
+	}
 
-	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
+	if pointIdx >= 0 {
 		fractionDigits := raw[pointIdx+1:]
 		if fractionDigits != "" {
 			op.V = int64(len(fractionDigits))
@@ -174,6 +203,12 @@ func newOperandsString(raw string) (*Operands, error) {
 	return op, nil
 }
 
+// isDecimal reports whether raw consists of digits and at most one decimal point.
+func isDecimal(raw string) bool {
+	digits := strings.Replace(raw, ".", "", 1)
+	return digits != "" && strings.Trim(digits, "0123456789") == ""
+}
+
 func shiftDecimalPoint(raw string, c int) string {
 	var s strings.Builder
 
-- 
2.43.0


From 8e2e4f486e998193d059ba85fae8bf6b643e522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 26/51] fix: match the integers of a plural range exactly
 instead of nearly and one by one

---
 catalog/cldrplural/evaluation.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..eaea4f8 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -4,7 +4,6 @@ import (
 	"math"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -151,16 +150,9 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 		lower := rangeValues[i]
 		upper := rangeValues[i+1]
 
-		// If the value is not within the range, not every value needs to be checked.
-		if !(x >= float64(lower) && x <= float64(upper)) {
-			continue
-		}
-
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		// A range contains the integers only
+		if x >= float64(lower) && x <= float64(upper) && x == math.Trunc(x) {
+			return true
 		}
 	}
 
@@ -169,7 +161,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From 6b969a39a93ad8efd5fb6d079b5ff5b352ab8354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 27/51] fix: evaluate parsed CLDR rules in a fixed order, other
 last

---
 catalog/cldrplural/evaluation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index eaea4f8..862b77e 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -1,7 +1,9 @@
 package cldrplural
 
 import (
+	"maps"
 	"math"
+	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
 )
@@ -20,8 +22,8 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	categories := make([]Category, 0, len(rawRules))
 	rules := make(map[Category]*ast.Rule)
 
-	for cat, rawRule := range rawRules {
-		rule, err := ast.Parse(rawRule)
+	for _, cat := range slices.Sorted(maps.Keys(rawRules)) {
+		rule, err := ast.Parse(rawRules[cat])
 		if err != nil {
 			return nil, err
 		}
@@ -35,8 +37,9 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 
 	formF := func(rules map[Category]*ast.Rule) FormFunc {
 		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
+			for _, cat := range categories {
+				// Other applies if no other rule applies
+				if rule := rules[cat]; cat != Other && evaluate(rule, ops) {
 					return cat
 				}
 			}
-- 
2.43.0


From a0d1eeb8682dcd39e77941dbd9f1e53ec40427b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 28/51] fix: reject CLDR rules with a division by zero

---
 catalog/cldrplural/ast/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 12030e9..3d5aed8 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -193,6 +193,9 @@ func (p *parser) expression() (Node, error) {
 		if errValue != nil {
 			return nil, errValue
 		}
+		if valueNode.Value == 0 {
+			return nil, fmt.Errorf("remainder of a division by zero in %q", operandNode.Operand)
+		}
 
 		reminderNode := &ModuloExpr{
 			Op:    operandNode,
-- 
2.43.0


From 60c9f1103f32ddb5ed266c5cbbeb2d09bbc8fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 29/51] fix: do not panic evaluating a CLDR rule with an upper
 case operand

---
 catalog/cldrplural/ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 3d5aed8..d7b547d 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -178,7 +178,7 @@ func (p *parser) expression() (Node, error) {
 		return nil, fmt.Errorf("expected operand, got %q", p.lastLiteral)
 	}
 
-	operandNode := &OperandExpr{Operand: p.lastLiteral}
+	operandNode := &OperandExpr{Operand: strings.ToLower(p.lastLiteral)}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
-- 
2.43.0


From a997e5c740e83be91fdb1a95b76e74036660cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 30/51] fix: reject CLDR rules with numbers out of range

---
 catalog/cldrplural/ast/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index d7b547d..278a4e7 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -213,7 +213,10 @@ func (p *parser) value() (*ValueExpr, error) {
 		return nil, fmt.Errorf("expected value (\\d+), got %q", p.lastLiteral)
 	}
 
-	value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+	value, err := strconv.ParseInt(p.lastLiteral, 10, 64)
+	if err != nil {
+		return nil, fmt.Errorf("invalid value %q", p.lastLiteral)
+	}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
-- 
2.43.0


From 00898f4d28533ef1398e6af105a6b6ee21d3ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 31/51] fix: do not loop forever on CLDR sample ranges whose
 end is never reached

---
 catalog/cldrplural/ast/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 278a4e7..32ae6d1 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -316,6 +316,9 @@ func (p *parser) samples() ([]string, error) {
 			samples = append(samples, p.lastLiteral)
 		case sampleRange:
 			rangeValues := parseSampleRange(p.lastLiteral)
+			if rangeValues == nil {
+				return nil, fmt.Errorf("invalid sample range %q", p.lastLiteral)
+			}
 			samples = append(samples, rangeValues...)
 		default:
 			return nil, fmt.Errorf("expected sample, got %q", p.lastLiteral)
@@ -346,6 +349,9 @@ func (p *parser) scan() (tok Token, lit string) {
 	return
 }
 
+// maxSampleRange is the largest number of values a sample range may contain.
+const maxSampleRange = 10_000
+
 // sampleRange = sampleValue ('~' sampleValue)?
 // sampleValue = value ('.' digit+)? ([ce] digitPos digit+)?
 func parseSampleRange(sampleRange string) []string {
@@ -356,6 +362,10 @@ func parseSampleRange(sampleRange string) []string {
 			if ex == parts[1] {
 				break
 			}
+			// The end is never reached if it is smaller or has other fraction digits
+			if len(ex) > len(parts[1]) || len(sampleValues) >= maxSampleRange {
+				return nil
+			}
 		}
 	} else {
 		sampleValues = append(sampleValues, parts...)
-- 
2.43.0


From d0810b8723f2b0c24dc9c3c12dba33854f186386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:28 +0000
Subject: [PATCH 32/51] fix: reject a JSON catalog that is just null

Decoding it returned neither a catalog nor an error; the bundle then panicked
at the first lookup.
---
 catalog/json_decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..96a0a52 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,8 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	// Not the address: the JSON value null would replace the catalog by nil.
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From f02a36e77460dfb78bc814da1f800fb2d6819ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:32 +0000
Subject: [PATCH 33/51] fix: read JSON messages with keys differing in case in
 a fixed order

Which of the values was used depended on the iteration order of a map.
---
 catalog/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..741f288 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -323,7 +323,9 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	// In order, since keys may differ in case only; the lower case one is used then.
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
-- 
2.43.0


From f7dbc1029132f50601be224d2e83624e2ead665e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 34/51] fix: use the plural rules of the closest parent
 language

---
 catalog/cldrplural/builtin.go | 16 +++++++++-------
 catalog/poplural/builtin.go   | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/catalog/cldrplural/builtin.go b/catalog/cldrplural/builtin.go
index ad17b85..b88a05d 100644
--- a/catalog/cldrplural/builtin.go
+++ b/catalog/cldrplural/builtin.go
@@ -8,20 +8,22 @@ var fallbackLanguage = "en"
 // ForLanguage returns the set of rules for a language.
 // If no matching language is found, the English rule set and false are returned.
 func ForLanguage(lang language.Tag) (*RuleSet, bool) {
-	n := lang
-	for !n.IsRoot() {
+	// The parents come first: pt-AO has the rules of pt-PT, not those of pt.
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		if ruleSet := getBuiltInForLanguage(n.String()); ruleSet != nil {
 			return ruleSet, true
 		}
+	}
 
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		base, confidence := n.Base()
-		if confidence >= language.High {
-			if ruleSet := getBuiltInForLanguage(base.String()); ruleSet != nil {
-				return ruleSet, true
-			}
+		if confidence < language.High {
+			continue
 		}
 
-		n = n.Parent()
+		if ruleSet := getBuiltInForLanguage(base.String()); ruleSet != nil {
+			return ruleSet, true
+		}
 	}
 
 	return getBuiltInForLanguage(fallbackLanguage), false
diff --git a/catalog/poplural/builtin.go b/catalog/poplural/builtin.go
index 50037ea..685cbcb 100644
--- a/catalog/poplural/builtin.go
+++ b/catalog/poplural/builtin.go
@@ -19,20 +19,22 @@ func ForLanguage(lang language.Tag) (PluralFunc, bool) {
 }
 
 func pluralRuleForLanguage(lang language.Tag) (*Rule, bool) {
-	n := lang
-	for !n.IsRoot() {
+	// The parents come first: pt-AO has the rules of pt-PT, not those of pt.
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		if rule := getBuiltInForLanguage(n.String()); rule != nil {
 			return rule, true
 		}
+	}
 
+	for n := lang; !n.IsRoot(); n = n.Parent() {
 		base, confidence := n.Base()
-		if confidence >= language.High {
-			if rule := getBuiltInForLanguage(base.String()); rule != nil {
-				return rule, true
-			}
+		if confidence < language.High {
+			continue
 		}
 
-		n = n.Parent()
+		if rule := getBuiltInForLanguage(base.String()); rule != nil {
+			return rule, true
+		}
 	}
 
 	return getBuiltInForLanguage(fallbackLanguage), false
-- 
2.43.0


From 85f2745d16e9df4bb68588b856fb5a53746e6fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:39 +0000
Subject: [PATCH 35/51] fix: write the only plural form of a JSON message and
 leave the message as it was

---
 catalog/json.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 741f288..3244ea9 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -360,18 +360,15 @@ var categories = []cldrplural.Category{
 }
 
 func (m JSONMessage) MarshalJSON() ([]byte, error) {
-	if m.Translations == nil {
-		m.Translations = make(map[cldrplural.Category]string)
-	}
-
 	if len(m.Translations) == 0 {
-		m.Translations[cldrplural.Other] = ""
+		m.Translations = map[cldrplural.Category]string{cldrplural.Other: ""}
 	}
 
 	// If only Other is set, only Other is returned.
 	if m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
-		other := m.Translations[cldrplural.Other]
-		return json.Marshal(other)
+		if other, hasOther := m.Translations[cldrplural.Other]; hasOther {
+			return json.Marshal(other)
+		}
 	}
 
 	var buf bytes.Buffer
-- 
2.43.0


From 7d336be8aad0609fea214524ac502b327c549f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 36/51] fix: do not repeat a plural lookup in the fallback
 language when it is the language itself

---
 localizer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/localizer.go b/localizer.go
index 319489e..42ab730 100644
--- a/localizer.go
+++ b/localizer.go
@@ -324,9 +324,11 @@ func (l *Localizer) lookupPluralTranslation(domain string, ctx localize.Context,
 	}
 
 	errA := err
-	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-	if err == nil {
-		return t, errA
+	if l.locale.language != l.bundle.fallbackLocale.language {
+		t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
+		if err == nil {
+			return t, errA
+		}
 	}
 
 	t, _ = l.bundle.sourceLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-- 
2.43.0


From bdd7a613e4bc67323745ebd12052003b894e23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 37/51] fix: report a file that exists but fails to load with a
 not-exist error

---
 loader.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader.go b/loader.go
index 62d1562..01d47f3 100644
--- a/loader.go
+++ b/loader.go
@@ -93,7 +93,7 @@ func NewFilesystemLoader(opts ...FsOption) (*FilesystemLoader, error) {
 
 func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
 	for i, extension := range l.extensions {
-		cat, err := l.loadFromFile(lang, domain, extension, i)
+		file, resolvedPath, err := l.openFile(lang, domain, extension)
 		if err != nil {
 			if errors.Is(err, os.ErrNotExist) {
 				continue
@@ -101,22 +101,23 @@ func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catal
 			return nil, err
 		}
 
-		return cat, nil
+		return l.decodeFile(file, resolvedPath, lang, domain, i)
 	}
 
 	return nil, NewErrNotFound(lang, "file", "domain=%q", domain)
 }
 
-func (l *FilesystemLoader) loadFromFile(lang language.Tag, domain, extension string, decoderIndex int) (cat catalog.Catalog, err error) {
+func (l *FilesystemLoader) openFile(lang language.Tag, domain, extension string) (fs.File, string, error) {
 	resolvedPath, err := l.resolver.Resolve(l.fsys, extension, lang, domain)
 	if err != nil {
-		return nil, err
+		return nil, "", err
 	}
 
 	file, err := l.fsys.Open(resolvedPath)
-	if err != nil {
-		return nil, err
-	}
+	return file, resolvedPath, err
+}
+
+func (l *FilesystemLoader) decodeFile(file fs.File, resolvedPath string, lang language.Tag, domain string, decoderIndex int) (cat catalog.Catalog, err error) {
 	defer func() {
 		if closeErr := file.Close(); closeErr != nil {
 			err = errors.Join(err, closeErr)
-- 
2.43.0


From 0c6852bae3b3a9fe719d56aa16538ead70478444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 38/51] fix: use the root directory for an empty path and the
 system file system

---
 loader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/loader.go b/loader.go
index 01d47f3..5f60819 100644
--- a/loader.go
+++ b/loader.go
@@ -173,6 +173,9 @@ func WithPath(path string) FsOption {
 		if l.fsys != nil {
 			return errors.New("spreak.Loader: filesystem for FilesystemLoader already set")
 		}
+		if path == "" {
+			path = "/"
+		}
 		l.fsys = os.DirFS(filepath.FromSlash(path))
 		return nil
 	}
-- 
2.43.0


From f37469d05628f5409e8756dd46da012772320bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 39/51] fix: initialize the printer before requesting its print
 functions

---
 bundle.go | 6 ++++++
 locale.go | 2 --
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..ff104f2 100644
--- a/bundle.go
+++ b/bundle.go
@@ -127,6 +127,12 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		builder.fallbackLocale = builder.sourceLocale
 	}
 
+	// The print functions are requested last, as the printer must know all languages.
+	builder.sourceLocale.printFunc = builder.printer.GetPrintFunc(builder.sourceLanguage)
+	for lang, l := range builder.locales {
+		l.printFunc = builder.printer.GetPrintFunc(lang)
+	}
+
 	return builder.Bundle, nil
 }
 
diff --git a/locale.go b/locale.go
index af3826f..2b22734 100644
--- a/locale.go
+++ b/locale.go
@@ -22,7 +22,6 @@ func buildLocale(bundle *Bundle, lang language.Tag, catalogs map[string]catalog.
 		bundle:         bundle,
 		language:       lang,
 		domainCatalogs: catalogs,
-		printFunc:      bundle.printer.GetPrintFunc(lang),
 	}
 
 	l.pluralFunc, _ = poplural.ForLanguage(lang)
@@ -34,7 +33,6 @@ func buildSourceLocale(bundle *Bundle, sourceLang language.Tag) *locale {
 	l := &locale{
 		bundle:           bundle,
 		language:         sourceLang,
-		printFunc:        bundle.printer.GetPrintFunc(sourceLang),
 		isSourceLanguage: true,
 	}
 	l.pluralFunc, _ = poplural.ForLanguage(sourceLang)
-- 
2.43.0


From b524b63181c4377930931cad2b44a7684ea2a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 40/51] fix: keep all digits of integers

---
 humanize/helper.go  | 13 +++++++++++++
 humanize/numbers.go | 29 ++++++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 7f871bb..6fbba73 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -95,6 +95,19 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 	return result
 }
 
+// toInteger returns the value of any integer type without loss of digits, as int64 or uint64.
+func toInteger(i any) (any, bool) {
+	v := reflect.ValueOf(cast.Indirect(i))
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return v.Int(), true
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return v.Uint(), true
+	default:
+		return nil, false
+	}
+}
+
 func floorDivision(a, b float64) int64 {
 	return int64(math.Floor(toFixed(a/b, 3)))
 }
diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..5050235 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -1,6 +1,7 @@
 package humanize
 
 import (
+	"fmt"
 	"math"
 	"strconv"
 
@@ -41,6 +42,9 @@ func (h *Humanizer) Apnumber(val any) string {
 
 	num := int64(fl)
 	if num <= 0 || num >= 10 {
+		if n, ok := toInteger(val); ok {
+			return h.loc.Print("%d", n)
+		}
 		return h.loc.Print("%d", num)
 	}
 
@@ -111,6 +115,10 @@ func (h *Humanizer) Intcomma(i any) string {
 		return formatErrorMessage(i)
 	}
 
+	if n, ok := toInteger(i); ok {
+		return h.loc.Print("%v", number.Decimal(n, number.MaxFractionDigits(6)))
+	}
+
 	return h.loc.Print("%v", number.Decimal(value, number.MaxFractionDigits(6)))
 }
 
@@ -150,16 +158,31 @@ func (h *Humanizer) Ordinal(i any) string {
 		return formatErrorMessage(i)
 	}
 
+	n, isInteger := toInteger(i)
 	if floatValue < 0 {
+		if isInteger {
+			return fmt.Sprintf("%d", n)
+		}
 		return strconv.FormatInt(int64(floatValue), 10)
 	}
 
-	value := int64(floatValue)
-	switch value % 100 {
+	var value any = int64(floatValue)
+	lastDigits := int64(floatValue) % 100
+	if isInteger {
+		value = n
+		switch n := n.(type) {
+		case int64:
+			lastDigits = n % 100
+		case uint64:
+			lastDigits = int64(n % 100)
+		}
+	}
+
+	switch lastDigits {
 	case 11, 12, 13:
 		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)
 	}
 
-	template := ordinalTemplates[value%10]
+	template := ordinalTemplates[lastDigits%10]
 	return h.loc.PGetf(template.Context, template.ID, value)
 }
-- 
2.43.0


From 806e3e2828d76ab481c5ce90a8c9cb78202c2d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 41/51] fix: do not panic or print arbitrary values for numbers
 beyond the range of int64

---
 humanize/numbers.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 5050235..006ffa0 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -40,11 +40,16 @@ func (h *Humanizer) Apnumber(val any) string {
 		return formatErrorMessage(val)
 	}
 
+	if n, ok := toInteger(val); ok && !(fl >= 1 && fl < 10) {
+		return h.loc.Print("%d", n)
+	}
+	if !(math.Abs(fl) < 1<<63) {
+		// not representable as an integer
+		return h.loc.Print("%v", number.Decimal(fl, number.MaxFractionDigits(0)))
+	}
+
 	num := int64(fl)
 	if num <= 0 || num >= 10 {
-		if n, ok := toInteger(val); ok {
-			return h.loc.Print("%d", n)
-		}
 		return h.loc.Print("%d", num)
 	}
 
@@ -163,11 +168,24 @@ func (h *Humanizer) Ordinal(i any) string {
 		if isInteger {
 			return fmt.Sprintf("%d", n)
 		}
+		if floatValue < -1<<63 {
+			return strconv.FormatFloat(floatValue, 'f', 0, 64)
+		}
 		return strconv.FormatInt(int64(floatValue), 10)
 	}
+	if math.IsNaN(floatValue) || math.IsInf(floatValue, 1) {
+		return formatErrorMessage(i)
+	}
 
-	var value any = int64(floatValue)
-	lastDigits := int64(floatValue) % 100
+	var value any
+	var lastDigits int64
+	if floatValue < 1<<63 {
+		value = int64(floatValue)
+		lastDigits = int64(floatValue) % 100
+	} else {
+		value = number.Decimal(floatValue, number.MaxFractionDigits(0))
+		lastDigits = int64(math.Mod(floatValue, 100))
+	}
 	if isInteger {
 		value = n
 		switch n := n.(type) {
-- 
2.43.0


From dc6d56acd4169f8e39dcb3bd14d1f60377411ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 42/51] fix: do not write numbers far below a googol as zero
 googol

---
 humanize/numbers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 006ffa0..eabe2fa 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -95,9 +95,13 @@ func (h *Humanizer) Intword(i any) string {
 		return h.Intcomma(value)
 	}
 
-	for _, converter := range intwordConverters {
+	for i, converter := range intwordConverters {
 		largeNumber := math.Pow10(converter.exponent)
-		if absValue < (largeNumber * float64(1000)) {
+		limit := largeNumber * float64(1000)
+		if i+1 < len(intwordConverters) {
+			limit = math.Pow10(intwordConverters[i+1].exponent)
+		}
+		if absValue < limit {
 			newValue := value / largeNumber
 			roundedValue := int64(math.Ceil(newValue-1)) + 1
 			if roundedValue < 0 {
-- 
2.43.0


From cea391a2f67313f28d867e785ae1e5a739e37dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 43/51] fix: show file sizes beyond the range of int64

---
 humanize/helper.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 6fbba73..6b0844f 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -40,11 +40,11 @@ func (h *Humanizer) Language() language.Tag {
 }
 
 const (
-	kb = int64(1) << 10
-	mb = int64(1) << 20
-	gb = int64(1) << 30
-	tb = int64(1) << 40
-	pb = int64(1) << 50
+	kb = float64(1 << 10)
+	mb = float64(1 << 20)
+	gb = float64(1 << 30)
+	tb = float64(1 << 40)
+	pb = float64(1 << 50)
 )
 
 // FilesizeFormat format the value like a 'human-readable' file size (i.e. 13 KB, 4.1 MB, 102 bytes, etc.).
@@ -52,16 +52,16 @@ const (
 // Valid inputs are byte arrays or any numeric value.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) FilesizeFormat(v any) string {
-	var count int64
+	var count float64
 	switch val := v.(type) {
 	case []byte:
-		count = int64(len(val))
+		count = float64(len(val))
 	default:
 		value, err := cast.ToNumber(v)
-		if err != nil {
+		if err != nil || math.IsNaN(value) {
 			return formatErrorMessage(v)
 		}
-		count = int64(value)
+		count = math.Trunc(value)
 	}
 
 	isNegative := count < 0
@@ -71,21 +71,21 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 
 	var result string
 	if count < kb {
-		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", count, count)
+		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", int64(count), int64(count))
 	} else if count < mb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(kb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/kb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s KB", formatted)
 	} else if count < gb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(mb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/mb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s MB", formatted)
 	} else if count < tb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(gb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/gb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s GB", formatted)
 	} else if count < pb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(tb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/tb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s TB", formatted)
 	} else {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(pb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/pb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s PB", formatted)
 	}
 
-- 
2.43.0


From d413d990502ba3c02300ac41826c97e45f16d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:01 +0000
Subject: [PATCH 44/51] fix: round the units of a relative time down, never up

---
 humanize/date.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..441e0a3 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -317,6 +317,13 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	}
 	delta -= 60 * 60 * 24 * int64(leapdays)
 
+	// Full years are counted by the calendar, independent of the UTC offset at both times.
+	_, dOffset := d.Zone()
+	_, nowOffset := now.In(d.Location()).Zone()
+	if local := delta + int64(nowOffset-dOffset); local >= timeSinceChunks[0].seconds {
+		delta = local
+	}
+
 	if delta <= 0 {
 		//  d is in the future compared to now, stop processing.
 		entry := o.timeStrings["minute"]
@@ -327,7 +334,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 
 	i := sort.Search(len(timeSinceChunks), func(i int) bool {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
+		count := since / chunk.seconds
 		return count != 0
 	})
 
@@ -340,7 +347,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	currentDepth := 0
 	for i < len(timeSinceChunks) && currentDepth < o.depth {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
+		count := since / chunk.seconds
 		i++
 		if count <= 0 {
 			if o.requireAdjacent {
-- 
2.43.0


From 69a4c4578ca360af58c8f7d51c1d9fce75cb6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 45/51] fix: do not write a past time of nearly an hour as zero
 hours ago

---
 humanize/date.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 441e0a3..cdde771 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -122,20 +122,19 @@ var naturalFutureSubstrings = map[string]gettextEntry{
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalTime(i any) string {
-	now := time.Now()
 	t, err := cast.ToTime(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	now = now.In(t.Location())
+	now := time.Now().In(t.Location())
 	if t.Before(now) {
-		delta := now.Sub(t)
-		deltaSec := int64(delta.Truncate(time.Second).Seconds())
+		delta := now.Sub(t).Truncate(time.Second)
+		deltaSec := int64(delta.Seconds())
 
-		if int64(delta.Round(time.Second).Hours()) >= 24 {
+		if int64(delta.Hours()) >= 24 {
 			entry := naturalTimeStrings["past-day"]
-			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
+			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings), WithNow(now))
 			return h.loc.Getf(entry.singular, timeSince)
 		} else if deltaSec == 0 {
 			entry := naturalTimeStrings["now"]
@@ -143,7 +142,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 		} else if deltaSec < 60 {
 			entry := naturalTimeStrings["past-second"]
 			return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-		} else if floorDivision(delta.Round(time.Second).Seconds(), 60) < 60 {
+		} else if floorDivision(float64(deltaSec), 60) < 60 {
 			count := int64(math.Floor(float64(deltaSec) / 60))
 			entry := naturalTimeStrings["past-minute"]
 			return h.loc.NGetf(entry.singular, entry.plural, count, count)
@@ -158,7 +157,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 	deltaSec := int64(delta.Round(time.Second).Seconds())
 	if int64(delta.Round(time.Second).Hours()) >= 24 {
 		entry := naturalTimeStrings["future-day"]
-		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings))
+		timeSince := h.TimeUntil(t, withTimeStrings(naturalFutureSubstrings), WithNow(now))
 		return h.loc.Getf(entry.singular, timeSince)
 	} else if deltaSec == 0 {
 		entry := naturalTimeStrings["now"]
-- 
2.43.0


From 15980e236938a5c76978ddf395c51aff34fa1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 46/51] fix: leave out only leap days that lie in between in
 relative times

---
 humanize/date.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index cdde771..73b4dc1 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -308,9 +308,10 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	// Deal with leapyears by subtracing the number of leapdays
 	leapdays := calendar.LeapDays(d.Year(), now.Year())
 	if leapdays != 0 {
-		if calendar.IsLeap(d.Year()) {
+		if calendar.IsLeap(d.Year()) && d.Month() > time.February {
 			leapdays--
-		} else if calendar.IsLeap(now.Year()) {
+		}
+		if calendar.IsLeap(now.Year()) && now.Month() > time.February {
 			leapdays++
 		}
 	}
-- 
2.43.0


From a3e38911701a2da190504c237795ab994457ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 47/51] fix: name the neighbouring days of a clock change

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 73b4dc1..7233379 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -53,9 +53,10 @@ func (h *Humanizer) NaturalDay(i any) string {
 		return formatErrorMessage(i)
 	}
 
-	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
-	now := time.Now().In(value.Location())
-	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
+	// The dates are compared in UTC, where every day has 24 hours.
+	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	now := time.Now().In(t.Location())
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
 	switch delta {
-- 
2.43.0


From f5c48ceb0b52e631d19234f80bc03b68a86dd266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 48/51] fix: measure the time until the end of a duration from
 its start

---
 humanize/date.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/humanize/date.go b/humanize/date.go
index 7233379..8574954 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -377,11 +377,14 @@ func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) stri
 // For example, if today is 1 June 2006 and conferenceDate is a date instance holding 29 June 2006,
 // then TimeUntil(conferenceDate) will return “4 weeks”.
 func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
+	// A duration starts at the current time, so the current time must not be determined after it.
+	now := time.Now()
 	parsedTime, err := cast.ToTime(d)
 	if err != nil {
 		return formatErrorMessage(d)
 	}
 
+	opts = append([]TimeOption{WithNow(now)}, opts...)
 	opts = append(opts, WithReverse(true))
 	return h.TimeSince(parsedTime, opts...)
 }
-- 
2.43.0


From 17e099a6977dd8bacda35e3aa8fe4ee40627a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:54 +0000
Subject: [PATCH 49/51] fix: select the language of a humanizer independent of
 the map order

---
 humanize/humanizer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..e111a64 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -127,11 +127,13 @@ func New(opts ...Option) (*Collection, error) {
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
-		if data.Format != nil {
-			coll.locales[tag] = data.Format
+	for _, d := range o.locales {
+		if _, isKnown := coll.locales[d.Lang]; isKnown {
+			continue
 		}
+		// The order of the languages decides which of two equally suitable languages is selected.
+		languages = append(languages, d.Lang)
+		coll.locales[d.Lang] = loader.locales[d.Lang].Format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
-- 
2.43.0


From 06a919535efff3070d439fc39a2013b93573de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:06 +0000
Subject: [PATCH 50/51] fix: write a decillion as one decillion

---
 humanize/numbers.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index eabe2fa..15d56cf 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -58,21 +58,21 @@ func (h *Humanizer) Apnumber(val any) string {
 
 // A tuple of standard large number to their converters.
 var intwordConverters = []struct {
-	exponent int
+	value    float64
 	singular string
 	plural   string
 }{
-	{6, "%[1]s million", "%[1]s million"},
-	{9, "%[1]s billion", "%[1]s billion"},
-	{12, "%[1]s trillion", "%[1]s trillion"},
-	{15, "%[1]s quadrillion", "%[1]s quadrillion"},
-	{18, "%[1]s quintillion", "%[1]s quintillion"},
-	{21, "%[1]s sextillion", "%[1]s sextillion"},
-	{24, "%[1]s septillion", "%[1]s septillion"},
-	{27, "%[1]s octillion", "%[1]s octillion"},
-	{30, "%[1]s nonillion", "%[1]s nonillion"},
-	{33, "%[1]s decillion", "%[1]s decillion"},
-	{100, "%[1]s googol", "%[1]s googol"},
+	{1e6, "%[1]s million", "%[1]s million"},
+	{1e9, "%[1]s billion", "%[1]s billion"},
+	{1e12, "%[1]s trillion", "%[1]s trillion"},
+	{1e15, "%[1]s quadrillion", "%[1]s quadrillion"},
+	{1e18, "%[1]s quintillion", "%[1]s quintillion"},
+	{1e21, "%[1]s sextillion", "%[1]s sextillion"},
+	{1e24, "%[1]s septillion", "%[1]s septillion"},
+	{1e27, "%[1]s octillion", "%[1]s octillion"},
+	{1e30, "%[1]s nonillion", "%[1]s nonillion"},
+	{1e33, "%[1]s decillion", "%[1]s decillion"},
+	{1e100, "%[1]s googol", "%[1]s googol"},
 }
 
 // Intword convert a large integer to a friendly text representation. Works best
@@ -96,10 +96,10 @@ func (h *Humanizer) Intword(i any) string {
 	}
 
 	for i, converter := range intwordConverters {
-		largeNumber := math.Pow10(converter.exponent)
+		largeNumber := converter.value
 		limit := largeNumber * float64(1000)
 		if i+1 < len(intwordConverters) {
-			limit = math.Pow10(intwordConverters[i+1].exponent)
+			limit = intwordConverters[i+1].value
 		}
 		if absValue < limit {
 			newValue := value / largeNumber
-- 
2.43.0


From c3505c931bd6137d577d02faffcea26e81359898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 51/51] fix: let durations of NaturalTime and NaturalDay start
 at one point in time

---
 humanize/date.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 8574954..0d99043 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -41,6 +41,14 @@ type gettextEntry struct {
 	plural   string
 }
 
+// toTimeFrom works like cast.ToTime, but a duration starts at now.
+func toTimeFrom(i any, now time.Time) (time.Time, error) {
+	if d, ok := cast.Indirect(i).(time.Duration); ok {
+		return now.Add(d), nil
+	}
+	return cast.ToTime(i)
+}
+
 // NaturalDay returns for time values that are tomorrow, today or yesterday compared to present day
 // the representing string.
 // Any other time is formatted according to the defined DateFormat.
@@ -48,14 +56,15 @@ type gettextEntry struct {
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalDay(i any) string {
-	t, err := cast.ToTime(i)
+	now := time.Now()
+	t, err := toTimeFrom(i, now)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
 	// The dates are compared in UTC, where every day has 24 hours.
 	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
-	now := time.Now().In(t.Location())
+	now = now.In(t.Location())
 	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
@@ -123,12 +132,13 @@ var naturalFutureSubstrings = map[string]gettextEntry{
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalTime(i any) string {
-	t, err := cast.ToTime(i)
+	now := time.Now()
+	t, err := toTimeFrom(i, now)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	now := time.Now().In(t.Location())
+	now = now.In(t.Location())
 	if t.Before(now) {
 		delta := now.Sub(t).Truncate(time.Second)
 		deltaSec := int64(delta.Seconds())
-- 
2.43.0

