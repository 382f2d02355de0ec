From 17b00db3f9223c069e66593182b7705623306cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:50 +0000
Subject: [PATCH 01/28] fix: report the error of a truncated version 3
 signature packet

---
 parse/tags/tag02.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..83d3492 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -46,8 +46,8 @@ func (t *tag02) Parse() (*result.Item, error) {
 		}
 	case version.IsOld():
 		if version.Number() == 3 {
-			_, err2 := t.parseV3(rootInfo)
-			if err2 != nil {
+			_, err := t.parseV3(rootInfo)
+			if err != nil {
 				return rootInfo, errs.Wrap(err)
 			}
 		}
-- 
2.43.0


From 90378ca087b8af93d391d88eaa2f31157dc8a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:51 +0000
Subject: [PATCH 02/28] fix: check the length of v5 secret key material before
 decoding it

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From 6daf44f1c8f35b684b5cbb6442b32df731dad50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:53 +0000
Subject: [PATCH 03/28] fix: reject negative and overflowing read sizes instead
 of panicking

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..8de4395 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -112,7 +112,7 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size < 0 || size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From b8d84b3bed782c4b4ba6402c5b74ddc4fcd77cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:54 +0000
Subject: [PATCH 04/28] fix: leave the cursor at the end of the buffer after
 reading to EOF

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 8de4395..a125f14 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From 8d5417463f91ae028209233cb34a036363092e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:55 +0000
Subject: [PATCH 05/28] fix: number unknown key flags by the octet they occur
 in

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From 81c9ddebc4e491ea8842f5892a95ce29e9f35bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:12 +0000
Subject: [PATCH 06/28] fix: parse the packets of a key block subpacket from a
 regular byte stream

---
 parse/tags/sub38.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..b0c3521 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -47,7 +48,11 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
-	sp, err := NewPackets(s.cxt, s.reader)
+	body, err := s.reader.ReadBytes(s.reader.Rest())
+	if err != nil {
+		return errs.Wrap(err)
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(body))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From ce051f277cb74b17780edffa911054ef5176b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:13 +0000
Subject: [PATCH 07/28] fix: read the image header length as little-endian and
 bound it by the data

---
 parse/tags/sub01.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..8018958 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -3,6 +3,7 @@ package tags
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -29,7 +30,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := binary.LittleEndian.Uint16(l)
+	if int(length) > s.reader.Len() {
+		return rootInfo, errs.New("illegal length of image header", errs.WithCause(io.ErrUnexpectedEOF))
+	}
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
-- 
2.43.0


From 06dee4d5932c17d80418dbb80ebb5e6dd1e48740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:14 +0000
Subject: [PATCH 08/28] fix: keep expiration dates beyond 2106 from wrapping
 around

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From c2af8059574e73efdb28d33ac82db0b89b059337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:31 +0000
Subject: [PATCH 09/28] fix: do not compute expiration dates from another
 signature or key

---
 parse/tags/pubkey.go | 1 +
 parse/tags/tag02.go  | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..37bf5cc 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -28,6 +28,7 @@ func newPubkey(cxt *context.Context, reader *reader.Reader, pubVer *values.Versi
 
 //Parse Public-key packet
 func (p *pubkeyInfo) Parse(parent *result.Item) error {
+	p.cxt.KeyCreationTime = nil //forget creation time of the previous key
 	switch true {
 	case p.pubVer.IsDraft():
 		return p.parseV5(parent)
diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 83d3492..39bdf1e 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -24,6 +24,10 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
+	// the creation time belongs to this signature only (signatures may be nested)
+	outer := t.cxt.SigCreationTime
+	t.cxt.SigCreationTime = nil
+	defer func() { t.cxt.SigCreationTime = outer }()
 	rootInfo := t.ToItem()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
-- 
2.43.0


From 451e6569ea526fdd9db2833673887826f2cf35cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:32 +0000
Subject: [PATCH 10/28] fix: take the IV of a v5 secret key from its optional
 field and legacy usage octets as the cipher

---
 parse/tags/seckey.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..c14f89e 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -38,7 +38,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 	} else if rOpt != nil {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
 		var symid values.SymID
-		if usage != 0 { //encrypted secret-key
+		switch usage {
+		case 0: //plain secret-key
+		case 253, 254, 255:
 			alg, err := rOpt.ReadByte()
 			if err != nil {
 				return errs.New(
@@ -49,6 +51,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 			}
 			symid = values.SymID(alg)
 			parent.Add(symid.ToItem(p.cxt.Debug()))
+		default: //string-to-key usage octet is a symmetric encryption algorithm
+			symid = values.SymID(usage)
+			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
 		if usage == 253 {
@@ -81,7 +86,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +197,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From 5d476433a30bca8add9bee979ecad156198a6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:49 +0000
Subject: [PATCH 11/28] fix: report a truncated initialization vector of an
 AEAD encrypted data packet

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From 43132202def198745d41483c2ac4888f4795534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:50 +0000
Subject: [PATCH 12/28] fix: compute the AEAD chunk size without overflowing

---
 parse/tags/tag20.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2379344..d1b48f3 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -2,7 +2,7 @@ package tags
 
 import (
 	"fmt"
-	"strconv"
+	"math/big"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
@@ -50,10 +50,10 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal chunk size", errs.WithCause(err))
 	}
-	chunkSize := uint64(1) << (c + 6)
+	chunkSize := new(big.Int).Lsh(big.NewInt(1), uint(c)+6)
 	rootInfo.Add(result.NewItem(
 		result.Name("Chunk size"),
-		result.Value(strconv.FormatUint(chunkSize, 10)),
+		result.Value(chunkSize.String()),
 		result.DumpStr(values.DumpByteString(byte(c), true)),
 	))
 	//A starting initialization vector of size specified by the AEAD algorithm.
-- 
2.43.0


From c137c1e4d6dd4e668c5a1fbe6ea69079c8377518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:54 +0000
Subject: [PATCH 13/28] fix: dump the whole input when probing for armor stops
 early, and report read errors

---
 parse/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..d7de19c 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -31,10 +31,13 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 	case cxt.Armor():
 		r, err = newReaderArmor(reader)
 	default:
-		buf := &bytes.Buffer{}
-		r, err = newReaderArmor(io.TeeReader(reader, buf))
+		var data []byte
+		if data, err = io.ReadAll(reader); err != nil {
+			return nil, errs.Wrap(err)
+		}
+		r, err = newReaderArmor(bytes.NewReader(data))
 		if err != nil {
-			r, err = buf, nil
+			r, err = bytes.NewReader(data), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From ffb5c93a1a099b4d14e3dab0abed110cb4255a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:24 +0000
Subject: [PATCH 14/28] fix: escape a control character given as literal data
 format

---
 parse/tags/tag11.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/tag11.go b/parse/tags/tag11.go
index ad2e7e9..6c7152b 100644
--- a/parse/tags/tag11.go
+++ b/parse/tags/tag11.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"fmt"
+	"unicode"
 
 	"github.com/spiegel-im-spiegel/errs"
 	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
@@ -27,7 +28,11 @@ func (t *tag11) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal format", errs.WithCause(err))
 	}
-	rootInfo.Add(values.LiteralFormat(f).ToItem())
+	format := values.LiteralFormat(f).ToItem()
+	if unicode.IsControl(rune(f)) {
+		format.Value = fmt.Sprintf("(%U)", f)
+	}
+	rootInfo.Add(format)
 	flen, err := t.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal length of file name", errs.WithCause(err))
-- 
2.43.0


From b41dc0f971173f0dcbf26134a7fd4661a82f34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:08 +0000
Subject: [PATCH 15/28] fix: do not dereference a nil key server in
 hkp.Server.URL

---
 hkp/hkp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hkp/hkp.go b/hkp/hkp.go
index d51767a..17a3832 100644
--- a/hkp/hkp.go
+++ b/hkp/hkp.go
@@ -75,7 +75,7 @@ func (s *Server) String() string {
 //URL returns url.URL instance
 func (s *Server) URL() *url.URL {
 	if s == nil {
-		s = nil
+		s = New("")
 	}
 	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
 }
-- 
2.43.0


From 7e186e8728afa837f4e8c17009e062e56803e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:09 +0000
Subject: [PATCH 16/28] fix: escape the GitHub user name in request URLs and
 report an invalid URL

---
 github/github.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..cb72f7b 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,8 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	return fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", url.PathEscape(username)))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
@@ -86,7 +89,7 @@ func makeURLAPI(username string, page int) (*url.URL, error) {
 	if page < 1 {
 		page = 1
 	}
-	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", username))
+	u, err := url.Parse(fmt.Sprintf("https://api.github.com/users/%s/gpg_keys", url.PathEscape(username)))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("page", page))
 	}
-- 
2.43.0


From 8eeb989222e01a15c12ee22557b959d6f334af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:10 +0000
Subject: [PATCH 17/28] fix: skip null entries of a GitHub key listing instead
 of panicking

---
 github/github.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/github/github.go b/github/github.go
index cb72f7b..613044f 100644
--- a/github/github.go
+++ b/github/github.go
@@ -49,6 +49,9 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
+			if k == nil { //null entry in JSON array
+				continue
+			}
 			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
-- 
2.43.0


From 3c42e7e707878f15b03cb52e3907c7e82b6ecd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:12 +0000
Subject: [PATCH 18/28] fix: do not carry the debug flag over to the next run
 of the command

---
 facade/facade.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/facade/facade.go b/facade/facade.go
index a0769d7..aa29d5f 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -35,6 +35,7 @@ var (
 
 //newRootCmd returns cobra.Command instance for root command
 func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
+	debugFlag = false //set again by parseContext function
 	rootCmd := &cobra.Command{
 		Use:   Name,
 		Short: "OpenPGP packet visualizer",
-- 
2.43.0


From 698981e77a038c3c9ba1084a21f3c55a01e5c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:13 +0000
Subject: [PATCH 19/28] fix: keep the parsing state out of the context given by
 the caller

---
 parse/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parse/parser.go b/parse/parser.go
index d7de19c..dbadbc9 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -25,6 +25,11 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 	if reader == nil {
 		return nil, errs.Wrap(ecode.ErrNullPointer)
 	}
+	if cxt == nil {
+		cxt = context.New()
+	}
+	cp := *cxt //parsing state belongs to this parser only
+	cxt = &cp
 	var r io.Reader
 	var err error
 	switch {
-- 
2.43.0


From d464ce5343c06f3a7a4f25f80e00009e492831d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:43 +0000
Subject: [PATCH 20/28] fix: return an empty dump for a negative offset instead
 of panicking

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index a125f14..7ff55b3 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -138,7 +138,7 @@ func (r *Reader) GetBody() []byte {
 
 //DumpString returns string of byte dump (not move offset)
 func (r *Reader) DumpString(off int64) string {
-	if off >= r.Size() {
+	if off < 0 || off >= r.Size() {
 		return ""
 	}
 	data := r.buffer[off:]
-- 
2.43.0


From 13324d23e79649dacc97914559224f96fc857c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:17 +0000
Subject: [PATCH 21/28] fix: accept surrounding text with long lines when
 looking for armor

---
 armtext/armtext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 957941a..937f180 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -22,6 +23,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	armorFlag := false
 	armorEndFlag := false
 	scn := bufio.NewScanner(r)
+	scn.Buffer(nil, math.MaxInt32) //surrounding text may have lines of any length
 	for scn.Scan() {
 		str := scn.Text()
 		if !armorFlag {
-- 
2.43.0


From ed6e0e8785d2bb7c025de8de855b76a487835b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:00 +0000
Subject: [PATCH 22/28] fix: report trailing data and read errors after a
 GitHub key listing

---
 github/github.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/github/github.go b/github/github.go
index 613044f..8648d4d 100644
--- a/github/github.go
+++ b/github/github.go
@@ -79,10 +79,12 @@ func getInPage(ctx context.Context, cli fetch.Client, username string, page int)
 	if err != nil {
 		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username), errs.WithContext("page", page))
 	}
-	defer resp.Close()
-
+	b, err := resp.DumpBodyAndClose()
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("url", u.String()))
+	}
 	var keys []*OpenPGPKey
-	if err := json.NewDecoder(resp.Body()).Decode(&keys); err != nil {
+	if err := json.Unmarshal(b, &keys); err != nil {
 		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("url", u.String()))
 	}
 	return keys, nil
-- 
2.43.0


From 788190350ca42365ef25e09b547325fbcf141e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:45 +0000
Subject: [PATCH 23/28] fix: report octets left in the key material of a v5
 public key

---
 parse/tags/pubkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index 37bf5cc..86f3ca0 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -125,7 +125,14 @@ func (p *pubkeyInfo) parseV5(parent *result.Item) error {
 		return errs.New(fmt.Sprintf("illegal key material data (size: %d bytes)", sz64), errs.WithCause(err))
 	}
 	// [10] series of multiprecision integers comprising the key material.
-	return pubkey.New(p.cxt, p.pubID, reader.New(b)).ParsePub(parent) //TODO: new logic for key material
+	r := reader.New(b)
+	if err := pubkey.New(p.cxt, p.pubID, r).ParsePub(parent); err != nil { //TODO: new logic for key material
+		return err
+	}
+	if r.Rest() > 0 {
+		parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
+	}
+	return nil
 }
 
 //PubID returns pubID
-- 
2.43.0


From bcf6f2be37d33660cb6a3c16c282fa653fd9e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:03 +0000
Subject: [PATCH 24/28] fix: reject an absurd indent size instead of panicking

---
 facade/facade.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/facade/facade.go b/facade/facade.go
index aa29d5f..c8a2dcc 100644
--- a/facade/facade.go
+++ b/facade/facade.go
@@ -119,7 +119,12 @@ func newRootCmd(ui *rwi.RWI, args []string) *cobra.Command {
 	return rootCmd
 }
 
+const maxIndentSize = 1024 //larger indents are of no use and may not fit in memory
+
 func marshalPacketInfo(i *result.Info) (io.Reader, error) {
+	if indentSize > maxIndentSize {
+		return nil, errs.Wrap(os.ErrInvalid, errs.WithContext("indent", indentSize))
+	}
 	if jsonFlag {
 		return i.JSON(indentSize)
 	}
-- 
2.43.0


From dbad2d50c25a77edd3e146e5bee038dc5316d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:53 +0000
Subject: [PATCH 25/28] fix: accept an armor header line with no value

---
 armtext/armtext.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 937f180..d8b76d9 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -22,6 +22,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	buf := &bytes.Buffer{}
 	armorFlag := false
 	armorEndFlag := false
+	headerFlag := false //in header lines
 	scn := bufio.NewScanner(r)
 	scn.Buffer(nil, math.MaxInt32) //surrounding text may have lines of any length
 	for scn.Scan() {
@@ -29,6 +30,14 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 		if !armorFlag {
 			if strings.HasPrefix(str, armorBoundery) && !strings.HasPrefix(str, armorBounderyExcept) {
 				armorFlag = true
+				headerFlag = true
+			}
+		} else if headerFlag {
+			line := strings.TrimSpace(str)
+			if len(line) == 0 || strings.HasPrefix(line, armorBounderyTerminate) {
+				headerFlag = false
+			} else if strings.HasSuffix(line, ":") && !strings.Contains(line, ": ") {
+				continue //armor decoder does not accept a header line with no value
 			}
 		}
 		if armorFlag && !armorEndFlag {
-- 
2.43.0


From bdb8dd6a5ee26c43b2f0b5b6abf29da076dfd8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:23 +0000
Subject: [PATCH 26/28] fix: the starting IV of OCB mode has 15 octets

---
 parse/values/aeadid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/values/aeadid.go b/parse/values/aeadid.go
index 7e60d20..f4a77be 100644
--- a/parse/values/aeadid.go
+++ b/parse/values/aeadid.go
@@ -13,7 +13,7 @@ var aeadIDNames = Msgs{
 
 var aeadIDIVLen = map[int]int{
 	1: 16, //EAX mode
-	2: 16, //OCB mode
+	2: 15, //OCB mode
 }
 
 var aeadIDTagLen = map[int]int{
-- 
2.43.0


From 51901825441b93e4841aa4e611667ce6d42151ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:37 +0000
Subject: [PATCH 27/28] fix: name private/experimental compression algorithms

---
 parse/values/compid.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse/values/compid.go b/parse/values/compid.go
index 7af9ea3..b3f1974 100644
--- a/parse/values/compid.go
+++ b/parse/values/compid.go
@@ -26,7 +26,13 @@ func (ca CompID) ToItem(dumpFlag bool) *result.Item {
 }
 
 func (ca CompID) String() string {
-	return fmt.Sprintf("%s (comp %d)", compIDNames.Get(int(ca), Unknown), ca)
+	var name string
+	if 100 <= ca && ca <= 110 {
+		name = PrivateAlgName
+	} else {
+		name = compIDNames.Get(int(ca), Unknown)
+	}
+	return fmt.Sprintf("%s (comp %d)", name, ca)
 }
 
 /* Copyright 2016 Spiegel
-- 
2.43.0


From fcff49d0e34d7c0cdf0cc5d4c5ceb1149902d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:00 +0000
Subject: [PATCH 28/28] fix: name the sub-packet types of signatures and user
 attributes apart

---
 parse/tags/subReserved.go   |  8 ++++++--
 parse/tags/subs.go          |  4 ++--
 parse/values/subpacketid.go | 18 +++++++++++++++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/parse/tags/subReserved.go b/parse/tags/subReserved.go
index 72c4690..797f41e 100644
--- a/parse/tags/subReserved.go
+++ b/parse/tags/subReserved.go
@@ -10,16 +10,20 @@ import (
 //subReserved class for Reserved Sub-packet
 type subReserved struct {
 	subInfo
+	tagID values.TagID
 }
 
 //newSubReserved return subReserved instance
-func newSubReserved(cxt *context.Context, subID values.SuboacketID, body []byte) Subs {
-	return &subReserved{subInfo{cxt: cxt, subID: subID, reader: reader.New(body)}}
+func newSubReserved(tagID values.TagID) NewSubpacket {
+	return func(cxt *context.Context, subID values.SuboacketID, body []byte) Subs {
+		return &subReserved{subInfo: subInfo{cxt: cxt, subID: subID, reader: reader.New(body)}, tagID: tagID}
+	}
 }
 
 // Parse parsing Reserved Sub-packet
 func (s *subReserved) Parse() (*result.Item, error) {
 	rootInfo := s.ToItem()
+	rootInfo.Name = s.subID.StringIn(s.tagID)
 	return rootInfo, nil
 }
 
diff --git a/parse/tags/subs.go b/parse/tags/subs.go
index f6bb786..8f874e5 100644
--- a/parse/tags/subs.go
+++ b/parse/tags/subs.go
@@ -87,10 +87,10 @@ func NewSubs(cxt *context.Context, osp *packet.OpaqueSubpacket, tagID values.Tag
 			// recursive call in sub38.Parse()
 			return newSub38(cxt, values.SuboacketID(osp.SubType), osp.Contents)
 		default:
-			return newFunctionsSub02.Get(int(st), newSubReserved)(cxt, values.SuboacketID(osp.SubType), osp.Contents)
+			return newFunctionsSub02.Get(int(st), newSubReserved(tagID))(cxt, values.SuboacketID(osp.SubType), osp.Contents)
 		}
 	} else if tagID == 17 {
-		return newFunctionsSub17.Get(int(st), newSubReserved)(cxt, values.SuboacketID(osp.SubType), osp.Contents)
+		return newFunctionsSub17.Get(int(st), newSubReserved(tagID))(cxt, values.SuboacketID(osp.SubType), osp.Contents)
 	}
 	return nil
 }
diff --git a/parse/values/subpacketid.go b/parse/values/subpacketid.go
index 2bd26fc..ba91f97 100644
--- a/parse/values/subpacketid.go
+++ b/parse/values/subpacketid.go
@@ -61,7 +61,23 @@ func (s SuboacketID) ToItem(r *reader.Reader, dumpFlag bool) *result.Item {
 	)
 }
 
+//StringIn returns name of sub-packet type in the packet (types of User Attribute Packet are numbered on their own)
+func (s SuboacketID) StringIn(tag TagID) string {
+	switch {
+	case tag == 17:
+		return s.toString(Msgs{0: "Reserved", 1: subpacketNames[1]})
+	case tag == 2 && s&0x7f == 1:
+		return s.toString(Msgs{1: "Reserved"})
+	default:
+		return s.String()
+	}
+}
+
 func (s SuboacketID) String() string {
+	return s.toString(subpacketNames)
+}
+
+func (s SuboacketID) toString(names Msgs) string {
 	c := ""
 	if s&0x80 != 0 { //critical bit
 		c = " <critical>"
@@ -71,7 +87,7 @@ func (s SuboacketID) String() string {
 	if 100 <= s && s <= 110 {
 		name = "Private or experimental"
 	} else {
-		name = subpacketNames.Get(int(s), Unknown)
+		name = names.Get(int(s), Unknown)
 	}
 	return fmt.Sprintf("%s (sub %d)", name+c, s)
 }
-- 
2.43.0

