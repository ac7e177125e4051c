From 8fc6392edc3d3be77aaf0d62550bb412b17d0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:05 +0000
Subject: [PATCH 01/16] fix: no panic on a version 5 secret key that ends
 before the key material length

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From 756ed8e0d78fe243243dda41c7d2cf053004fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:08 +0000
Subject: [PATCH 02/16] fix: reject negative and overflowing sizes when reading
 from a packet body

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..8de4395 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -112,7 +112,7 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size < 0 || size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From adb6869613bc773cff401bc6142d3c6c0d6cf5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:11 +0000
Subject: [PATCH 03/16] fix: reading to the end leaves the offset at the end,
 not beyond it

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 8de4395..a125f14 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From d5212c3275f65138b0533eeda4aaff02149e31c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:14 +0000
Subject: [PATCH 04/16] fix: report errors in version 3 signature packets

---
 parse/tags/tag02.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..ece8753 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -48,7 +48,7 @@ func (t *tag02) Parse() (*result.Item, error) {
 		if version.Number() == 3 {
 			_, err2 := t.parseV3(rootInfo)
 			if err2 != nil {
-				return rootInfo, errs.Wrap(err)
+				return rootInfo, errs.Wrap(err2)
 			}
 		}
 	}
-- 
2.43.0


From c4d3e9a444b0460e738e25ec4ca418dc2ca9534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:17 +0000
Subject: [PATCH 05/16] fix: expiration dates after 2106 do not wrap around

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From 223d73daf3c90947b02215bcfc93eefbb44065c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 06/16] fix: binary input that the armor scanner did not read
 to the end is parsed completely

---
 parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..be7b3a2 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -34,7 +34,7 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 		buf := &bytes.Buffer{}
 		r, err = newReaderArmor(io.TeeReader(reader, buf))
 		if err != nil {
-			r, err = buf, nil
+			r, err = io.MultiReader(buf, reader), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From 5ea9c4168ef6653e8f0036852db6b976960efaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:35 +0000
Subject: [PATCH 07/16] fix: report a truncated packet in the key block
 subpacket

---
 parse/tags/sub38.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..bef6b43 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -47,7 +48,11 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
-	sp, err := NewPackets(s.cxt, s.reader)
+	data, err := s.reader.Read2EOF()
+	if err != nil && !errs.Is(err, io.EOF) { //no key data is not error
+		return errs.Wrap(err)
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(data))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From 5b83414005e4c25b46ab2b69dd5e4df122de91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:37 +0000
Subject: [PATCH 08/16] fix: signature expiration dates do not use the creation
 time of another signature

---
 parse/tags/tag02.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index ece8753..26ab939 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -25,6 +25,10 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
 	rootInfo := t.ToItem()
+	//the creation time belongs to this signature only (signatures can be nested)
+	outer := t.cxt.SigCreationTime
+	t.cxt.SigCreationTime = nil
+	defer func() { t.cxt.SigCreationTime = outer }()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
 	if err != nil {
-- 
2.43.0


From e9a0235299dce50ad9c5a97c6c2b8dbf20905e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:05 +0000
Subject: [PATCH 09/16] fix: a string-to-key usage octet other than 0 and
 253-255 is the symmetric algorithm itself

---
 parse/tags/seckey.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..bfabebc 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -37,8 +37,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		return err
 	} else if rOpt != nil {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
-		var symid values.SymID
-		if usage != 0 { //encrypted secret-key
+		//Any other non-zero value of string-to-key usage octet is the symmetric encryption algorithm itself.
+		symid := values.SymID(usage)
+		if usage >= 253 {
 			alg, err := rOpt.ReadByte()
 			if err != nil {
 				return errs.New(
@@ -48,6 +49,8 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 				)
 			}
 			symid = values.SymID(alg)
+		}
+		if usage != 0 { //encrypted secret-key
 			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
-- 
2.43.0


From d9acf2dc3db293ac2512e6e44c837c91831465cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:08 +0000
Subject: [PATCH 10/16] fix: read the IV of a version 5 secret key from its
 optional fields

---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index bfabebc..875d1f0 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -84,7 +84,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, symid, usage == 253)
 			if err != nil {
 				return err
 			}
@@ -195,9 +195,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From 80cf5f089a2d43c27f2f953d3008917dc4f70dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:11 +0000
Subject: [PATCH 11/16] fix: number the unknown octets of key flags by their
 position

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From cc24f891ef6de9a7dc50c7e5b886a0bfe45e1f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:14 +0000
Subject: [PATCH 12/16] fix: report a truncated initialization vector of an
 AEAD encrypted data packet

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From cd6e995c5cad1c84b3de31e457ae966bc9e51923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:17 +0000
Subject: [PATCH 13/16] fix: the initialization vector of OCB mode is 15 octets

---
 parse/values/aeadid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/values/aeadid.go b/parse/values/aeadid.go
index 7e60d20..f4a77be 100644
--- a/parse/values/aeadid.go
+++ b/parse/values/aeadid.go
@@ -13,7 +13,7 @@ var aeadIDNames = Msgs{
 
 var aeadIDIVLen = map[int]int{
 	1: 16, //EAX mode
-	2: 16, //OCB mode
+	2: 15, //OCB mode
 }
 
 var aeadIDTagLen = map[int]int{
-- 
2.43.0


From e9b933c85907017fe30578a55d5194d668a9ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 14/16] fix: the length of an image header is little-endian

---
 parse/tags/sub01.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..1750948 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -3,6 +3,7 @@ package tags
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 
 	"github.com/spiegel-im-spiegel/errs"
@@ -29,7 +30,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := int(binary.LittleEndian.Uint16(l)) //little-endian by RFC 4880 section 5.12.1
+	if length > s.reader.Len() {
+		return rootInfo, errs.New(fmt.Sprintf("illegal image header (length: %d bytes)", length), errs.WithCause(io.ErrUnexpectedEOF))
+	}
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
@@ -65,7 +69,7 @@ func (s *sub01) Parse() (*result.Item, error) {
 	}
 	itm = result.NewItem(
 		result.Name("Image data"),
-		result.Note(fmt.Sprintf("%d bytes", s.reader.Len()-int(length))),
+		result.Note(fmt.Sprintf("%d bytes", s.reader.Len()-length)),
 	)
 	rootInfo.Add(itm)
 	return rootInfo, nil
-- 
2.43.0


From 360fbdab5a8da1fd507ae38473c114ae3e240f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:33 +0000
Subject: [PATCH 15/16] fix: no panic on a null entry in the key list of GitHub

---
 github/github.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..3b193a3 100644
--- a/github/github.go
+++ b/github/github.go
@@ -46,6 +46,9 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
+			if k == nil {
+				continue
+			}
 			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
-- 
2.43.0


From 806b62d9ca54e41d57b2218ed4fbe8e109da9250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 16/16] fix: no panic on a GitHub user name that makes no valid
 URL

---
 github/github.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/github/github.go b/github/github.go
index 3b193a3..a478ecf 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,8 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	return fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
-- 
2.43.0

