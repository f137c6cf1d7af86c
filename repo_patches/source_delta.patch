From cb75275050fcd73c5d2074004e7a270b05fa8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:43 +0000
Subject: [PATCH 1/2] fix: do not panic in UnmarshalText on text that decodes
 to more than 32 bytes

---
 ristretto.go | 4 +++-
 scalar.go    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..1d91786 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,15 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf[:n])
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..bf9cf2f 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,15 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	data := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(data, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], data[:n])
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From 103732fb4a6c5fc191874f850af83b11b6d3e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:14 +0000
Subject: [PATCH 2/2] fix: FieldElement.BytesInto (generic) must not modify its
 receiver

---
 edwards25519/field_generic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..47a34df 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,10 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Carry in a copy: fe itself must not change, as it might be read by others.
+	orig, t := fe, *fe
+	fe = &t
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +331,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return orig
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0

