From 53f858017b24779f4c5f4da5a3174b65c24ea2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 1/2] fix: undo only executed steps when recompressing from
 step 58

hasCollided renamed the working variables for every step between 64 and
the starting step, also for those it does not undo. For the disturbance
vectors tested from step 58 that is seven renames (two modulo five), so
the recompression started from a shuffled state and no near-collision
block of those vectors could ever be detected.
---
 sha1cdblock_generic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..29633a4 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -194,24 +194,24 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K3 + (m1[i] ^ dm[i]) // m2 = m1 ^ dm.
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := ((b | c) & d) | (b & c)
 			e -= bits.RotateLeft32(a, 5) + f + shared.K2 + (m1[i] ^ dm[i])
 		}
 	}
 	for i := uint32(39); i >= 20; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K1 + (m1[i] ^ dm[i])
@@ -219,8 +219,8 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	}
 	for i := uint32(20); i > 0; i-- {
 		j := i - 1
-		a, b, c, d, e = b, c, d, e, a
 		if step > j {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30) // undo the rotate left
 			f := b&c | (^b)&d
 			// subtract from e
-- 
2.43.0


From abfb3a729fdfb08681203fa1c2c08f52b5809ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:09 +0000
Subject: [PATCH 2/2] fix: keep the collision flag across
 MarshalBinary/UnmarshalBinary

The marshaled state did not record that a collision had been found: a hash
resumed from the state of one that had detected an attack reported no
collision, and a receiver that had detected one kept its flag after
restoring a clean state. States without a collision are encoded as before;
those with one carry their own identifier, which older versions reject
instead of silently dropping the flag.
---
 internal/const.go |  4 ++++
 sha1cd.go         | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/const.go b/internal/const.go
index 944a131..d11ed45 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -39,4 +39,8 @@ const (
 
 	Magic         = "shacd\x01"
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
+
+	// MagicCollision takes the place of Magic in the states of hashes that
+	// have already found a collision.
+	MagicCollision = "shacd\x02"
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..62cf837 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -38,7 +38,11 @@ type digest struct {
 
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
-	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b, shared.MagicCollision...)
+	} else {
+		b = append(b, shared.Magic...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,12 +77,14 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
-	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
+	if len(b) < len(shared.Magic) ||
+		(string(b[:len(shared.Magic)]) != shared.Magic && string(b[:len(shared.Magic)]) != shared.MagicCollision) {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
 	if len(b) != shared.MarshaledSize {
 		return errors.New("crypto/sha1: invalid hash state size")
 	}
+	d.col = string(b[:len(shared.Magic)]) == shared.MagicCollision
 	b = b[len(shared.Magic):]
 	b, d.h[0] = consumeUint32(b)
 	b, d.h[1] = consumeUint32(b)
-- 
2.43.0

