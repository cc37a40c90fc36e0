From 2c831ed1cd9cfd340ecbb18ebc3fe14d8f16fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 01/10] fix: read the last data codeword of long blocks from
 the right column

Only the long blocks have an entry in the last row of interleaved data
codewords, so the column of a long block in that row is its index among
the long blocks. Every long block used to start error correction with a
wrong last data codeword, which cost one error of correction capacity.
---
 src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..0f5d811 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -359,7 +359,9 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
         for j in 0..ecc.dw {
-            dst[j] = ds.data[j * bc + i];
+            // The last row of data codewords only has entries for the long blocks
+            let col = if j < sb_ecc.dw { i } else { i - sb_ecc.ns };
+            dst[j] = ds.data[j * bc + col];
         }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
-- 
2.43.0


From 8af6682b1a959ab9c8a94714949b3d4a953074f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 02/10] fix: correct the last alignment pattern position of
 version 21

ISO/IEC 18004 places the alignment patterns of version 21 at 6, 28, 50,
72 and 94.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From e0d0cc0094461a89f179b04dceafb163fee05634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 03/10] fix: check the grid size before reading the format
 information

Grids smaller than 9 modules were queried outside their bounds (and the
size computation underflowed) before the size was rejected.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 0f5d811..1630b69 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -680,6 +680,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Smaller grids do not have all the modules read below
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -706,7 +708,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From e54beef8a36e0041e581fdc43671548fe048888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:19 +0000
Subject: [PATCH 04/10] fix: compute line intersections in 64 bit

The products are cubic in the coordinates and overflowed i32 for codes
photographed large: detection panicked in debug builds and used a wrong
alignment position in release builds.
---
 src/geometry.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..81ae9ab 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -85,14 +85,14 @@ impl Perspective {
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -(i64::from(p1.y) - i64::from(p0.y));
+    let b = i64::from(p1.x) - i64::from(p0.x);
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -(i64::from(q1.y) - i64::from(q0.y));
+    let d = i64::from(q1.x) - i64::from(q0.x);
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * i64::from(p1.x) + b * i64::from(p1.y);
+    let f = c * i64::from(q1.x) + d * i64::from(q1.y);
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +106,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
-- 
2.43.0


From e923b9450d3573415e88a279ab26cc0dae97a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:44 +0000
Subject: [PATCH 05/10] fix: do not report grids too small for version 1

A group of finder patterns with hardly any transitions between them was
returned as a 17x17 grid, which no QR version has.
---
 src/identify/grid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..0ee5a18 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -94,7 +94,8 @@ impl SkewedGridLocation {
             align = found.best;
         }
 
-        if version_from_grid_size(grid_size) >= VERSION_DATA_BASE.len() {
+        let version = version_from_grid_size(grid_size);
+        if version == 0 || version >= VERSION_DATA_BASE.len() {
             return None;
         }
 
-- 
2.43.0


From 24b22b82ffbd890a4b63a0d1e5e2de6788c51fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 06/10] fix: reject finder patterns whose rotated corners are
 degenerate

---
 src/identify/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 0ee5a18..555ec63 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -165,7 +165,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -175,8 +175,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From 1fd88b256e3f7d3ae77eaf6ebeba3206a2f9fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 07/10] fix: searching an image of width zero finds nothing

---
 src/detect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..69188af 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,11 @@ where
 {
     let mut res = Vec::new();
 
+    // An image without any columns has no first pixel to start a line with
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From 921da22c97241f340dc29be47adfa9904ba3ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 08/10] fix: use each finder pattern in one grid only

---
 src/prepare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..f6b954a 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -299,6 +299,8 @@ where
                 used_capstones.push(pair.0);
                 used_capstones.push(idx);
                 used_capstones.push(pair.1);
+                // A capstone is part of one QR code only
+                break;
             }
         }
         groups
-- 
2.43.0


From 0505f09efe81984f9baa0de6ccb137b438847d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 09/10] fix: bound the alignment pattern search by the image
 size

---
 src/identify/grid.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 555ec63..56b0367 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -245,9 +245,19 @@ where
     let a = c0.c.map(u, v + 1.0);
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v);
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let offset = |p: &Point| {
+        (
+            i64::from(p.x) - i64::from(align_seed.x),
+            i64::from(p.y) - i64::from(align_seed.y),
+        )
+    };
+    let (a, c) = (offset(&a), offset(&c));
+    let size_estimate = a.1.saturating_mul(c.0).saturating_sub(a.0.saturating_mul(c.1));
+    let size_estimate = usize::try_from(size_estimate.unsigned_abs()).ok()?;
+    /* No region is larger than the image itself */
+    if size_estimate / 2 > img.width() * img.height() {
+        return None;
+    }
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
-- 
2.43.0


From e383816521a5870cac0b5f373d8d787f054e500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 10/10] fix: map points near the horizon instead of panicking

---
 src/geometry.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 81ae9ab..0af95a7 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -52,10 +52,8 @@ impl Perspective {
         let x = x.round();
         let y = y.round();
 
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
+        // The casts saturate: points near the horizon are moved to the closest
+        // coordinates that can be represented.
         Point {
             x: x as i32,
             y: y as i32,
-- 
2.43.0

