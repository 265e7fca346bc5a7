From 65673e20724b5a4f91700952c2326a19bc50a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 1/3] fix: reject negative and absurd dimensions instead of
 panicking

A header such as 'GP -5x-5' or 'GP 9223372036854775807x1' made NewComposite
panic with 'makeslice: len out of range'.
---
 header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/header.go b/header.go
index 97581e0..9081216 100644
--- a/header.go
+++ b/header.go
@@ -7,6 +7,10 @@ import (
 	"unicode"
 )
 
+// maxDimension limits the width and height declared by a header. It is far beyond the
+// dimensions of any known grid.
+const maxDimension = 1 << 14
+
 // splitHeader splits the given header string into its fields. The returned
 // map is using the field name as key and the field content as value.
 func splitHeader(header string) (m map[string]string) {
@@ -119,6 +123,11 @@ func (c *Composite) parseHeader(reader *bufio.Reader) error {
 		c.Rx, c.Ry = v.rx, v.ry // data resolution
 	}
 
+	// Reject dimensions no raster can be allocated for
+	if c.Dx <= 0 || c.Dy <= 0 || c.Dx > maxDimension || c.Dy > maxDimension {
+		return newError("parseHeader", "invalid dimensions")
+	}
+
 	// Parse Precision - Example: "PR E-01" or "PR E+00"
 	if prec, ok := section["E"]; ok { // not that nice
 		if _, err := fmt.Sscanf(prec, "%d", &c.precision); err != nil {
-- 
2.43.0


From 8c94f7b999341826c595f7fbfa085b0dd24db3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 2/3] fix: keep the catalogued resolution of local picture
 products

The resolution looked up in the dimension catalog was overwritten with NaN
by calibrateProjection, so Rx and Ry of local products were lost.
---
 projection.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projection.go b/projection.go
index 3e95f1f..1a2bdd3 100644
--- a/projection.go
+++ b/projection.go
@@ -90,8 +90,10 @@ func (c *Composite) cornerPoints(detectedGrid grid) (originTop, originLeft, edge
 
 // calibrateProjection initializes fields that are necessary for coordinate transformation
 func (c *Composite) calibrateProjection() {
-	c.Rx = math.NaN()
-	c.Ry = math.NaN()
+	if c.Rx == 0 || c.Ry == 0 { // keep resolution of local picture products
+		c.Rx = math.NaN()
+		c.Ry = math.NaN()
+	}
 	c.offx = math.NaN()
 	c.offy = math.NaN()
 
-- 
2.43.0


From 5765c3e1ded18e12b18a2784abd27ef0b6a2f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 3/3] fix: do not assign the previous value to a trailing
 header key

A header ending in a field name without content ('VV 100INT') made this
field inherit the content of the previous one.
---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index 9081216..e31df6d 100644
--- a/header.go
+++ b/header.go
@@ -37,6 +37,9 @@ func splitHeader(header string) (m map[string]string) {
 			endValue = i + 1
 		}
 	}
+	if !dispatch { // trailing key without value
+		beginValue, endValue = endKey, endKey
+	}
 	m[header[beginKey:endKey]] = header[beginValue:endValue]
 
 	return
-- 
2.43.0

