From 696db9a8f9866ee785cff847dc78723d71d9807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:12 +0000
Subject: [PATCH 01/71] fix: ReadSheetPositionsAt dropped the error of a failed
 header read

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7f351b7..4160fa1 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -314,7 +314,7 @@ func ReadSheetHeaderAt(file string, hdBuf *SheetHeader) error {
 func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
-	if err != nil { return nil }
+	if err != nil { return err }
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
-- 
2.43.0


From a3ce0d88c0927e15ab3c79a4d9d1403bf8e8d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 02/71] fix: short reads were accepted as complete vector and
 ID blocks

---
 render/io/io.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 4160fa1..0cbddd0 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -415,7 +415,7 @@ func readVecAsByte(rd io.Reader, end binary.ByteOrder, buf []geom.Vec) error {
 	hd.Cap *= 12
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -442,7 +442,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	hd.Cap *= 24
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -504,7 +504,7 @@ func readInt64AsByte(rd io.Reader, end binary.ByteOrder, buf []int64) error {
 	hd.Cap *= 8
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
@@ -533,7 +533,7 @@ func readInt32AsByte(rd io.Reader, end binary.ByteOrder, buf64 []int64) error {
 	hd.Cap *= 4
 	
 	byteBuf := *(*[]byte)(unsafe.Pointer(&hd))
-	_, err := rd.Read(byteBuf)
+	_, err := io.ReadFull(rd, byteBuf)
 	if err != nil { return err }
 
 	if !isSysOrder(end) {
-- 
2.43.0


From 2ae708b6495f82c40d3a8f1c88b14bd8ef106c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 03/71] fix: byte swapping of 64-bit vectors used a 32-bit
 stride

---
 render/io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/io.go b/render/io/io.go
index 0cbddd0..629c84d 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -448,7 +448,7 @@ func readVec64AsByte(rd io.Reader, end binary.ByteOrder, outBuf []geom.Vec) erro
 	if !isSysOrder(end) {
 		for i := 0; i < bufLen * 3; i++ {
 			for j := 0; j < 4; j++ {
-				idx1, idx2 := i*8 + j, i*8 + 3 - j
+				idx1, idx2 := i*8 + j, i*8 + 7 - j
 				byteBuf[idx1], byteBuf[idx2] = byteBuf[idx2], byteBuf[idx1]
 			}
 		}
-- 
2.43.0


From 78508e1d43a6642e6a0ae33eb87812ad76d33d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 04/71] fix: Gadget header reads ignored errors and the
 requested byte order

---
 render/io/io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 629c84d..7c569da 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -142,7 +142,7 @@ func ReadGadgetHeader(path string, order binary.ByteOrder, variant string) *Cata
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err = binary.Read(f, order, gh); err != nil { panic(err) }
 
 	h := gh.Standardize()
 	return h
@@ -168,7 +168,7 @@ func ReadGadgetParticlesAt(
 	gh := &gadgetHeader{}
 
 	_ = readInt32(f, order)
-	binary.Read(f, binary.LittleEndian, gh)
+	if err = binary.Read(f, order, gh); err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 	h := gh.Standardize()
-- 
2.43.0


From 4451f1fe5b6075152a150173ed2a1c8ff70a7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 05/71] fix: Gadget particle block reads ignored I/O errors

---
 render/io/io.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index 7c569da..42be90a 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -202,10 +202,11 @@ func ReadGadgetParticlesAt(
 	}
 
 	if readF32 {
-		readVecAsByte(f, order, xs)
+		err = readVecAsByte(f, order, xs)
 	} else {
-		readVec64AsByte(f, order, xs)
+		err = readVec64AsByte(f, order, xs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 
 
@@ -218,22 +219,24 @@ func ReadGadgetParticlesAt(
 		panic(fmt.Sprintf("Internal error: Expected positions block to have header %d or %d, but actually has header %d\n (this is probably a binary file format issues)", f32Size, 2*f32Size, xSize))
 	}
 	if readF32 {
-		readVecAsByte(f, order, vs)
+		err = readVecAsByte(f, order, vs)
 	} else {
-		readVec64AsByte(f, order, vs)
+		err = readVec64AsByte(f, order, vs)
 	}
+	if err != nil { panic(err) }
 	_ = readInt32(f, order)
 	_ = readInt32(f, order)
 
 	if idSize == 64 {
-		readInt64AsByte(f, order, ids)
+		err = readInt64AsByte(f, order, ids)
 	} else if idSize == 32 {
 		runtime.GC()
-		readInt32AsByte(f, order, ids)
+		err = readInt32AsByte(f, order, ids)
 		runtime.GC()
 	} else {
 		panic("ID size other than 32 bits or 64 bits given.")
 	}
+	if err != nil { panic(err) }
 	//_ = readInt32(f, order)
 	
 	// Convert gadget velocities out of code units.
-- 
2.43.0


From b127b4d1bf599eb9276ad0261aefb6a2e011d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 06/71] fix: WriteSheet ignored file creation errors and never
 closed the file

---
 render/io/io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/render/io/io.go b/render/io/io.go
index 42be90a..a35d7c1 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -365,6 +365,9 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	}
 
 	f, err := os.Create(file)
+	if err != nil {
+		log.Fatal(err.Error())
+	}
 	endiannessFlag := int32(0)
 	order := endianness(endiannessFlag)
 
@@ -386,6 +389,9 @@ func WriteSheet(file string, h *SheetHeader, xs, vs []geom.Vec) {
 	if err = writeVecAsByte(f, order, vs); err != nil {
 		log.Fatalf(err.Error())
 	}
+	if err = f.Close(); err != nil {
+		log.Fatal(err.Error())
+	}
 }
 
 // CellBounds returns the bounds  of a given sheet aligned to the boundaries of
-- 
2.43.0


From 46aa7de4f3810b55ae56f4bfe4aa7db31eb9f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 07/71] fix: sheet readers leaked file handles and ignored seek
 errors on error paths

---
 render/io/io.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/render/io/io.go b/render/io/io.go
index a35d7c1..9dedb2a 100644
--- a/render/io/io.go
+++ b/render/io/io.go
@@ -289,6 +289,7 @@ func readSheetHeaderAt(
 
 	headerSize := readInt32(f, order)
 	if headerSize != int32(unsafe.Sizeof(SheetHeader{})) {
+		f.Close()
 		return nil, binary.LittleEndian, 
 		fmt.Errorf("Expected catalog.SheetHeader size of %d, found %d.",
 			unsafe.Sizeof(SheetHeader{}), headerSize,
@@ -296,10 +297,16 @@ func readSheetHeaderAt(
 	}
 
 	_, err = f.Seek(4 + 4, 0)
-	if err != nil { return nil, binary.LittleEndian, err }
+	if err != nil {
+		f.Close()
+		return nil, binary.LittleEndian, err
+	}
 
 	err = binary.Read(f, order, hdBuf)
-	if err != nil { return nil, binary.LittleEndian, err }
+	if err != nil {
+		f.Close()
+		return nil, binary.LittleEndian, err
+	}
 
 	hdBuf.Count = hdBuf.CountWidth*hdBuf.CountWidth*hdBuf.CountWidth
 	return f, order, nil
@@ -318,6 +325,7 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 
 	if h.GridCount != int64(len(xsBuf)) {
 		return fmt.Errorf("Position buffer has length %d, but file %s has %d "+ 
@@ -326,11 +334,9 @@ func ReadSheetPositionsAt(file string, xsBuf []geom.Vec) error {
 
 	// Go to block 4 in the file.
 	// The file pointer should already be here, but let's just be safe, okay?
-	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{}))), 0)
-	if err := readVecAsByte(f, order, xsBuf); err != nil { return err }
-
-	if err := f.Close(); err != nil { return err }
-	return nil
+	_, err = f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{}))), 0)
+	if err != nil { return err }
+	return readVecAsByte(f, order, xsBuf)
 }
 
 // ReadVelocitiesAt reads the velocities in the given file into a buffer.
@@ -338,16 +344,16 @@ func ReadSheetVelocitiesAt(file string, vsBuf []geom.Vec) error {
 	h := &SheetHeader{}
 	f, order, err := readSheetHeaderAt(file, h)
 	if err != nil { return err }
+	defer f.Close()
 	if h.GridCount != int64(len(vsBuf)) {
 		return fmt.Errorf("Velocity buffer has length %d, but file %s has %d " + 
 			"vectors.", len(vsBuf), file, h.GridCount)
 	}
 
-	f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{})) +
+	_, err = f.Seek(int64(4 + 4 + int(unsafe.Sizeof(SheetHeader{})) +
 		3 * 4 * len(vsBuf)), 0)
-	if err := readVecAsByte(f, order, vsBuf); err != nil { return err }
-	if err := f.Close(); err != nil { return err }
-	return nil
+	if err != nil { return err }
+	return readVecAsByte(f, order, vsBuf)
 }
 
 // Write writes a grid of position and velocity vectors to a file, defined
-- 
2.43.0


From 1ee52ae18b17d511ac78eb593413946cc9989d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 08/71] fix: WriteBuffer wrote the header before setting its
 vector grid flag

---
 render/io/output.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/io/output.go b/render/io/output.go
index cdf611d..c5f91ab 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -152,12 +152,13 @@ func WriteBuffer(
 	hd.Render = render
 	hd.Loc = loc
 
-	binary.Write(wr, end, &hd)
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
+		binary.Write(wr, end, &hd)
 		binary.Write(wr, end, xs)
 		binary.Write(wr, end, ys)
 		binary.Write(wr, end, zs)
-- 
2.43.0


From 430762cab82d1fa443b568499084b30f7c0be6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 09/71] fix: WriteBuffer ignored write errors

---
 render/io/output.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index c5f91ab..8630fce 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"log"
 	"math"
 	"os"
 
@@ -154,19 +155,26 @@ func WriteBuffer(
 
 	if xs, ok := buf.FinalizedScalarBuffer(); ok {
 		hd.Type.IsVectorGrid = 0
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
+		mustWrite(wr, &hd)
+		mustWrite(wr, xs)
 	} else if xs, ys, zs, ok := buf.FinalizedVectorBuffer(); ok {
 		hd.Type.IsVectorGrid = 1
-		binary.Write(wr, end, &hd)
-		binary.Write(wr, end, xs)
-		binary.Write(wr, end, ys)
-		binary.Write(wr, end, zs)
+		mustWrite(wr, &hd)
+		mustWrite(wr, xs)
+		mustWrite(wr, ys)
+		mustWrite(wr, zs)
 	} else {
 		panic("Buffer is neither scalar nor vector.")
 	}
 }
 
+// mustWrite writes data to wr and exits if the write fails.
+func mustWrite(wr io.Writer, data interface{}) {
+	if err := binary.Write(wr, end, data); err != nil {
+		log.Fatal(err.Error())
+	}
+}
+
 func EndiannessVersionFlag(end binary.ByteOrder) uint64 {
 	// If the version number ever gets larger than IntMax32, we have bigger
 	// problems on our hands.
-- 
2.43.0


From 8e1f9fac0004d13e0c0bb2db6f5bfd96665f07da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 10/71] fix: ReadGrid could not read projected grids

---
 render/io/output.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/io/output.go b/render/io/output.go
index 8630fce..0b9977e 100644
--- a/render/io/output.go
+++ b/render/io/output.go
@@ -79,8 +79,11 @@ func ReadGrid(fname string) ([]float64, error) {
         return nil, fmt.Errorf("io.ReadGrid() can only read scalar grids.")
     }
 
-    sp := hd.Loc.PixelSpan
-    val32s := make([]float32, sp[0] * sp[1] * sp[2])
+    n := int64(1)
+    for i, sp := range hd.Loc.PixelSpan {
+        if int64(i) != hd.Render.ProjectionAxis { n *= sp }
+    }
+    val32s := make([]float32, n)
     err = binary.Read(f, end, val32s)
     if err != nil { return nil, err }
 
-- 
2.43.0


From dafbf91277c49c55826f156dc515561bb8fc265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 11/71] fix: XUnits was applied to positions but not to the
 simulation width

---
 render/main/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/main/main.go b/render/main/main.go
index 1de47f8..b71f69a 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -284,6 +284,7 @@ func createGrids(
 	for i := range hs {
 		hs[i] = *io.ReadGadgetHeader(catalogs[i], gadgetEndianness, con.InputFormat)
 		hs[i].Mass *= con.MUnits
+		hs[i].TotalWidth *= con.XUnits
 	}
 	log.Printf("Input header: %v\n", hs[0])
 
-- 
2.43.0


From 631a375c688fd093a3b07e5a40ae650d399b81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:15 +0000
Subject: [PATCH 12/71] fix: sheet files recorded the particle count of one
 catalog, not of the box

---
 render/main/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index b71f69a..daa50af 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -376,7 +376,7 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd := &io.SheetHeader{}
 	shd.Cosmo = hd.Cosmo
 	shd.CountWidth = hd.CountWidth
-	shd.Count = hd.Count
+	shd.Count = hd.TotalCount
 	shd.Mass = hd.Mass
 	shd.TotalWidth = hd.TotalWidth
 
-- 
2.43.0


From eb1df567e363a14a1c6429717a25a6a4c51a5c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 13/71] fix: particles were lost when Cells does not divide the
 particle grid

---
 render/main/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index daa50af..16398c5 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -366,6 +366,10 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 
 	log.Println("Writing to directory", outDir)
 
+	if int(hd.CountWidth) % cells != 0 {
+		log.Fatalf("'Cells' value, %d, does not evenly divide the %d " +
+			"particles on one side of the simulation.", cells, hd.CountWidth)
+	}
 	segmentWidth := int(hd.CountWidth) / cells
 	gridWidth := segmentWidth + 1
 
-- 
2.43.0


From 51a0a2171269ab7c9538c21bd293572b658a1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 14/71] fix: sheet segments overwrote one another for Cells >
 10

---
 render/main/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/render/main/main.go b/render/main/main.go
index 16398c5..8a5e78e 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -389,13 +389,16 @@ func writeGrids(outDir string, hd *io.CatalogHeader,
 	shd.GridCount = int64(shd.GridWidth * shd.GridWidth * shd.GridWidth)
 	shd.Cells = int64(cells)
 
+	// Indices are zero-padded to a common width so that names are unique.
+	digits := len(fmt.Sprint(cells - 1))
+
 	// Write the data. (x, y, z) indexes over the files.
 	for z := int64(0); z < shd.Cells; z++ {
 		for y := int64(0); y < shd.Cells; y++ {
 			for x := int64(0); x < shd.Cells; x++ {
 				copyToSegment(shd, xs, vs, xsSeg, vsSeg)
 				file := path.Join(outDir, fmt.Sprintf(
-					"sheet%d%d%d.dat", x, y, z,
+					"sheet%0*d%0*d%0*d.dat", digits, x, digits, y, digits, z,
 				))
 				io.WriteSheet(file, shd, xsSeg, vsSeg)
 				runtime.GC()
-- 
2.43.0


From fddc824699445a83547173aa7fceda7849cc187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:17 +0000
Subject: [PATCH 15/71] fix: sheet velocity bounds included a particle from
 outside the segment

---
 render/main/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 8a5e78e..71a2273 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -481,8 +481,8 @@ func copyToSegment(shd *io.SheetHeader, xs, vs, xsSeg, vsSeg []geom.Vec) {
 
 	// smallidx is the index within the segment.
 	smallIdx := 0
-	vMin := vs[0]
-	vMax := vs[0]
+	vMin := vs[xStart + N * yStart + N2 * zStart]
+	vMax := vMin
 
 	for z := zStart; z < zStart + shd.GridWidth; z++ {
 		zIdx := z
-- 
2.43.0


From 220e16d97b517258e00f7e8c399e9fa026642e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 16/71] fix: errors reading the first sheet header were ignored

---
 render/main/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 71a2273..7ceca8b 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -641,7 +641,9 @@ func densitySetupIO(con *io.RenderConfig) (
 	files = make([]string, len(infos))
 	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }
 
-	io.ReadSheetHeaderAt(files[0], hd)
+	if len(files) == 0 { log.Fatalf("No files in '%s'.", con.Input) }
+	err = io.ReadSheetHeaderAt(files[0], hd)
+	if err != nil { log.Fatal(err.Error()) }
 
 	return files, hd, fg
 }
@@ -679,7 +681,9 @@ func tetraHistSetupIO(con *io.TetraHistConfig) (
 	files = make([]string, len(infos))
 	for i := range infos { files[i] = path.Join(con.Input, infos[i].Name()) }
 
-	io.ReadSheetHeaderAt(files[0], hd)
+	if len(files) == 0 { log.Fatalf("No files in '%s'.", con.Input) }
+	err = io.ReadSheetHeaderAt(files[0], hd)
+	if err != nil { log.Fatal(err.Error()) }
 
 	return files, hd, fg
 }
-- 
2.43.0


From 860c12c90d50c92290a32cc70079548d21b42223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 17/71] fix: grid headers described the config file instead of
 the rendered grid

---
 render/main/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 7ceca8b..34a7170 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -591,9 +591,12 @@ func renderMain(con *io.RenderConfig, bounds []string) {
 			hd.Cosmo.OmegaL, hd.Cosmo.Z, hd.TotalWidth,
 		)
 
+		axisStr := ""
+		if axis, ok := box.ProjectionAxis(); ok {
+			axisStr = [3]string{ "X", "Y", "Z" }[axis]
+		}
 		renderInfo := io.NewRenderInfo(
-			con.Particles, con.TotalPixels, con.SubsampleLength,
-			cBox.ProjectionAxis,
+			box.Points(), box.Cells(), con.SubsampleLength, axisStr,
 		)
 
 		io.WriteBuffer(box.Vals(), cos, renderInfo, loc, f)
-- 
2.43.0


From 66c39ac97f37d651908adcec3feb9b5db0ca760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 18/71] fix: ConvertSnapshot ignored its documented LogFile and
 ProfileFile options

---
 render/main/main.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index 34a7170..8547f08 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -31,6 +31,27 @@ type FileGroup struct {
 	log, prof *os.File
 }
 
+// newFileGroup creates the logging and profiling files requested by con.
+func newFileGroup(con *io.SharedConfig) *FileGroup {
+	var err error
+	fg := new(FileGroup)
+
+	if con.ValidLogFile() {
+		fg.log, err = os.Create(con.LogFile)
+		if err != nil { log.Fatal(err.Error()) }
+		log.SetOutput(fg.log)
+	}
+
+	if con.ValidProfileFile() {
+		fg.prof, err = os.Create(con.ProfileFile)
+		if err != nil { log.Fatal(err.Error()) }
+		err = pprof.StartCPUProfile(fg.prof)
+		if err != nil { log.Fatal(err.Error()) }
+	}
+
+	return fg
+}
+
 // Close closes the files inside FileGroup.
 func (fg *FileGroup) Close() {
 	if fg.log != nil {
@@ -241,6 +262,9 @@ func getModeName(vars map[string]*string) (string, error) {
 // lGadget2Main converts a set of LGadget-2 snapshots to gotetra files
 // based on the input config file.
 func lGadget2Main(con *io.ConvertSnapshotConfig) {
+	fg := newFileGroup(&con.SharedConfig)
+	defer fg.Close()
+
 	if !con.ValidIteratedInput() {
 		con.IterationStart = 0
 		con.IterationEnd = 0
-- 
2.43.0


From 787317d8c2a1474bbe4b1cf4763af0c411dc8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 19/71] fix: IteratedInput without IterationEnd silently
 converted nothing

---
 render/main/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 8547f08..ef70569 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -272,7 +272,9 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 
 	// If the user supplied format strings for iterated output, loop over the
 	// iteration range. Otherwise, just use the supplied snapshot.
-	for i := con.IterationStart; i <= con.IterationEnd; i++ {
+	// If the end of that range is not set, stop at the first invalid folder.
+	bounded := con.ValidIterationEnd()
+	for i := con.IterationStart; !bounded || i <= con.IterationEnd; i++ {
 		input, output := con.Input, con.Output
 		if con.ValidIteratedInput() {
 			input = fmt.Sprintf(con.IteratedInput, i)
@@ -280,7 +282,10 @@ func lGadget2Main(con *io.ConvertSnapshotConfig) {
 		}
 
 		infos, err := ioutil.ReadDir(input)
-		if err != nil { log.Fatal(err.Error()) }
+		if err != nil {
+			if !bounded && i > con.IterationStart { break }
+			log.Fatal(err.Error())
+		}
 		files := make([]string, len(infos))
 		
 		for i, info := range infos {
-- 
2.43.0


From 91bbedd4ae6d56ca29544f1754f42e779b6d0a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 20/71] fix: TetraHist did not validate its Quantity, HistBins
 and GridFile options

---
 render/main/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/render/main/main.go b/render/main/main.go
index ef70569..7375810 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -175,6 +175,12 @@ func main() {
 				con.SubsampleLength)
 		} else if !con.ValidHistScale() {
 			log.Fatalf("Invalid 'HistScale' value, %s.", con.HistScale)
+		} else if !con.ValidQuantity() {
+			log.Fatalf("Invalid 'Quantity' value, %s.", con.Quantity)
+		} else if !con.ValidHistBins() {
+			log.Fatalf("Invalid 'HistBins' value, %d.", con.HistBins)
+		} else if !con.ValidGridFile() {
+			log.Fatal("Invalid/non-existent 'GridFile' value.")
 		} else if !con.ValidHistMin() || !con.ValidHistMax() {
 			log.Fatalf("Invalid ('HistMin', 'HistMax'), (%g, %g).",
 				con.HistMin, con.HistMax)
-- 
2.43.0


From 63a9cc9c5e6d598eb8454551fc152447f0c12183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 21/71] fix: Subsample validated the old subsample length
 instead of the new one

---
 render/hist.go   | 4 ++--
 render/render.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6f5e5d8..9324064 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -101,8 +101,8 @@ func NewHistManager(
 }
 
 func (man *HistManager) Subsample(skip int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(skip) {
+		log.Fatalf("Skip ingrement is %d, must be power of two.", skip)
 	}
 
 	man.skip = skip
diff --git a/render/render.go b/render/render.go
index 9740a29..f55db75 100644
--- a/render/render.go
+++ b/render/render.go
@@ -215,8 +215,10 @@ func (r *renderer) initWorkspaces(man *Manager) {
 func (man *Manager) Log(flag bool) { man.log = flag }
 
 func (man *Manager) Subsample(subsampleLength int) {
-	if !isPowTwo(man.skip) {
-		log.Fatalf("Skip ingrement is %d, must be power of two.", man.skip)
+	if !isPowTwo(subsampleLength) {
+		log.Fatalf(
+			"Skip ingrement is %d, must be power of two.", subsampleLength,
+		)
 	}
 
 	man.skip = subsampleLength
-- 
2.43.0


From eb2049f870a77ab947a510d2af5738b001a515b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 22/71] fix: HistFromFile ignored errors reading particle
 positions

---
 render/hist.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 9324064..779e0dd 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -167,7 +167,8 @@ func (man *HistManager) HistFromFile(file string, info *HistInfo) error {
 	for bi := range man.boxes {
 		if !histIntersect(&man.hd, &man.boxes[bi]) { continue }
 
-		io.ReadSheetPositionsAt(file, man.xs)
+		err = io.ReadSheetPositionsAt(file, man.xs)
+		if err != nil { return err }
 
 		for id := 0; id < man.workers; id++ {
 			go man.chanHistogram(id, &man.boxes[bi], info, out)
-- 
2.43.0


From 67f45a16e356156180533bd2fd7412dd06531545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 23/71] fix: subsampled histograms assigned most cubes to no
 worker

---
 render/hist.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 779e0dd..6fee4fd 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -244,9 +244,7 @@ func (man *HistManager) chanHistogram(
 			for y := 0; y < segWidth; y += man.skip {
 				for x := 0; x < segWidth; x += man.skip {
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
-					if idx%(man.skip*man.skip*man.skip*man.workers) != worker {
-						continue
-					}
+					if idx%man.workers != worker { continue }
 
 					if !man.cubeIntersects(idx) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
-- 
2.43.0


From aa66dd614fd80c8d6c098f1e88b5c2cc0e7317b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 24/71] fix: cubeBoundingBox covered only one corner of each
 Lagrangian cube

---
 render/hist.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6fee4fd..21cc1fe 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -297,9 +297,9 @@ func (man *HistManager) cubeBoundingBox(
 	w, L := int(man.hd.GridWidth), float32(man.hd.TotalWidth)
 	origin, span = man.xs[ix + iy*w + iz*w*w], geom.Vec{ }
 
-	for dz := 0; dz < jump; dz += jump {
-		for dy := 0; dy < jump; dy += jump {
-			for dx := 0; dx < jump; dx += jump {
+	for dz := 0; dz <= jump; dz += jump {
+		for dy := 0; dy <= jump; dy += jump {
+			for dx := 0; dx <= jump; dx += jump {
 				// Get the vector in each corner of the Lagrangian cube.
 				x, y, z := ix + dx, iy + dy, iz + dz
 				vec := man.xs[x + y*w + z*w*w]
@@ -316,9 +316,9 @@ func (man *HistManager) cubeBoundingBox(
 					if delta > 0 && delta > span[k] {
 						span[k] = delta
 					} else if delta < 0 {
-						origin[k] -= delta
+						origin[k] += delta
 						if origin[k] < 0 { origin[k] += L }
-						span[k] += delta
+						span[k] -= delta
 					}
 				}
 			}
-- 
2.43.0


From a2aa078e4b6ea2cf827f5963814d4fa97a06f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 25/71] fix: histogram cubes were culled against their own
 sheet, not the box

---
 render/hist.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 21cc1fe..6885860 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -246,7 +246,7 @@ func (man *HistManager) chanHistogram(
 					idx := x + y*gridWidth + z*gridWidth*gridWidth
 					if idx%man.workers != worker { continue }
 
-					if !man.cubeIntersects(idx) { continue }
+					if !man.cubeIntersects(idx, box) { continue }
 					for dir := 0; dir < geom.TetraDirCount; dir++ {
 						man.getDensities(idx, dir, box, vecBuf, qs, inBox)
 						histogram(qs, inBox, info, hist)
@@ -261,9 +261,8 @@ func (man *HistManager) chanHistogram(
 	out <- worker
 }
 
-// tetIntersects returns true if the cube at idx intersects with the currently
-// loaded sheet.
-func (man *HistManager) cubeIntersects(idx int) bool {
+// cubeIntersects returns true if the cube at idx intersects with box.
+func (man *HistManager) cubeIntersects(idx int, box *HistBox) bool {
 	w := int(man.hd.GridWidth)
 	ix := idx % w
 	iy := (idx / w) % w
@@ -281,7 +280,7 @@ func (man *HistManager) cubeIntersects(idx int) bool {
 
 	for k := 0; k < 3; k++ {
 		if !intersect1D(
-			float64(man.hd.Origin[k]), float64(man.hd.Width[k]),
+			box.Origin[k], box.Span[k],
 			float64(origin[k]), float64(span[k]), man.hd.TotalWidth,
 		) {
 			return false
-- 
2.43.0


From 372ed8cc5880eee01097510278cf9d66c2a0f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 26/71] fix: contains1D excluded the lower edge of its segment

---
 render/hist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/hist.go b/render/hist.go
index 6885860..6b16394 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -218,7 +218,7 @@ func intersect1D(a, aSpan, b, bSpan, L float64) bool {
 // can be within [0, 2*L).
 func contains1D(a, aSpan, b, L float64) bool {
 	if b >= L { b -= L }
-	return (b > a && a + aSpan > b) ||
+	return (b >= a && a + aSpan > b) ||
 		(b < a && a + aSpan - L > b)
 }
 
-- 
2.43.0


From 144aa55090971f9485d117cd930ae042f5b3d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 27/71] fix: histograms smeared tetrahedra which cross the
 periodic boundary

---
 render/hist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/hist.go b/render/hist.go
index 6b16394..0a3f1db 100644
--- a/render/hist.go
+++ b/render/hist.go
@@ -350,7 +350,8 @@ func (man *HistManager) getDensities(
 		&man.xs[idxBuf[0]], &man.xs[idxBuf[1]],
 		&man.xs[idxBuf[2]], &man.xs[idxBuf[3]],
 	)
-	
+	man.periodizeTetra(&tet, L)
+
 	bufIdx := rand.Int63n(int64(len(man.unitBufs)))
 	tet.DistributeTetra(man.unitBufs[bufIdx], vecBuf)
 
@@ -401,7 +402,7 @@ func gridIndex(hd *io.GridHeader, vec geom.Vec) int {
 func (man *HistManager) periodizeTetra(tet *geom.Tetra, L float32) {
 	for i := 1; i < 4; i++ {
 		for k := 0; k < 3; k++ {
-			delta := tet.Corners[i][k] - tet.Corners[i][0]
+			delta := tet.Corners[i][k] - tet.Corners[0][k]
 			if delta > L/2 { tet.Corners[i][k] -= L }
 			if delta < -L/2 { tet.Corners[i][k] += L }
 		}
-- 
2.43.0


From 949fa5c6d07553497ac353450b6c9ee8e57dbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 28/71] fix: intFloor rounded zero and negative integers down
 by one cell

---
 render/box.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/render/box.go b/render/box.go
index 08bbd8a..d8de373 100644
--- a/render/box.go
+++ b/render/box.go
@@ -683,11 +683,7 @@ func (w *domainOverlap3D) Interpolate(
 }
 
 func intFloor(x float32) int {
-	if x > 0 {
-		return int(x)
-	} else {
-		return int(x - 1)
-	}
+	return int(math.Floor(float64(x)))
 }
 
 func cbSubtr(cb1, cb2 *geom.CellBounds) (i, j, k int) {
-- 
2.43.0


From a0d417d1466efe88a32a0b449d553f1a3527d012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:58 +0000
Subject: [PATCH 29/71] fix: z derivatives at grid edges differenced along x

---
 render/geom/deriv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 81f1036..b254f14 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -95,7 +95,7 @@ func (g *Grid) wrapDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.wrapDeriv(idx, 1, pos, g.Width[2])
+					d.wrapDeriv(idx, g.Area, pos, g.Width[2])
 				}
 			}
 		}
@@ -132,7 +132,7 @@ func (g *Grid) edgesDeriv(
 			for y := lBounds[1]; y < uBounds[1]; y++ {
 				for  x := lBounds[0]; x < uBounds[0]; x++ {
 					idx := x + y * g.Length + z * g.Area
-					d.edgeDeriv(idx, 1, pos)
+					d.edgeDeriv(idx, g.Area, pos)
 				}
 			}
 		}
-- 
2.43.0


From e972cd7f8486dc91fb65110f71bfff84bd201d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 30/71] fix: fourth-order derivatives read outside of grids
 narrower than 5 cells

---
 render/geom/deriv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index b254f14..96e9122 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -26,12 +26,12 @@ func (g *GridLocation) Deriv(
 
 	if axis > 2 || axis < 0 {
 		log.Fatalf("Unrecognized axis %d", axis)
-	} else if g.Width[axis] < 3 {
-		log.Fatalf("Width of array must be at least 3 for a " +
-			"second-order derivative.")
 	} else if opt.Order != 2 && opt.Order != 4 {
 		log.Fatalf("Grid.Deriv() can only compute 2nd and 4th order " +
 			"derivatives, not %d order.", opt.Order)
+	} else if g.Width[axis] < opt.Order + 1 {
+		log.Fatalf("Width of array must be at least %d for a derivative " +
+			"of order %d.", opt.Order + 1, opt.Order)
 	}
 
 	lBounds := [3]int{0, 0, 0}
-- 
2.43.0


From c374897dc8346c425cc9556b392057eddc399ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 31/71] fix: Curl and Divergence overwrote the caller's options
 and the defaults

---
 render/geom/deriv.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/render/geom/deriv.go b/render/geom/deriv.go
index 96e9122..f6a8689 100644
--- a/render/geom/deriv.go
+++ b/render/geom/deriv.go
@@ -324,11 +324,9 @@ func (g *GridLocation) Curl(
 	op *DerivOptions,
 ) {
 	// We can't change and revert due to thread safety.
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 
 	g.Deriv(vecs[2], out[0], 1, op)
 	g.Deriv(vecs[0], out[1], 2, op)
@@ -344,11 +342,9 @@ func (g *GridLocation) Divergence(
 	vecs [3][]float32, out []float32,
 	op *DerivOptions,
 ) {
-	tmp := op
-	if tmp == nil {
-		tmp, op = DerivOptionsDefault, DerivOptionsDefault
-	}
-	*op = *tmp
+	if op == nil { op = DerivOptionsDefault }
+	tmp := *op
+	op = &tmp
 	g.Deriv(vecs[0], out, 0, op)
 	op.Op = Add
 	g.Deriv(vecs[1], out, 1, op)
-- 
2.43.0


From 5974fe950c2e10c02c59e8f111c234f866a167ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 32/71] fix: compressCoordsCheck only checked the x coordinate

---
 render/geom/tetra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 79412a5..65669f6 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -122,9 +122,9 @@ func compressCoordsCheck(
 
 	if newX >= countWidth || newX < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 {
+	} else if newY >= countWidth || newY < 0 {
 		return -1, false
-	} else if newX >= countWidth || newX < 0 { 
+	} else if newZ >= countWidth || newZ < 0 {
 		return -1, false
 	}	
 
-- 
2.43.0


From 60326e0ea290b5ed7e3755ef3fec84b4eca085a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:02 +0000
Subject: [PATCH 33/71] fix: Barycenter left out the fourth corner

---
 render/geom/tetra.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/geom/tetra.go b/render/geom/tetra.go
index 65669f6..0cecac8 100644
--- a/render/geom/tetra.go
+++ b/render/geom/tetra.go
@@ -453,7 +453,8 @@ func (t *Tetra) Barycenter() *Vec {
 	}
 
 	for i := 0; i < 3; i++ {
-		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] + t.Corners[2][i]) / 4.0
+		t.bary[i] = (t.Corners[0][i] + t.Corners[1][i] +
+			t.Corners[2][i] + t.Corners[3][i]) / 4.0
 	}
 
 	t.baryValid = true
-- 
2.43.0


From 57a5b09fdacc885fc16c88076fde90adf5cc7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 34/71] fix: cross products had the wrong sign

---
 render/geom/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/vec.go b/render/geom/vec.go
index 7ba4d3f..4b7cbc5 100644
--- a/render/geom/vec.go
+++ b/render/geom/vec.go
@@ -125,7 +125,7 @@ func (v1 *Vec) CrossSelf(v2 *Vec) *Vec {
 	return v1.CrossAt(v2, v1)
 }
 
-func (v2 *Vec) CrossAt(v1, out *Vec) *Vec {
+func (v1 *Vec) CrossAt(v2, out *Vec) *Vec {
 	out0 := v1[1]*v2[2] - v1[2]*v2[1]
 	out1 := v1[2]*v2[0] - v1[0]*v2[2]
 	out2 := v1[0]*v2[1] - v1[1]*v2[0]
-- 
2.43.0


From a836b697b6bff295de993b7ac372e73eb9bdfbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 35/71] fix: Intersect missed boxes separated by exactly one
 period

---
 render/geom/grid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/geom/grid.go b/render/geom/grid.go
index f8bf107..5ed0d24 100644
--- a/render/geom/grid.go
+++ b/render/geom/grid.go
@@ -146,7 +146,7 @@ func (cb1 *CellBounds) IntersectUnbounded(cb2 *CellBounds) bool {
 func bound(x, origin, width int) int {
 	diff := x - origin
 	if diff < 0 { return diff + width }
-	if diff > width { return diff - width }
+	if diff >= width { return diff - width }
 	return diff
 }
 
-- 
2.43.0


From c682ffa170328356ae78356f89bbe3bb25982b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 36/71] fix: velocity divergence used the x velocity in place
 of the y velocity

---
 render/density/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 595258c..5eec2df 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -354,7 +354,7 @@ func (buf *divergenceBuffer) FinalizedScalarBuffer() (vals []float32, ok bool) {
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		vecs[0][i] = float32(vec[0])/n
-		vecs[1][i] = float32(vec[0])/n
+		vecs[1][i] = float32(vec[1])/n
 		vecs[2][i] = float32(vec[2])/n
 	} 
 
-- 
2.43.0


From 9ed6a4ac99014e8d9f872fe5b632fa5118fc2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 37/71] fix: debug output crashed velocity grids with fewer
 than 30 cells

---
 render/density/buffer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/render/density/buffer.go b/render/density/buffer.go
index 5eec2df..d4b8a55 100644
--- a/render/density/buffer.go
+++ b/render/density/buffer.go
@@ -295,9 +295,6 @@ func (buf *velocityBuffer) FinalizedVectorBuffer() (xs, ys, zs []float32, ok boo
 	ys = make([]float32, len(buf.vecs))
 	zs = make([]float32, len(buf.vecs))
 	for i, vec := range buf.vecs {
-		if i % (len(buf.vecs) / 30) == 0 {
-			fmt.Println(i, buf.num[i], vec[0], vec[1], vec[2])
-		}
 		n := float32(buf.num[i])
 		if buf.num[i] == 0 { continue }
 		xs[i], ys[i], zs[i] = float32(vec[0])/n, float32(vec[1])/n, float32(vec[2])/n
-- 
2.43.0


From 69e452e83cb47666f67e0df32c7e019cf185a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 38/71] fix: Density could not be converted to a string

---
 render/density/quantity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/density/quantity.go b/render/density/quantity.go
index b17327e..7a201b7 100644
--- a/render/density/quantity.go
+++ b/render/density/quantity.go
@@ -15,7 +15,7 @@ const (
 )
 
 func (q Quantity) String() string {
-	if q <= 0 || q >= EndQuantity {
+	if q < 0 || q >= EndQuantity {
 		panic(fmt.Sprintf("Value %d out of range for Quantity type.", q))
 	}
 
-- 
2.43.0


From bb68e3c2f956c08c893d73e13d15cc485251ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 39/71] fix: the zeroth derivative returned xs instead of ys

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 31d4adc..4b5da39 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -34,7 +34,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	}
 
 	if order == 0 {
-		for i := range xs { out[i] = xs[i] }
+		for i := range xs { out[i] = ys[i] }
 	} else if order == 2 {
 		for i := 1; i < n - 1; i++ {
 			out[i] = (ys[i+1] - ys[i-1]) / (xs[i+1] - xs[i-1])
-- 
2.43.0


From 1dceb12508957a03eef6996f45ca5c551ed85254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 40/71] fix: fourth-order derivatives divided by the wrong
 interval

---
 math/calc/deriv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/calc/deriv.go b/math/calc/deriv.go
index 4b5da39..1075362 100644
--- a/math/calc/deriv.go
+++ b/math/calc/deriv.go
@@ -44,7 +44,7 @@ func Deriv(xs, ys []float64, order int, opts ...DerivOption) []float64 {
 	} else if order == 4 {
 		for i := 2; i < n - 2; i++ {
 			out[i] = (-ys[i+2] + 8*ys[i+1] - 8*ys[i-1] + ys[i-2]) /
-				(3*(xs[i+2] - xs[i-1]))
+				(3*(xs[i+2] - xs[i-2]))
 		}
 
 		out[0] = ((-3*ys[4] + 16*ys[3] - 36*ys[2] + 48*ys[1] -
-- 
2.43.0


From fc3ef48ce81a58e77e3db069a7f630bccee2e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 41/71] fix: Ball bounds did not support the documented
 ProjectionAxis option

---
 render/io/config.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/render/io/config.go b/render/io/config.go
index 39f8354..f74c377 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -345,6 +345,7 @@ type BallConfig struct {
 
 	// Optional
 	RadiusMultiplier float64
+	ProjectionAxis string
 	Name string
 }
 
@@ -372,6 +373,19 @@ func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
 		)
 	}
 
+	tmp := ball.ProjectionAxis
+	ball.ProjectionAxis = strings.Trim(strings.ToUpper(ball.ProjectionAxis), " ")
+	if ball.ProjectionAxis != "" &&
+		ball.ProjectionAxis != "X" &&
+		ball.ProjectionAxis != "Y" &&
+		ball.ProjectionAxis != "Z" {
+
+		return fmt.Errorf(
+			"ProjectionAxis of Ball '%s' must be one of [X | Y | Z]. '%s' is " +
+				"not recognized.", name, tmp,
+		)
+	}
+
 	ball.Name = name
 	if ball.RadiusMultiplier == 0 {
 		ball.RadiusMultiplier = 1
@@ -410,6 +424,7 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 	}
 
 	box.Name = ball.Name
+	box.ProjectionAxis = ball.ProjectionAxis
 
 	return box
 }
-- 
2.43.0


From 6ded844ed95ecc1c014c4fa0c151b65b6b4fbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 42/71] fix: Balls with negative radii were accepted

---
 render/io/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/io/config.go b/render/io/config.go
index f74c377..405247e 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -350,7 +350,7 @@ type BallConfig struct {
 }
 
 func (ball *BallConfig) CheckInit(name string, totalWidth float64) error {
-	if ball.Radius == 0 {
+	if ball.Radius <= 0 {
 		return fmt.Errorf(
 			"Need to specify a positive radius for Ball '%s'.", name,
 		)
-- 
2.43.0


From 5f8a30e289412eb5f1d20d07031c63d8b9fda7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 43/71] fix: Balls touching the box edge were placed outside of
 the domain

---
 render/io/config.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index 405247e..fbf5063 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -405,19 +405,19 @@ func (ball *BallConfig) Box(totalWidth float64) *BoxConfig {
 
 	box.XWidth, box.YWidth, box.ZWidth = 2 * rad, 2 * rad, 2 * rad
 
-	if ball.X > rad {
+	if ball.X >= rad {
 		box.X = ball.X - rad
 	} else {
 		box.X = ball.X - rad + totalWidth
 	}
 
-	if ball.Y > rad {
+	if ball.Y >= rad {
 		box.Y = ball.Y - rad
 	} else {
 		box.Y = ball.Y - rad + totalWidth
 	}
 
-	if ball.Z > rad {
+	if ball.Z >= rad {
 		box.Z = ball.Z - rad
 	} else {
 		box.Z = ball.Z - rad + totalWidth
-- 
2.43.0


From b9364b2568b854774b59ff2cfb6817ed4b215f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 44/71] fix: Render accepted subsample lengths which are not
 powers of two

---
 render/io/config.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/io/config.go b/render/io/config.go
index fbf5063..690e898 100644
--- a/render/io/config.go
+++ b/render/io/config.go
@@ -322,7 +322,7 @@ func (con *RenderConfig) ValidParticles() bool {
 	return con.Particles > 0
 }
 func (con *RenderConfig) ValidSubsampleLength() bool {
-	return con.SubsampleLength > 0
+	return validSubsampleLength(con.SubsampleLength)
 }
 func (con *RenderConfig) ValidImagePixels() bool {
 	return con.ImagePixels > 0
@@ -589,7 +589,11 @@ func (con *TetraHistConfig) ValidHistScale() bool {
 }
 
 func (con *TetraHistConfig) ValidSubsampleLength() bool {
-	s := con.SubsampleLength
+	return validSubsampleLength(con.SubsampleLength)
+}
+
+// validSubsampleLength returns true if s is a power of two.
+func validSubsampleLength(s int) bool {
 	if s <= 0 { return false }
 
 	for {
-- 
2.43.0


From 056e6292adb5ead40b120b5e09ffe6104488a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 45/71] fix: Sobol recurrence XORs direction number j-l, not
 always j-1

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 9d6cad6..6e951c0 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -58,7 +58,7 @@ func (seq *SobolSequence) Init() {
 			i ^= (i >> deg)
 
 			for l := deg - 1; l >= 1; l-- {
-				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - 1) + k] }
+				if 1 & ipp == 1 { i ^= seq.iv[MaxDim * (j - l) + k] }
 				ipp >>= 1
 			}
 
-- 
2.43.0


From 165306e87b4f42da0c9d13ce33f107a3ddd55e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 46/71] fix: SobolSequence.Init restarts an already initialized
 sequence

---
 math/rand/sobol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 6e951c0..20a9b66 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -39,8 +39,8 @@ func NewSobolSequence() *SobolSequence {
 // See Press et al. 2007.
 func (seq *SobolSequence) Init() {
 	for i := range seq.ix { seq.ix[i] = 0 }
-	if seq.isInit { return }
 	seq.seqNum = 0
+	if seq.isInit { return }
 
 	seq.iv = initIv
 	seq.ip = initIp
-- 
2.43.0


From 00602679da138088e18f489f21dd3282162a5286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 47/71] fix: Sobol direction number is chosen by the count
 before it is advanced

---
 math/rand/sobol.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/math/rand/sobol.go b/math/rand/sobol.go
index 20a9b66..26ab460 100644
--- a/math/rand/sobol.go
+++ b/math/rand/sobol.go
@@ -81,18 +81,17 @@ func (seq *SobolSequence) NextAt(target []float64) {
 	dim := uint32(len(target))
 	if dim > MaxDim {
 		log.Fatalf("Target dim %d is larger than MaxDim %d.\n", dim, MaxDim)
-	} else if seq.seqNum >= maxSeqNum {
+	} else if seq.seqNum >= maxSeqNum - 1 {
 		log.Fatalf("Exceeded maximum seq num of %d for MaxBit %d.\n",
-			maxSeqNum, MaxBit,
+			maxSeqNum - 1, MaxBit,
 		)
 	}
 
-	seq.seqNum++
-
 	zeroIdx := uint32(0)
 	for zeroIdx = 0; zeroIdx < MaxBit; zeroIdx++ {
 		if (seq.seqNum & (1<<zeroIdx)) == 0 { break }
 	}
+	seq.seqNum++
 
 	im := zeroIdx * MaxDim
 	for k := uint32(0); k < dim; k++ {
-- 
2.43.0


From 62e2cef2714d2d998b4d68890e060fb7c347428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 48/71] fix: Median of an odd number of values is the middle
 one

---
 math/sort/median.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index c6c0d45..61bc984 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -18,7 +18,7 @@ func Median(xs []float64, buf ...[]float64) float64 {
 		panic("xs empty in call to Median(xs)")
 	}
 
-	return NthLargest(xs, len(xs) / 2, buf...)
+	return NthLargest(xs, (len(xs) + 1) / 2, buf...)
 }
 
 // Remember that this function is 1-indexed.
-- 
2.43.0


From cc000aed2e40beeada50385b8dfc5811e7d59929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 49/71] fix: Percentile counts up from the minimum

---
 math/sort/median.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/sort/median.go b/math/sort/median.go
index 61bc984..455b895 100644
--- a/math/sort/median.go
+++ b/math/sort/median.go
@@ -10,7 +10,8 @@ func Percentile(xs []float64, p float64, buf ...[]float64) float64 {
 	n := int(p * float64(len(xs)))
 	if n == len(xs) { n-- }
 
-	return NthLargest(xs, n, buf...)
+	// NthLargest is 1-indexed and counts down from the maximum.
+	return NthLargest(xs, len(xs) - n, buf...)
 }
 
 func Median(xs []float64, buf ...[]float64) float64 {
-- 
2.43.0


From 2f35a8657314196803a7e1d66bb15217287ed4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 50/71] fix: MultAt offsets output rows by the width of the
 output matrix

---
 math/mat/mat.go   | 4 ++--
 math/mat/mat32.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index fd1dcf3..998768c 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -64,9 +64,9 @@ func (m1 *Matrix) MultAt(m2, out *Matrix) *Matrix {
 
 	for i := range out.Vals { out.Vals[i] = 0 }
 	for i := 0; i < m1.Height; i++ {
-		off := i*m1.Width
+		off, outOff := i*m1.Width, i*m2.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := outOff + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 2532a08..3b76b3d 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -57,9 +57,9 @@ func (m1 *Matrix32) MultAt(m2, out *Matrix32) *Matrix32 {
 
 	for i := range out.Vals { out.Vals[i] = 0 }
 	for i := 0; i < m1.Height; i++ {
-		off := i*m1.Width
+		off, outOff := i*m1.Width, i*m2.Width
 		for j := 0; j < m2.Width; j++ {
-			outIdx := off + j
+			outIdx := outOff + j
 			for k := 0; k < m1.Width; k++ {
 				m1Idx := off + k
 				m2Idx := k*m2.Width + j
-- 
2.43.0


From f71af6e398628f236fb44e59e253cb095c5892ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 51/71] fix: SolveMatrix solves for b, not for the contents of
 x

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 998768c..4db8733 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -342,7 +342,7 @@ func (luf *LUFactors) SolveMatrix(b, x *Matrix) *Matrix {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 3b76b3d..252f699 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -246,7 +246,7 @@ func (luf *LUFactors32) SolveMatrix(b, x *Matrix32) *Matrix32 {
 
 	for j := 0; j < n; j++ {
 		for i := 0; i < n; i++ {
-			col[i] = xs[i*n + j]
+			col[i] = b.Vals[i*n + j]
 		}
 		luf.SolveVector(col, col)
 		for i := 0; i < n; i++ {
-- 
2.43.0


From 4f3e9c0331bca8c601a8d001da327d14060bd4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 52/71] fix: forwardSubst applies LU pivots as the sequence of
 row swaps they are

---
 math/mat/mat.go   | 4 +++-
 math/mat/mat32.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index 4db8733..dc02588 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -297,8 +297,10 @@ func (luf *LUFactors) SolveVector(bs, xs []float64) []float64 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst(n int, pivot []int, lu, bs, ys []float64) {
+	// The pivots are row swaps: apply them in the order they were made.
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := 0.0
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 252f699..38648c8 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -201,8 +201,10 @@ func (luf *LUFactors32) SolveVector(bs, xs []float32) []float32 {
 // Solves L * y = b for y.
 // y_i = (b_i - sum_j=0^i-1 (alpha_ij y_j)) / alpha_ij
 func forwardSubst32(n int, pivot []int, lu, bs, ys []float32) {
+	// The pivots are row swaps: apply them in the order they were made.
+	copy(ys, bs)
 	for i := 0; i < n; i++ {
-		ys[pivot[i]] = bs[i]
+		ys[i], ys[pivot[i]] = ys[pivot[i]], ys[i]
 	}
 	for i := 0; i < n; i++ {
 		sum := float32(0.0)
-- 
2.43.0


From 235803aa7dbe4d8d388fc36fd71553de1e42773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 53/71] fix: LU pivot search starts from the diagonal row of
 every column

---
 math/mat/mat.go   | 2 +-
 math/mat/mat32.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/mat/mat.go b/math/mat/mat.go
index dc02588..fd2011a 100644
--- a/math/mat/mat.go
+++ b/math/mat/mat.go
@@ -238,8 +238,8 @@ func (lu *LUFactors) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := 0.0
 		for i := k; i < n; i++ {
 			tmp := vv[i] * math.Abs(m.Vals[i*n + k])
diff --git a/math/mat/mat32.go b/math/mat/mat32.go
index 38648c8..d67d110 100644
--- a/math/mat/mat32.go
+++ b/math/mat/mat32.go
@@ -142,8 +142,8 @@ func (lu *LUFactors32) factorizeInPlace() {
 		vv[i] = 1 / big
 	}
 
-	var imax int
 	for k := 0; k < n; k++ {
+		imax := k
 		big := float32(0.0)
 		for i := k; i < n; i++ {
 			tmp := vv[i] * float32(math.Abs(float64(m.Vals[i*n + k])))
-- 
2.43.0


From 9a5a979dff204180a670ed74bad7bc4f37529853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 54/71] fix: searcher accepts points in decreasing sequences

---
 math/interpolate/search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/math/interpolate/search.go b/math/interpolate/search.go
index a417fe9..28f294f 100644
--- a/math/interpolate/search.go
+++ b/math/interpolate/search.go
@@ -33,7 +33,9 @@ func (s *searcher) unifInit(x0, dx float64, n int) {
 
 
 func (s *searcher) search(x float64) int {
-	if x > s.lim || x < s.x0 {
+	low, high := s.x0, s.lim
+	if !s.incr { low, high = high, low }
+	if x > high || x < low {
 		panic(fmt.Sprintf(
 			"Value %g out of range bounds [%g, %g]", x, s.x0, s.lim,
 		))
-- 
2.43.0


From 1773b49a33e6d854798d8b6422e90f4197356212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 55/71] fix: TriLinear.Eval looks z up in the z grid

---
 math/interpolate/linear_interpolators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/linear_interpolators.go b/math/interpolate/linear_interpolators.go
index 5b24db6..f059edd 100644
--- a/math/interpolate/linear_interpolators.go
+++ b/math/interpolate/linear_interpolators.go
@@ -282,7 +282,7 @@ func NewUniformTriLinear(
 func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	ix := tri.xs.search(x)
 	iy := tri.ys.search(y)
-	iz := tri.ys.search(z)
+	iz := tri.zs.search(z)
 
 	dix, diy, diz := 1, tri.nx, tri.nx*tri.ny
 	i := ix + iy*tri.nx + iz*tri.ny*tri.nx
@@ -298,7 +298,7 @@ func (tri *TriLinear) Eval(x, y, z float64) float64 {
 	
 	x1, x2 := tri.xs.val(ix), tri.xs.val(ix + 1)
 	y1, y2 := tri.ys.val(iy), tri.ys.val(iy + 1)
-	z1, z2 := tri.ys.val(iz), tri.ys.val(iz + 1)
+	z1, z2 := tri.zs.val(iz), tri.zs.val(iz + 1)
 	
 	xd := (x - x1) / (x2 - x1)
 	yd := (y - y1) / (y2 - y1)
-- 
2.43.0


From f9068ebe4ee26c4dea54c676bfc696c1576ef492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 56/71] fix: cubic interpolators cache a line only once it has
 been built

---
 math/interpolate/cubic_interpolators.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/math/interpolate/cubic_interpolators.go b/math/interpolate/cubic_interpolators.go
index 6a81d48..44b1acd 100644
--- a/math/interpolate/cubic_interpolators.go
+++ b/math/interpolate/cubic_interpolators.go
@@ -2,6 +2,7 @@ package interpolate
 
 import (
 	"fmt"
+	"math"
 )
 
 ////////////////////////////
@@ -87,12 +88,12 @@ func (bi *BiCubic) initSplines() {
 
 func (bi *BiCubic) Eval(x, y float64) float64 {
 	if y != bi.lastY {
-		bi.lastY = y
 		for i := range bi.xSplineVals {
 			bi.xSplineVals[i] = bi.ySplines[i].Eval(y)
 		}
 
 		bi.xSpline.Init(bi.xs, bi.xSplineVals)
+		bi.lastY = y
 	}
 
 	return bi.xSpline.Eval(x)
@@ -239,27 +240,27 @@ func (tri *TriCubic) initSplines() {
 func (tri *TriCubic) Eval(x, y, z float64) float64 {
 	if y != tri.lastY || z != tri.lastZ {
 		if z != tri.lastZ {
-			tri.lastZ = z
-			
 			tri.ySplineVals = make([][]float64, len(tri.xs))
 			for xi := range tri.xs {
 				tri.ySplineVals[xi] = make([]float64, len(tri.ys))
 				for yi := range tri.ys {
 					tri.ySplineVals[xi][yi] =
-						tri.zSplines[yi*tri.nx + xi].Eval(tri.lastZ)
+						tri.zSplines[yi*tri.nx + xi].Eval(z)
 				}
 				tri.ySplines[xi].Init(tri.ys, tri.ySplineVals[xi])
-			}			
+			}
+
+			// The x spline no longer belongs to (lastY, lastZ).
+			tri.lastZ, tri.lastY = z, math.NaN()
 		}
 
-		tri.lastY = y
-		
 		tri.xSplineVals = make([]float64, len(tri.xs))
 		for xi := range tri.xSplineVals {
-			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(tri.lastY)
+			tri.xSplineVals[xi] = tri.ySplines[xi].Eval(y)
 		}
-		
+
 		tri.xSpline.Init(tri.xs, tri.xSplineVals)
+		tri.lastY = y
 	}
 
 	return tri.xSpline.Eval(x)
-- 
2.43.0


From f1dcfb95dc92319eb8a2671cb4d27c4e168a6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 57/71] fix: Spline.Deriv and Integrate accept the end points
 of decreasing tables

---
 math/interpolate/spline.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 5f84666..1558bf5 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -109,7 +109,7 @@ func (sp *Spline) EvalAll(xs []float64, out ...[]float64) []float64 {
 //
 // x must be within the range of x values given to NewSpline().
 func (sp *Spline) Deriv(x float64, order int) float64 {
-	if x < sp.xs[0] == sp.incr || x > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inBounds(x) {
 		panic(fmt.Sprintf("Point %g given to Spline.Differentiate() " + 
 			"out of bounds.", x))
 	}
@@ -131,13 +131,20 @@ func (sp *Spline) Deriv(x float64, order int) float64 {
 	}
 }
 
+// inBounds returns true if x is within the range of the table.
+func (sp *Spline) inBounds(x float64) bool {
+	low, high := sp.xs[0], sp.xs[len(sp.xs)-1]
+	if !sp.incr { low, high = high, low }
+	return x >= low && x <= high
+}
+
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
 	if lo > hi { return -sp.Integrate(hi, lo) }
-	if lo < sp.xs[0] == sp.incr || lo > sp.xs[len(sp.xs)-1] == sp.incr {
+	if !sp.inBounds(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
-	} else if hi < sp.xs[0] == sp.incr || hi > sp.xs[len(sp.xs)-1] == sp.incr {
+	} else if !sp.inBounds(hi) {
 		panic(fmt.Sprintf("High bound %g in Spline.Integrate() " + 
 			"out of bounds.", hi))
 	}
-- 
2.43.0


From f32024bd51f5233a920eb3037f49fe24ab7e6be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 58/71] fix: Spline.Integrate measures each polynomial from its
 own knot

---
 math/interpolate/spline.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 1558bf5..8907ca5 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -140,7 +140,8 @@ func (sp *Spline) inBounds(x float64) bool {
 
 // Integrate integrates the spline from lo to hi.
 func (sp *Spline) Integrate(lo, hi float64) float64 {
-	if lo > hi { return -sp.Integrate(hi, lo) }
+	// Integrate in the order of the table.
+	if lo != hi && lo > hi == sp.incr { return -sp.Integrate(hi, lo) }
 	if !sp.inBounds(lo) {
 		panic(fmt.Sprintf("Low bound %g in Spline.Integrate() " + 
 			"out of bounds.", lo))
@@ -151,20 +152,24 @@ func (sp *Spline) Integrate(lo, hi float64) float64 {
 
 	iLo, iHi := sp.bsearch(lo), sp.bsearch(hi)
 	if iLo == iHi {
-		return integTerm(&sp.coeffs[iLo], lo, hi)
+		return integTerm(&sp.coeffs[iLo], sp.xs[iLo], lo, hi)
 	}
-	sum := integTerm(&sp.coeffs[iLo], lo, sp.xs[iLo+1]) +
-		integTerm(&sp.coeffs[iHi], sp.xs[iHi], hi)
+	sum := integTerm(&sp.coeffs[iLo], sp.xs[iLo], lo, sp.xs[iLo+1]) +
+		integTerm(&sp.coeffs[iHi], sp.xs[iHi], sp.xs[iHi], hi)
 
 	for i := iLo + 1; i < iHi; i++ {
-		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i + 1])
+		sum += integTerm(&sp.coeffs[i], sp.xs[i], sp.xs[i], sp.xs[i + 1])
 	}
 	return sum
 }
 
-func integTerm(coeff *splineCoeff, lo, hi float64) float64 {
+// integTerm integrates the polynomial of the knot at x from lo to hi.
+func integTerm(coeff *splineCoeff, x, lo, hi float64) float64 {
+	return coeff.antideriv(hi - x) - coeff.antideriv(lo - x)
+}
+
+func (coeff *splineCoeff) antideriv(dx float64) float64 {
 	a, b, c, d := coeff.a, coeff.b, coeff.c, coeff.d
-	dx := hi - lo
 	return a*dx*dx*dx*dx/4 + b*dx*dx*dx/3 + c*dx*dx/2 + d*dx
 }
 
-- 
2.43.0


From c5a98012e2ecfd8a7ad7afb22b75571241588440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 59/71] fix: splines through two points

---
 math/interpolate/spline.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/interpolate/spline.go b/math/interpolate/spline.go
index 8907ca5..c5791fb 100644
--- a/math/interpolate/spline.go
+++ b/math/interpolate/spline.go
@@ -275,6 +275,7 @@ func TriDiagAt(as, bs, cs, rs, out []float64) {
 		panic("Length of arugments to TriDiagAt are unequal.")
 	}
 
+	if len(out) == 0 { return }
 	tmp := make([]float64, len(as))
 
 	beta := bs[0]
-- 
2.43.0


From 78c72ad38497e92e650aef7541d70a89bf0559d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 60/71] fix: ConvolveAt wraps and reflects about the first
 point

---
 math/interpolate/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index f4ae577..e0e9cc3 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -94,8 +94,8 @@ func (k *Kernel) ConvolveAt(xs []float64, b BoundaryCondition, out []float64) {
 			idx := i + j - k.center
 			if idx < 0 {
 				switch b {
-				case Periodic: x = xs[(n - 1) + idx]
-				case Reflection: x = xs[-(idx - 1)]
+				case Periodic: x = xs[n + idx]
+				case Reflection: x = xs[-idx]
 				case ZeroPad: x = 0
 				case Extension: x = xs[0]
 				}
-- 
2.43.0


From dd1e362dd1f02e4131efc55966ac98a77cdea92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 61/71] fix: BoundaryCondition.Get agrees with ConvolveAt

---
 math/interpolate/filter.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/math/interpolate/filter.go b/math/interpolate/filter.go
index e0e9cc3..6cb3c53 100644
--- a/math/interpolate/filter.go
+++ b/math/interpolate/filter.go
@@ -33,8 +33,8 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	switch {
 	case i < 0:
 		switch b {
-		case Periodic: return xs[len(xs) - 1 + i]
-		case Reflection: return xs[-(i + 1)]
+		case Periodic: return xs[len(xs) + i]
+		case Reflection: return xs[-i]
 		case ZeroPad: return 0
 		case Extension: return xs[0]
 		}
@@ -42,7 +42,7 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 	case i >= len(xs):
 		switch b {
 		case Periodic: return xs[i - len(xs)]
-		case Reflection: return xs [(len(xs)-1) - (i - len(xs)-1)]
+		case Reflection: return xs[2*(len(xs)-1) - i]
 		case ZeroPad: return 0
 		case Extension: return xs[len(xs) - 1]
 		}
@@ -54,9 +54,9 @@ func (b BoundaryCondition) Get(xs []float64, i int) float64 {
 func (b BoundaryCondition) posGet(xs []float64, i int) float64 {
 	switch b {
 	case Periodic: return xs[i - len(xs)]
-	case Reflection: return xs[len(xs) - 1 - i]
+	case Reflection: return xs[2*(len(xs)-1) - i]
 	case ZeroPad: return 0
-	case Extension: return xs[0]
+	case Extension: return xs[len(xs) - 1]
 	}
 	panic("Impossible")
 }
@@ -64,9 +64,9 @@ func (b BoundaryCondition) posGet(xs []float64, i int) float64 {
 func (b BoundaryCondition) negGet(xs []float64, i int) float64 {
 	switch b {
 	case Periodic: return xs[i + len(xs)]
-	case Reflection: return xs [-1 - i]
+	case Reflection: return xs[-i]
 	case ZeroPad: return 0
-	case Extension: return xs[len(xs) - 1]
+	case Extension: return xs[0]
 	}
 	panic("Impossible")
 }
-- 
2.43.0


From 8cb49f8e3f9a68ead472eb5338688f58701a276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 62/71] fix: gtet.py names the cosmology fields in the order
 they are written

---
 python/gtet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/gtet.py b/python/gtet.py
index 46c59e0..1ab045d 100644
--- a/python/gtet.py
+++ b/python/gtet.py
@@ -25,6 +25,7 @@ class File(object):
         Header fields:
                   z - Redshift.
             omega_m - (rho_m/rho_c)(z=0).
+            omega_l - (rho_lambda/rho_c)(z=0).
                h100 - H0 / 100 (km/s/Mpx).
               count - Number of paritlces in the box.
         count_width - count^(1/3).
@@ -50,7 +51,7 @@ class File(object):
         position_bounds = struct.unpack("ffffff", fp.read(6*4))
         velocity_bounds = struct.unpack("ffffff", fp.read(6*4))
         
-        self.z, self.scale, self.omega_m, self.h100 = cosmo_info
+        self.z, self.omega_m, self.omega_l, self.h100 = cosmo_info
         (self.count, self.count_width,
          self.segment_width, self.grid_width, self.grid_count,
          self.file_idx, self.file_cells) = index_info
-- 
2.43.0


From 7dd3f3d360ca64e808083755c1cddb6b1ffe9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 63/71] fix: gotetra.py reads headers as bytes

---
 python/gotetra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gotetra.py b/python/gotetra.py
index 1e5ebc3..6771b76 100644
--- a/python/gotetra.py
+++ b/python/gotetra.py
@@ -66,7 +66,7 @@ def read_header(filename):
     """ read_header returns the header information at the top of a gotetra
     output file as a Header object.
     """
-    with open(filename, "r") as fp:
+    with open(filename, "rb") as fp:
         flag_s = fp.read(8)
         ver = _read_version(flag_s)
         sizes = Sizes(ver)
-- 
2.43.0


From 97dd9ffe90ff475c5bf6483c44860e723dcaa96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 64/71] fix: halo Grid wraps positions on the upper edge

---
 render/halo/grid.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/render/halo/grid.go b/render/halo/grid.go
index 5415716..d49a93f 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -41,17 +41,17 @@ func (g *Grid) Length(idx int) int {
 func (g *Grid) Insert(xs, ys, zs []float64) {
 	for i := range xs {
 		x, y, z := xs[i], ys[i], zs[i]
-		if x > g.Width {
+		if x >= g.Width {
 			x -= g.Width
 		} else if x < 0 {
 			x += g.Width
 		}
-		if y > g.Width {
+		if y >= g.Width {
 			y -= g.Width
 		} else if y < 0 {
 			y += g.Width
 		}
-		if z > g.Width {
+		if z >= g.Width {
 			z -= g.Width
 		} else if z < 0 {
 			z += g.Width
-- 
2.43.0


From ceb82789f4279c8cedaf2b90b1f9e7900206df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 65/71] fix: subhalo distances are periodic

---
 render/halo/finder.go |  3 ++-
 render/halo/grid.go   | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index ff98df4..13d6bb2 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -218,7 +218,8 @@ func (sf *SubhaloFinder) markSubhalos(
 	for _, j := range idxs {
 		if j <= ih { continue }
 		sx, sy, sz, sr := xs[j], ys[j], zs[j], rs[j]
-		dx, dy, dz, dr := hx - sx, hy - sy, hz - sz, hr + sr
+		dx, dy, dz := sf.g.dist(hx, sx), sf.g.dist(hy, sy), sf.g.dist(hz, sz)
+		dr := hr + sr
 		if dr*dr >= dx*dx + dy*dy + dz*dz {
 			sf.subhalos = append(sf.subhalos, j)
 		}
diff --git a/render/halo/grid.go b/render/halo/grid.go
index d49a93f..3612445 100644
--- a/render/halo/grid.go
+++ b/render/halo/grid.go
@@ -1,5 +1,9 @@
 package halo
 
+import (
+	"math"
+)
+
 const (
 	tail = -1
 )
@@ -66,6 +70,13 @@ func (g *Grid) Insert(xs, ys, zs []float64) {
 	}
 }
 
+// dist returns the distance between two coordinates on the periodic domain.
+func (g *Grid) dist(x1, x2 float64) float64 {
+	dx := math.Abs(x1 - x2)
+	if dx > g.Width / 2 { dx = g.Width - dx }
+	return dx
+}
+
 func (g *Grid) TotalCells() int {
 	return len(g.Heads)
 }
-- 
2.43.0


From 7bbe2fa819a6c451d0c33ff1f4953f6913378013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 66/71] fix: FindSubhalos visits each cell at most once

---
 render/halo/finder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/render/halo/finder.go b/render/halo/finder.go
index 13d6bb2..8a3f040 100644
--- a/render/halo/finder.go
+++ b/render/halo/finder.go
@@ -83,6 +83,10 @@ func (sf *SubhaloFinder) FindSubhalos(
 
 		pos[0], pos[1], pos[2] = xs[ih], ys[ih], zs[ih]
 		b.SphereBounds(pos, rh + maxSR, sf.g.cw, sf.g.Width)
+		// A box which wraps around onto itself visits every cell once.
+		for k := range b.Span {
+			if b.Span[k] > c { b.Span[k] = c }
+		}
 		vol += float64(b.Span[0] * b.Span[1] * b.Span[2])
 
 		for dz := 0; dz < b.Span[2]; dz++ {
-- 
2.43.0


From 68f55574e0625a8f9d54ff234c62e35030ffb75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 67/71] fix: binaryColGetter closes its file and rejects valNum

---
 render/halo/io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/halo/io.go b/render/halo/io.go
index 3765abe..45a481f 100644
--- a/render/halo/io.go
+++ b/render/halo/io.go
@@ -269,6 +269,7 @@ func asciiColGetter(file string, colIdxs []int) ([][]float64, error) {
 func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	f, err := os.Open(file)
 	if err != nil { return nil, err }
+	defer f.Close()
 
 	n := int64(0)
 	err = binary.Read(f, binary.LittleEndian, &n)
@@ -278,7 +279,7 @@ func binaryColGetter(file string, colIdxs []int) ([][]float64, error) {
 	cols := make([][]float64, len(colIdxs))
 	for i := range cols { cols[i] = make([]float64, n) }
 	for i, colIdx := range colIdxs {
-		if colIdx > int(valNum) { panic("Impossibly large colIdx.") }
+		if colIdx >= int(valNum) { panic("Impossibly large colIdx.") }
 		_, err = f.Seek(8 + jump * int64(colIdx), 0)
 		if err != nil { return nil, err }
 		err = binary.Read(f, binary.LittleEndian, cols[i])
-- 
2.43.0


From 3021ca0d927bfcee4361621bb775e20ad9ed8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 68/71] fix: read_halo.go passes ReadGadgetHeader its variant

---
 render/scripts/read_halo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/scripts/read_halo.go b/render/scripts/read_halo.go
index 60e46a8..29b8c91 100644
--- a/render/scripts/read_halo.go
+++ b/render/scripts/read_halo.go
@@ -99,7 +99,7 @@ func main() {
 
 	// Read catalog.
 
-	hd := io.ReadGadgetHeader(catName, binary.LittleEndian)
+	hd := io.ReadGadgetHeader(catName, binary.LittleEndian, "LGadget-2")
 	cosmo := &hd.Cosmo
 
 	// Read Table.
-- 
2.43.0


From 039dabcdf73786f4c510f851dbb47feabd850912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 69/71] fix: read_halo.go converts printed radii with the
 requested definition

---
 render/scripts/read_halo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/scripts/read_halo.go b/render/scripts/read_halo.go
index 29b8c91..0c94265 100644
--- a/render/scripts/read_halo.go
+++ b/render/scripts/read_halo.go
@@ -125,12 +125,12 @@ func main() {
 	if rPrintType.RockstarMass() {
 		mPrints := cols[5]
 		rPrints = make([]float64, len(mPrints))
-		rType.Radius(cosmo, mPrints, rPrints)
+		rPrintType.Radius(cosmo, mPrints, rPrints)
 	} else {
 		rPrints = cols[5]
 		mPrints = make([]float64, len(rPrints))
 		for i := range rPrints { rPrints[i] /= 1000 } // kpc -> Mpc
-		rType.Mass(cosmo, rPrints, mPrints)
+		rPrintType.Mass(cosmo, rPrints, mPrints)
 	}
 
 	sort.Sort(sort.Reverse(&Halos{ ids, xs, ys, zs, m200ms, r200ms, rPrints }))
-- 
2.43.0


From 125d9a40897c6bb90e0a396fd0e24859c67048fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 70/71] fix: stop when a histogram cannot be written

---
 render/main/main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/render/main/main.go b/render/main/main.go
index 7375810..af596a4 100644
--- a/render/main/main.go
+++ b/render/main/main.go
@@ -857,13 +857,20 @@ func tetraHistMain(con *io.TetraHistConfig, bounds []string) {
 		defer f.Close()
 		if err != nil { log.Fatalf("Could not create %s.", out) }
 		
-		fmt.Fprintf(f, "# %s histogram ranging from %g to %g " +
+		mustPrintf(f, "# %s histogram ranging from %g to %g " +
 			"# with %d bins (%s scaled).\n", con.Quantity, con.HistMin,
 			con.HistMax, con.HistBins, strings.ToLower(con.HistScale))
-		fmt.Fprintf(f, "# Column 0 - bin centers.\n")
-		fmt.Fprintf(f, "# Column 1 - bin counts.\n")
+		mustPrintf(f, "# Column 0 - bin centers.\n")
+		mustPrintf(f, "# Column 1 - bin counts.\n")
 		for j := range box.Counts {
-			fmt.Fprintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
+			mustPrintf(f, "%8.4g %d\n", box.Centers[j], box.Counts[j])
 		}
 	}	
 }
+
+// mustPrintf writes formatted text to f and exits if the write fails.
+func mustPrintf(f *os.File, format string, args ...interface{}) {
+	if _, err := fmt.Fprintf(f, format, args...); err != nil {
+		log.Fatal(err.Error())
+	}
+}
-- 
2.43.0


From b618c3f88f34ba569eaa9c43c71f61b7e144accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 71/71] fix: stop when a profile cannot be written and close
 the files

---
 render/scripts/profile.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/render/scripts/profile.go b/render/scripts/profile.go
index 02cad5d..578a0f5 100644
--- a/render/scripts/profile.go
+++ b/render/scripts/profile.go
@@ -72,9 +72,10 @@ func main() {
 func printData(fname string, vecs [][3]float64, rProfs, rhoProfs [][]float64) {
 	f, err := os.Create(fname)
 	if err != nil { log.Fatal(err.Error()) }
-	fmt.Fprintln(f, "# The first three rows are unit vector components.")
+	defer f.Close()
+	mustPrintf(f, "%s\n", "# The first three rows are unit vector components.")
 	printVecs(f, vecs)
-	fmt.Fprintln(f, "# The rest are individual profiles.")
+	mustPrintf(f, "%s\n", "# The rest are individual profiles.")
 	printProfiles(f, rProfs, rhoProfs)
 }
 
@@ -100,12 +101,19 @@ func lineProfiles(
 }
 
 
+// mustPrintf writes formatted text to f and exits if the write fails.
+func mustPrintf(f goio.Writer, format string, args ...interface{}) {
+	if _, err := fmt.Fprintf(f, format, args...); err != nil {
+		log.Fatal(err.Error())
+	}
+}
+
 func printVecs(f goio.Writer, vecs [][3]float64) {
 	for dim := 0; dim < 3; dim++ {
 		for _, vec := range vecs {
-			fmt.Fprintf(f, "%9.4g %9.4g ", vec[dim], math.NaN())
+			mustPrintf(f, "%9.4g %9.4g ", vec[dim], math.NaN())
 		}
-		fmt.Fprintln(f)
+		mustPrintf(f, "\n")
 	}
 }
 
@@ -118,9 +126,9 @@ func printProfiles(f goio.Writer, rProfs, rhoProfs [][]float64) {
 	for col := 0; col < minLen; col++ {
 		for profNum := range rProfs {
 			r, rho := rProfs[profNum][col], rhoProfs[profNum][col]
-			fmt.Fprintf(f, "%9.4g %9.4g ", r, rho)
+			mustPrintf(f, "%9.4g %9.4g ", r, rho)
 		}
-		fmt.Fprintln(f)
+		mustPrintf(f, "\n")
 	}
 }
 
-- 
2.43.0

