From 301d5f6486a47357fd59556c841026737a85e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:24 +0000
Subject: [PATCH 01/45] fix: keep the initial dictionary hash inside the hash
 table

---
 slide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slide.go b/slide.go
index dd65397..b18ecf5 100644
--- a/slide.go
+++ b/slide.go
@@ -262,7 +262,7 @@ func insertHash(token, pos uint) { /* associate position with token */
 }
 
 func initHash(pos uint) uint {
-	return uint((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])&uint16(hshsiz-1))
+	return uint(((((uint16(text[pos]) << 5) ^ uint16(text[pos+1])) << 5) ^ uint16(text[pos+2])) & uint16(hshsiz-1))
 }
 
 func nextHash(token, pos uint) uint {
-- 
2.43.0


From 16ee88165d879a0a5deebfe8d674cb3fb72b128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:25 +0000
Subject: [PATCH 02/45] fix: size the encoder text buffer for every method, not
 the first one used

---
 append.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/append.go b/append.go
index 56372c7..8b0016f 100644
--- a/append.go
+++ b/append.go
@@ -90,7 +90,7 @@ func encodeAlloc(method int) (int, error) {
 
 	hash = make([]Hash, hshsiz)
 	prevs = make([]uint, maxDicsiz)
-	text = make([]byte, txtsiz+1)
+	text = make([]byte, maxDicsiz*2+int(Maxmatch)+1)
 
 	return method, nil
 }
-- 
2.43.0


From 71726693950f208f24ba7aee52a493386e27229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:00 +0000
Subject: [PATCH 03/45] fix: select the lh1 coder for lh1 and give the dynamic
 tree its own escape code

---
 dhuf.go  | 11 ++++++-----
 slide.go | 12 +++---------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/dhuf.go b/dhuf.go
index 06069c2..7307255 100644
--- a/dhuf.go
+++ b/dhuf.go
@@ -15,6 +15,7 @@ var (
 	nn          int
 	nextcount   uint
 	nMax        uint
+	dynN1       int /* first extended code of the dynamic tree */
 	dicbit      uint16
 	maxmatch    uint16
 	decodeCount int
@@ -33,9 +34,9 @@ const (
 
 func (l *Lha) startCDyn( /* void */ ) {
 	var i, j, f int
-	n1 = 512
+	dynN1 = int(nMax) - 1
 	if nMax >= uint(256+maxmatch-uint16(threshold)+1) {
-		n1 = int(nMax) - 1
+		dynN1 = 512
 	}
 
 	for i = 0; i < treesizeC; i++ {
@@ -277,9 +278,9 @@ func (l *Lha) encodeCDyn(c uint) {
 	var bits uint
 	var p, d, cnt int
 
-	d = int(c) - n1
+	d = int(c) - dynN1
 	if d >= 0 {
-		c = uint(n1)
+		c = uint(dynN1)
 	}
 	bits = 0
 	cnt = int(bits)
@@ -334,7 +335,7 @@ func (l *Lha) decodeCDyn( /* void */ ) uint16 {
 	_ = l.fillbuf(byte(cnt))
 	c = ^c
 	updateC(c)
-	if c == n1 {
+	if c == dynN1 {
 		c += int(l.getbits(8))
 	}
 	return uint16(c)
diff --git a/slide.go b/slide.go
index b18ecf5..cb4f137 100644
--- a/slide.go
+++ b/slide.go
@@ -193,7 +193,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 }
 
 func (l *Lha) encodeStart(method int) {
-	switch method {
+	switch method - 1 {
 	case 0:
 		l.encodeStartFix()
 	case 1:
@@ -208,13 +208,11 @@ func (l *Lha) encodeStart(method int) {
 		l.encodeStartSt1()
 	case 6:
 		l.encodeStartSt1()
-	case 7:
-		l.encodeStartSt1()
 	}
 }
 
 func (l *Lha) encodeEnd(method int) {
-	switch method {
+	switch method - 1 {
 	case 0:
 		l.encodeEndDyn()
 	case 1:
@@ -229,13 +227,11 @@ func (l *Lha) encodeEnd(method int) {
 		l.encodeEndSt1()
 	case 6:
 		l.encodeEndSt1()
-	case 7:
-		l.encodeEndSt1()
 	}
 }
 
 func (l *Lha) encodeOuput(method int, code, pos uint16) {
-	switch method {
+	switch method - 1 {
 	case 0:
 		l.outputDyn(int(code), int(pos))
 	case 1:
@@ -250,8 +246,6 @@ func (l *Lha) encodeOuput(method int, code, pos uint16) {
 		l.outputSt1(code, pos)
 	case 6:
 		l.outputSt1(code, pos)
-	case 7:
-		l.outputSt1(code, pos)
 	}
 }
 
-- 
2.43.0


From 234590fed757ecded28b7f781933940105ba1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:22 +0000
Subject: [PATCH 04/45] fix: let the output position reach the 64 KiB
 dictionary size of lh7

---
 larc.go  | 4 ++--
 lha.go   | 2 +-
 pm.go    | 2 +-
 slide.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/larc.go b/larc.go
index ddbd739..bce6253 100644
--- a/larc.go
+++ b/larc.go
@@ -30,7 +30,7 @@ func (l *Lha) decodeCLzs( /*void*/ ) uint16 {
 /* lzs */
 
 func (l *Lha) decodePLzs( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic0)) & 0x7ff
 }
 
 /* ------------------------------------------------------------------------ */
@@ -78,7 +78,7 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
-	return (l.loc - uint16(l.matchpos) - uint16(magic5)) & 0xfff
+	return (uint16(l.loc) - uint16(l.matchpos) - uint16(magic5)) & 0xfff
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/lha.go b/lha.go
index a387124..80f2061 100644
--- a/lha.go
+++ b/lha.go
@@ -60,7 +60,7 @@ type Lha struct {
 	HeaderLevel                    int
 	CompressMethod                 int
 	mFlag, flagcnt, matchpos       int
-	loc                            uint16
+	loc                            uint
 	ExtractDirectory               string
 
 	ExcludeFiles         []string
diff --git a/pm.go b/pm.go
index 880211f..a9f9a46 100644
--- a/pm.go
+++ b/pm.go
@@ -61,7 +61,7 @@ var (
 
 func (l *Lha) decodeCPm2() uint16 {
 	/* various admin: */
-	for lastupdate != uint(l.loc) {
+	for lastupdate != l.loc {
 		histUpdate(dtext[lastupdate])
 		lastupdate = (lastupdate + 1) & dicsiz1
 	}
diff --git a/slide.go b/slide.go
index cb4f137..4750638 100644
--- a/slide.go
+++ b/slide.go
@@ -165,7 +165,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 
 			match.len = int(c - adjust)
 			match.off = uint(l.decodeMethodP(inter.method)) + 1
-			matchpos = (uint(l.loc) - match.off) & dicsiz1
+			matchpos = (l.loc - match.off) & dicsiz1
 			if l.DumpLzss {
 				fmt.Printf("%d <%d %d>\n",
 					decodeCount, match.len, decodeCount-int(match.off))
-- 
2.43.0


From f62a0e12ad834698b6f845b1c48733bb7d06fc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:23 +0000
Subject: [PATCH 05/45] fix: decode lh3 blocks with the right tree size, branch
 bit and fresh block state

---
 shuf.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/shuf.go b/shuf.go
index e70a516..1d18ad7 100644
--- a/shuf.go
+++ b/shuf.go
@@ -22,6 +22,7 @@ func (l *Lha) decodeStartSt0( /*void*/ ) {
 	_ = l.initGetbits()
 	initCodeCache()
 	np = 1 << (lzhuff3Dicbit - 6)
+	blocksize = 0
 }
 
 /* ------------------------------------------------------------------------ */
@@ -134,7 +135,8 @@ var blocksize uint16 = 0
 
 func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 	var (
-		i, j int
+		i int16
+		j int
 	)
 	if blocksize == 0 { /* read block head */
 		blocksize = l.getbits(byte(bufbits)) /* read block blocksize */
@@ -144,7 +146,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(Np), &ptLen, 8, &ptTable)
+		_ = makeTable(int16(np), &ptLen, 8, &ptTable)
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
@@ -152,7 +154,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(cLen[j])
 	} else {
 		_ = l.fillbuf(12)
-		i = int(l.bitbuf)
+		i = int16(l.bitbuf)
 		for {
 			if i < 0 {
 				j = int(right[j])
@@ -176,7 +178,8 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 /* lh1, 3 */
 func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 	var (
-		i, j int
+		i int16
+		j int
 	)
 
 	j = int(ptTable[l.peekbits(8)])
@@ -184,7 +187,7 @@ func (l *Lha) decodePSt0( /*void*/ ) uint16 {
 		_ = l.fillbuf(ptLen[j])
 	} else {
 		_ = l.fillbuf(8)
-		i = int(l.bitbuf)
+		i = int16(l.bitbuf)
 		for {
 			if i < 0 {
 				j = int(right[j])
-- 
2.43.0


From ef96cb51e00d341b72e1165e32fd6a85cd6ce772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 06/45] fix: follow one branch per bit in the pm2 trees

---
 pmtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pmtree.go b/pmtree.go
index 9c76653..557d88f 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -93,11 +93,11 @@ func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
 	for i < 0x80 {
-		i = int((*t).rightarr[i])
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
+		} else {
+			i = int((*t).rightarr[i])
 		}
-
 	}
 	return i & 0x7F
 }
-- 
2.43.0


From 5c52d6e1e98bea33f89f5ad59cbf3ce5b582c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 07/45] fix: stop a zero run in the code length table at the
 end of the table

---
 huf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huf.go b/huf.go
index 9b0bcd1..3bfb141 100644
--- a/huf.go
+++ b/huf.go
@@ -434,7 +434,7 @@ func (l *Lha) readCLen( /* void */ ) {
 					}
 				}
 				c--
-				for c >= 0 {
+				for c >= 0 && i < int16(Nc) {
 					cLen[i] = 0
 					i++
 					c--
-- 
2.43.0


From 502c8f1213218fa3f3be06171b58826a3b0f6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:56 +0000
Subject: [PATCH 08/45] fix: remember codec read, write and table failures
 instead of dropping them

---
 append.go  | 23 +++++++++++++++++++----
 bitio.go   | 15 ++++++++++++---
 crcio.go   |  2 +-
 extract.go |  5 ++++-
 huf.go     |  4 ++--
 lha.go     |  1 +
 pm.go      |  3 +--
 pmtree.go  |  6 +++---
 shuf.go    |  6 +++---
 slide.go   | 14 +++++++++-----
 10 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/append.go b/append.go
index 8b0016f..a9a61cc 100644
--- a/append.go
+++ b/append.go
@@ -29,7 +29,11 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 	if method < 0 {
 		method = l.CompressMethod
 		if method > 0 {
-			method, _ = encodeAlloc(method)
+			var err error
+			method, err = encodeAlloc(method)
+			if err != nil {
+				return 0, err
+			}
 		}
 	}
 
@@ -40,17 +44,28 @@ func (l *Lha) EncodeLzhuf(infp *io.Reader, outfp *io.Writer, size int, original_
 		inter.outfile = *outfp
 		inter.original = size
 		startIndicator(string(name), size, []byte("Freezing"), 1<<dicbit)
-		crc, _ = l.encode(inter)
+		var err error
+		crc, err = l.encode(inter)
+		if err != nil {
+			return crc, err
+		}
 		*packed_size_var = inter.packed
 		*original_size_var = inter.original
 	} else {
-		*original_size_var, _ = copyfile(infp, outfp, size, 0, &crc)
+		var err error
+		*original_size_var, err = copyfile(infp, outfp, size, 0, &crc)
+		if err != nil {
+			return crc, err
+		}
 		*packed_size_var = *original_size_var
 	}
 	copy(hdr_method, "-lh -")
 	hdr_method[3] = byte(inter.method) + '0'
 
-	indice := ((*packed_size_var * 100) / *original_size_var)
+	indice := 0
+	if *original_size_var != 0 {
+		indice = ((*packed_size_var * 100) / *original_size_var)
+	}
 	finishIndicator2(string(name), "Frozen", &indice)
 	return crc, nil
 }
diff --git a/bitio.go b/bitio.go
index caa3a96..86f0b2e 100644
--- a/bitio.go
+++ b/bitio.go
@@ -2,6 +2,7 @@ package lha
 
 import (
 	"fmt"
+	"io"
 	"os"
 )
 
@@ -15,6 +16,14 @@ import (
 /*              Separated from crcio.c          2002.10.26  Koji Arai       */
 /* ------------------------------------------------------------------------ */
 
+/* fail remembers the first failure of the running encode or decode */
+func (l *Lha) fail(err error) error {
+	if l.codecErr == nil {
+		l.codecErr = err
+	}
+	return err
+}
+
 func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits */
 
 	for n > l.bitcount {
@@ -23,9 +32,9 @@ func (l *Lha) fillbuf(n byte) error { /* Shift bitbuf n bits left, read n bits *
 		if l.compsize != 0 {
 			l.compsize--
 			c := make([]byte, 1)
-			_, err := l.infile.Read(c)
+			_, err := io.ReadFull(l.infile, c)
 			if err != nil {
-				return fmt.Errorf("cannot read stream")
+				return l.fail(fmt.Errorf("cannot read stream: %w", err))
 			}
 			l.subbitbuf = c[0]
 		} else {
@@ -62,7 +71,7 @@ func (l *Lha) putcode(n byte, x uint16) error { /* Write leftmost n bits of x */
 			b = append(b, l.subbitbuf)
 			_, err := l.outfile.Write(b)
 			if err != nil {
-				return fmt.Errorf("write error in bitio.c(putcode)")
+				return l.fail(fmt.Errorf("write error in bitio.c(putcode): %w", err))
 			}
 			l.compsize++
 		} else {
diff --git a/crcio.go b/crcio.go
index 134446d..c610ea7 100644
--- a/crcio.go
+++ b/crcio.go
@@ -106,7 +106,7 @@ func (l *Lha) fwriteCrc(crcp *uint, p []byte, n int, fp *io.Writer) error {
 	}
 	_, err := (*fp).Write(p[:n])
 	if err != nil {
-		return fmt.Errorf("file write error :%v", err.Error())
+		return l.fail(fmt.Errorf("file write error :%v", err.Error()))
 	}
 	return nil
 }
diff --git a/extract.go b/extract.go
index 1cf021a..1f89940 100644
--- a/extract.go
+++ b/extract.go
@@ -83,7 +83,10 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 			fmt.Printf("no use slide\n")
 		}
 
-		*read_sizep, _ = copyfile(&infp, &outfp, original_size, 2, &crc)
+		var err error
+		l.codecErr = nil
+		*read_sizep, err = copyfile(&infp, &outfp, original_size, 2, &crc)
+		_ = l.fail(err)
 	} else {
 		mode := "Melting "
 		if VerifyMode {
diff --git a/huf.go b/huf.go
index 3bfb141..f539cc1 100644
--- a/huf.go
+++ b/huf.go
@@ -385,7 +385,7 @@ func (l *Lha) readPtLen(nn, nbit, i_special int16) {
 			ptLen[i] = 0
 			i++
 		}
-		_ = makeTable(nn, &ptLen, 8, &ptTable)
+		_ = l.fail(makeTable(nn, &ptLen, 8, &ptTable))
 	}
 }
 
@@ -448,7 +448,7 @@ func (l *Lha) readCLen( /* void */ ) {
 			cLen[i] = 0
 			i++
 		}
-		_ = makeTable(int16(Nc), &cLen, 12, &cTable)
+		_ = l.fail(makeTable(int16(Nc), &cLen, 12, &cTable))
 	}
 }
 
diff --git a/lha.go b/lha.go
index 80f2061..d8b5192 100644
--- a/lha.go
+++ b/lha.go
@@ -35,6 +35,7 @@ type Lha struct {
 	infile                         io.Reader
 	outfile                        io.Writer
 	unpackable                     bool
+	codecErr                       error /* first failure of the running encode/decode */
 	compsize                       int
 	origsize                       int
 	bitbuf                         uint16
diff --git a/pm.go b/pm.go
index a9f9a46..885d987 100644
--- a/pm.go
+++ b/pm.go
@@ -2,7 +2,6 @@ package lha
 
 import (
 	"fmt"
-	"os"
 )
 
 /***********************************************************
@@ -105,7 +104,7 @@ func (l *Lha) decodeCPm2() uint16 {
 	}
 	gettree1 = byte(l.tree1Get()) /* value preserved for decode_p */
 	if gettree1 >= 29 {
-		fmt.Fprintf(os.Stderr, "Bad table")
+		_ = l.fail(fmt.Errorf("bad table"))
 		return 0
 	}
 
diff --git a/pmtree.go b/pmtree.go
index 557d88f..e025ad7 100644
--- a/pmtree.go
+++ b/pmtree.go
@@ -39,7 +39,7 @@ func (l *Lha) maketree1() {
 				table1[i] = 0
 			}
 		}
-		_ = treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:])
+		_ = l.fail(treeRebuild(&tree1, tree1bound, mindepth, 31, table1[:]))
 	}
 }
 
@@ -81,7 +81,7 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 		treeSetsingle(&tree2, byte(index))
 	} else {
 		if count > 1 {
-			_ = treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:])
+			_ = l.fail(treeRebuild(&tree2, byte(tree2bound), 1, 7, table2[:]))
 		}
 	}
 	// Note: count == 0 is possible!
@@ -92,7 +92,7 @@ func (l *Lha) maketree2(tree2bound int) { /* in use: 5 <= tree2bound <= 8 */
 func (l *Lha) treeGet(t *tree) int {
 	var i int
 	i = int((*t).root)
-	for i < 0x80 {
+	for i < 0x80 && l.codecErr == nil {
 		if l.getbits(1) == 0 {
 			i = int((*t).leftarr[i])
 		} else {
diff --git a/shuf.go b/shuf.go
index 1d18ad7..90dcbfb 100644
--- a/shuf.go
+++ b/shuf.go
@@ -92,7 +92,7 @@ func (l *Lha) readTreeC( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
-	_ = makeTable(int16(n1), &cLen, 12, &cTable)
+	_ = l.fail(makeTable(int16(n1), &cLen, 12, &cTable))
 }
 
 /* ------------------------------------------------------------------------ */
@@ -126,7 +126,7 @@ func (l *Lha) decodeStartFix( /*void*/ ) {
 	np = 1 << (lzhuff1Dicbit - 6)
 	l.startCDyn()
 	l.readyMade(0)
-	_ = makeTable(int16(np), &ptLen, 8, &ptTable)
+	_ = l.fail(makeTable(int16(np), &ptLen, 8, &ptTable))
 }
 
 /* ------------------------------------------------------------------------ */
@@ -146,7 +146,7 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 		} else {
 			l.readyMade(1)
 		}
-		_ = makeTable(int16(np), &ptLen, 8, &ptTable)
+		_ = l.fail(makeTable(int16(np), &ptLen, 8, &ptTable))
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
diff --git a/slide.go b/slide.go
index 4750638..2982660 100644
--- a/slide.go
+++ b/slide.go
@@ -3,7 +3,6 @@ package lha
 import (
 	"fmt"
 	"io"
-	"os"
 	"strconv"
 )
 
@@ -113,6 +112,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	dicbit = uint16(inter.dicbit)
 	l.origsize = inter.original
 	l.compsize = inter.packed
+	l.codecErr = nil
 
 	initializeCrc(&crc)
 	dicsiz = int(1) << dicbit
@@ -141,7 +141,7 @@ func (l *Lha) decode(inter *interfacing) uint {
 	}
 	decodeCount = 0
 	l.loc = 0
-	for decodeCount < l.origsize {
+	for decodeCount < l.origsize && l.codecErr == nil {
 		c = uint(l.decodeMethodC(inter.method))
 		if c < 256 {
 			if l.DumpLzss {
@@ -186,6 +186,9 @@ func (l *Lha) decode(inter *interfacing) uint {
 	if l.loc != 0 {
 		_ = l.fwriteCrc(&crc, dtext, int(l.loc), &l.outfile)
 	}
+	if decodeCount != l.origsize {
+		_ = l.fail(fmt.Errorf("decoded %d bytes, expected %d", decodeCount, l.origsize))
+	}
 	/* usually read size is interface->packed */
 	inter.readSize = inter.packed - l.compsize
 
@@ -270,7 +273,7 @@ func (l *Lha) updateDict(pos *uint, crc *uint) { /* update dictionary */
 
 	n, err := l.freadCrc(crc, &text, uint(txtsiz-dicsiz), dicsiz, l.infile)
 	if err != nil && io.EOF != err {
-		fmt.Fprintf(os.Stderr, "error while freadCrc : %v\n", err)
+		_ = l.fail(fmt.Errorf("error while freadCrc : %w", err))
 	}
 
 	l.remainder += uint(n)
@@ -393,6 +396,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	l.compsize = 0
 	count = 0
 	l.unpackable = false
+	l.codecErr = nil
 
 	initializeCrc(&crc)
 
@@ -422,7 +426,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	token = initHash(pos)
 	insertHash(token, pos) /* associate token and pos */
 
-	for l.remainder > 0 && !l.unpackable {
+	for l.remainder > 0 && !l.unpackable && l.codecErr == nil {
 		last = match
 
 		l.nextToken(&token, &pos, &crc)
@@ -457,7 +461,7 @@ func (l *Lha) encode(inter *interfacing) (uint, error) {
 	inter.packed = l.compsize
 	inter.original = count
 
-	return crc, nil
+	return crc, l.codecErr
 }
 
 func initSlide() {
-- 
2.43.0


From 737e6fa048b36e428650629882deebf0813559a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:57 +0000
Subject: [PATCH 09/45] fix: reject over- and under-subscribed code tables

---
 maketbl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maketbl.go b/maketbl.go
index e9d06bd..7800032 100644
--- a/maketbl.go
+++ b/maketbl.go
@@ -15,7 +15,7 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 		count             [17]uint16 /* count of bitlen */
 		weight            [17]uint16 /* 0x10000ul >> bitlen */
 		start             [17]uint16 /* first code of bitlen */
-		total             uint16
+		total             uint
 		i, l              uint
 		j, k, m, n, avail int
 		pIndex            int
@@ -43,10 +43,10 @@ func makeTable(nchar int16, bitlen *[]byte, tablebits int16, table *[]uint16) er
 	/* calculate first code */
 	total = 0
 	for i = 1; i <= 16; i++ {
-		start[i] = total
-		total += weight[i] * count[i]
+		start[i] = uint16(total)
+		total += uint(weight[i]) * uint(count[i])
 	}
-	if (total&0xffff) != 0 || tablebits > 16 { /* 16 for weight below */
+	if total != 1<<16 || tablebits > 16 { /* 16 for weight below */
 		return fmt.Errorf("make_table(): Bad table (case b)")
 	}
 
-- 
2.43.0


From 11952d037f06b47cfe597f3c2516e5da42a5a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:58 +0000
Subject: [PATCH 10/45] fix: account for the bytes an lz5 member consumes and
 stop at its end

---
 larc.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/larc.go b/larc.go
index bce6253..7b11fdd 100644
--- a/larc.go
+++ b/larc.go
@@ -44,29 +44,15 @@ func (l *Lha) decodeStartLzs( /*void*/ ) {
 /* lz5 */
 func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	var c int
-	b := make([]byte, 1)
 	if l.flagcnt == 0 {
 		l.flagcnt = 8
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		l.mFlag = int(b[0])
+		l.mFlag = l.readLz5Byte()
 	}
 	l.flagcnt--
-	_, _ = l.infile.Read(b)
-	c = int(b[0])
+	c = l.readLz5Byte()
 	if (l.mFlag & 1) == 0 {
 		l.matchpos = c
-		_, err := l.infile.Read(b)
-		if err != nil {
-			if err != io.ErrUnexpectedEOF {
-				return 0
-			}
-		}
-		c = int(b[0]) //@TODO add EOF handler
+		c = l.readLz5Byte()
 		l.matchpos += (c & 0xf0) << 4
 		c &= 0x0f
 		c += 0x100
@@ -75,6 +61,21 @@ func (l *Lha) decodeCLz5( /*void*/ ) uint16 {
 	return uint16(c)
 }
 
+/* readLz5Byte takes the next byte of the member, never one behind its end */
+func (l *Lha) readLz5Byte() int {
+	b := make([]byte, 1)
+	if l.compsize == 0 {
+		_ = l.fail(io.ErrUnexpectedEOF)
+		return 0
+	}
+	l.compsize--
+	if _, err := io.ReadFull(l.infile, b); err != nil {
+		_ = l.fail(err)
+		return 0
+	}
+	return int(b[0])
+}
+
 /* ------------------------------------------------------------------------ */
 /* lz5 */
 func (l *Lha) decodePLz5( /*void*/ ) uint16 {
@@ -104,7 +105,7 @@ func (l *Lha) decodeStartLz5( /*void*/ ) {
 	}
 
 	for j := 0; j < (128 - 18); j++ {
-		dtext[256*13+512+128+18] = ' '
+		dtext[256*13+512+128+18+j] = ' '
 	}
 
 	//memset(&dtext[256*13+512+18], 0, 128)
-- 
2.43.0


From 9baf5dd0cef262a0caedc06cbb1a3844f2cbab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:00 +0000
Subject: [PATCH 11/45] fix: copy exactly the requested bytes of a stored
 member and checksum them

---
 extract.go |  3 +++
 util.go    | 26 +++++++++-----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/extract.go b/extract.go
index 1f89940..f0f3a2e 100644
--- a/extract.go
+++ b/extract.go
@@ -85,6 +85,9 @@ func (l *Lha) DecodeLzhuf(infp io.Reader, outfp io.Writer, original_size int, pa
 
 		var err error
 		l.codecErr = nil
+		if VerifyMode {
+			outfp = io.Discard
+		}
 		*read_sizep, err = copyfile(&infp, &outfp, original_size, 2, &crc)
 		_ = l.fail(err)
 	} else {
diff --git a/util.go b/util.go
index 9c2ee72..2b9e60c 100644
--- a/util.go
+++ b/util.go
@@ -31,34 +31,26 @@ func copyfile(f1 *io.Reader, f2 *io.Writer, size, text_flg int, crcp *uint) (int
 	if !TextMode {
 		text_flg = 0
 	}
-	if *crcp != 0 {
-		initializeCrc(crcp)
-	}
+	initializeCrc(crcp)
 	if text_flg != 0 {
 		initCodeCache()
 	}
-	for size > 0 {
+	for rsize < size {
 		/* read */
 		var err error
-		xsize, err = (*f1).Read(buf)
-
-		if xsize == 0 {
-			break
-		}
-		if err != nil && err != io.EOF {
-			return 0, fmt.Errorf("file read error :%v", err.Error())
+		xsize, err = io.ReadFull(*f1, buf[:min(size-rsize, buffersize)])
+		if err != nil {
+			return rsize, fmt.Errorf("file read error :%v", err.Error())
 		}
 
 		/* write */
-		_, err = (*f2).Write(buf)
+		_, err = (*f2).Write(buf[:xsize])
 		if err != nil {
-			return 0, fmt.Errorf("file write error :%v", err.Error())
+			return rsize, fmt.Errorf("file write error :%v", err.Error())
 		}
 
 		/* calculate crc */
-		if *crcp != 0 {
-			*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
-		}
+		*crcp = calcCrc(*crcp, &buf, 0, uint(xsize))
 		rsize += xsize
 	}
 	return rsize, nil
@@ -70,13 +62,13 @@ func encodeStoredCrc(ifp *io.Reader, ofp *io.Writer, size int, original_size_var
 
 	save_quiet = Quiet
 	Quiet = true
+	defer func() { Quiet = save_quiet }()
 	size, err := copyfile(ifp, ofp, size, 1, &crc)
 	if err != nil {
 		return 0, err
 	}
 	*original_size_var = size
 	*write_size_var = size
-	Quiet = save_quiet
 	return crc, nil
 }
 
-- 
2.43.0


From 75b076a2aebbc126bbde225f3dec8cddb974d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 12/45] fix: convert MS-DOS time stamps in both directions

---
 header.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/header.go b/header.go
index 67517d3..8743eec 100644
--- a/header.go
+++ b/header.go
@@ -222,7 +222,9 @@ func subbits(n, off, len int) int {
 }
 
 func genericToUnixStamp(t int64) int64 {
-	return time.Unix(t, 0).Unix()
+	/* MS-DOS date and time, in local time */
+	return time.Date(int(t>>25&0x7f)+1980, time.Month(t>>21&0x0f), int(t>>16&0x1f),
+		int(t>>11&0x1f), int(t>>5&0x3f), int(t&0x1f)*2, 0, time.Local).Unix()
 }
 
 func setupGet(p *[]byte, index, size int) {
@@ -239,7 +241,7 @@ func setupPut(p *[]byte, index int) {
 
 func unixToGenericStamp(t int64) int {
 	tm := time.Unix(t, 0)
-	us := ((tm.Year() - 80) << 25) +
+	us := ((tm.Year() - 1980) << 25) +
 		(int(tm.Month()) << 21) +
 		(tm.Day() << 16) +
 		(tm.Hour() << 11) +
-- 
2.43.0


From abb527a0bf64c891a522a065922ff1e8ffd1c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:41 +0000
Subject: [PATCH 13/45] fix: start every header from a clean record

---
 header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/header.go b/header.go
index 8743eec..354abae 100644
--- a/header.go
+++ b/header.go
@@ -851,6 +851,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 
 func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	data := make([]byte, lzheaderStorage)
+	*l = *NewLzHeader() /* nothing of a previous member survives */
 
 	archiveKanjiCode := codeSJIS
 	systemKanjiCode := defaultSystemKanjiCode
-- 
2.43.0


From 38f55d4037b96a521063c902cbf41496f37798bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:42 +0000
Subject: [PATCH 14/45] fix: read headers completely even when the reader
 returns short counts

---
 header.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/header.go b/header.go
index 354abae..74b85ae 100644
--- a/header.go
+++ b/header.go
@@ -314,7 +314,7 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		if len(data) < l.HeaderSize {
 			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
 		}
-		nb, err := (*fp).Read(data[:l.HeaderSize])
+		nb, err := io.ReadFull(*fp, data[:l.HeaderSize])
 		if err != nil || nb == 0 {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
@@ -494,7 +494,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
@@ -613,7 +613,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	if remainSize <= 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+remainSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+remainSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -713,7 +713,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if remainSize < 0 {
 		return fmt.Errorf("invalid header size (LHarc file ?)"), false
 	}
-	n, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
+	n, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+(iLevel2HeaderSize-commonHeaderSize)])
 	if err != nil || n == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -800,7 +800,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
-	nb, err := (*fp).Read(data[commonHeaderSize : commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
+	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
@@ -863,7 +863,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 
 	setupGet(&data, 0, len(data))
 	buf := make([]byte, 1)
-	_, err := (*fp).Read(buf)
+	_, err := io.ReadFull(*fp, buf)
 
 	endMark = buf[0]
 	if err != nil || endMark == 0 {
@@ -871,7 +871,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 	}
 	data[0] = endMark
 
-	nb, err := (*fp).Read(data[1:commonHeaderSize])
+	nb, err := io.ReadFull(*fp, data[1:commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
 	}
-- 
2.43.0


From 12310b30849dc4e4433333fc0fc7966779db86f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 15/45] fix: count the two leading bytes in every level 0
 header size

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 74b85ae..8b5a7de 100644
--- a/header.go
+++ b/header.go
@@ -521,6 +521,7 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 
 	extendSize = headerSize + 2 - nameLength - 24
 
+	l.HeaderSize += 2
 	if extendSize < 0 {
 		if extendSize == -2 {
 			/* CRC field is not given */
@@ -559,7 +560,6 @@ func (l *LzHeader) getHeaderLevel0(fp *io.Reader, data []byte) (error, bool) {
 		skipBytes(extendSize)
 	}
 
-	l.HeaderSize += 2
 	return nil, true
 }
 
-- 
2.43.0


From 88a61e8977ab460a36e85be946e9899f777bc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:15 +0000
Subject: [PATCH 16/45] fix: walk extended headers by their own sizes and
 verify the header CRC

---
 header.go | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/header.go b/header.go
index 8b5a7de..e97aa28 100644
--- a/header.go
+++ b/header.go
@@ -299,22 +299,20 @@ func wintimeToUnixStamp() uint64 {
 
 func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint) (error, int) {
 	data := make([]byte, lzheaderStorage)
-	var nameLength int
-	dirname := make([]byte, FilenameLength)
-	var dirLength, i int
+	var dirname []byte
 	wholeSize := headerSize
 	var extType int
-	n := i + l.SizeFieldLength /* `ext-type' + `next-header size' */
+	n := 1 + l.SizeFieldLength /* `ext-type' + `next-header size' */
 	if l.HeaderLevel == 0 {
 		return nil, 0
 	}
 
-	for l.HeaderSize != 0 {
+	for headerSize != 0 {
 		setupGet(&data, 0, len(data))
-		if len(data) < l.HeaderSize {
-			return fmt.Errorf("header size (%d) too large", l.HeaderSize), 0
+		if headerSize < n || len(data) < headerSize {
+			return fmt.Errorf("invalid extended header size (%d)", headerSize), 0
 		}
-		nb, err := io.ReadFull(*fp, data[:l.HeaderSize])
+		nb, err := io.ReadFull(*fp, data[:headerSize])
 		if err != nil || nb == 0 {
 			return fmt.Errorf("invalid header (LHA file ?)"), 0
 		}
@@ -326,14 +324,13 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* clear buffer for CRC calculation. */
 			data[1] = 0
 			data[2] = 0
-			skipBytes(l.HeaderSize - n - 2)
 		case 1:
 			/* filename */
-			l.Name, nameLength = getBytes(l.HeaderSize-n, len(l.Name))
-			l.Name[nameLength-1] = 0
+			l.Name, _ = getBytes(headerSize-n, headerSize-n)
+			l.Name = append(l.Name, 0)
 		case 2:
-			dirname, dirLength = getBytes(headerSize-n, len(dirname))
-			dirname[dirLength-1] = 0
+			/* dirname */
+			dirname, _ = getBytes(headerSize-n, headerSize-n)
 		case 0x40:
 			/* MS-DOS attribute */
 			l.Attribute = byte(getWord())
@@ -357,13 +354,17 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			/* UNIX permission */
 			l.UnixMode = uint16(getWord())
 		case 0x51:
+			/* UNIX gid and uid */
+			l.UnixGid = uint16(getWord())
+			l.UnixUID = uint16(getWord())
+		case 0x52:
 			/* UNIX group name */
-			l.Group, i = getBytes(headerSize-n, len(l.Group))
-			l.Group[i-1] = 0
+			l.Group, _ = getBytes(headerSize-n, headerSize-n)
+			l.Group = append(l.Group, 0)
 		case 0x53:
 			/* UNIX user name */
-			l.User, i = getBytes(headerSize-n, len(l.User))
-			l.User[i-1] = 0
+			l.User, _ = getBytes(headerSize-n, headerSize-n)
+			l.User = append(l.User, 0)
 		case 0x54:
 			/* UNIX last modified time */
 			l.UnixLastModifiedStamp = int64(getLongword())
@@ -387,11 +388,11 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 			   0xfe: extended attribute - platform information(another opinion)
 			   0xff: extended attribute - permission, owner-id and timestamp
 			         (level 3 on UNLHA32) */
-			skipBytes(headerSize - n)
-		}
-		if *hcrc != 0 {
-			*hcrc = calcCrc(*hcrc, &data, uint(getPtr), uint(headerSize))
 		}
+		*hcrc = calcCrc(*hcrc, &data, 0, uint(headerSize))
+
+		/* the next-header size closes the extended header */
+		getPtr = headerSize - l.SizeFieldLength
 
 		if l.SizeFieldLength == 2 {
 			headerSize = getWord()
@@ -402,6 +403,10 @@ func (l *LzHeader) getExtendedHeader(fp *io.Reader, headerSize int, hcrc *uint)
 		}
 	}
 
+	if len(dirname) > 0 {
+		l.Name = append(dirname, l.Name...)
+	}
+
 	return nil, wholeSize
 }
 
@@ -600,7 +605,7 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	var extendSize int
 	var checksum int
 	var nameLength int
-	var i, dummy int
+	var dummy int
 
 	l.SizeFieldLength = 2 /* in bytes */
 	l.HeaderSize = int(getByte())
@@ -632,8 +637,8 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 
 	nameLength = int(getByte())
 
-	l.Name, i = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
-	l.Name[i-1] = 0
+	l.Name, _ = getBytes(nameLength, len(l.Name)) // sizeof(l.name)
+	l.Name = append(l.Name, 0)
 
 	/* defaults for other type */
 	l.UnixMode = uint16(UnixFileRegular) | uint16(UnixRwRwRw)
@@ -662,6 +667,9 @@ func (l *LzHeader) getHeaderLevel1(fp *io.Reader, data []byte) (err error, ok bo
 	/* the `packed_size' field contains the extended header size. */
 	/* the `headerSize' field does not. */
 	l.PackedSize -= extendSize
+	if l.PackedSize < 0 {
+		return fmt.Errorf("invalid packed size (%d)", l.PackedSize), false
+	}
 	l.HeaderSize += extendSize + 2
 
 	return nil, true
@@ -737,7 +745,7 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 
 	initializeCrc(&hcrc)
 
-	hcrc = calcCrc(hcrc, &data, 0, uint(n-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(iLevel2HeaderSize))
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
 		return err, false
@@ -748,10 +756,9 @@ func (l *LzHeader) getHeaderLevel2(fp *io.Reader, data []byte) (error, bool) {
 	if padding != 0 && padding != 1 {
 		return fmt.Errorf("invalid header size (padding: %d)", padding), false
 	}
-	padding--
-	for padding != 0 {
+	for ; padding > 0; padding-- {
 		buf := make([]byte, 1)
-		_, err := (*fp).Read(buf)
+		_, err := io.ReadFull(*fp, buf)
 		if err != nil {
 			return err, false
 		}
@@ -800,6 +807,9 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	var hcrc uint
 
 	l.SizeFieldLength = getWord()
+	if l.SizeFieldLength != 4 {
+		return fmt.Errorf("invalid size field length (%d)", l.SizeFieldLength), false
+	}
 	nb, err := io.ReadFull(*fp, data[commonHeaderSize:commonHeaderSize+iLevel3HeaderSize-commonHeaderSize])
 	if err != nil || nb == 0 {
 		return fmt.Errorf("invalid header (LHarc file ?)"), false
@@ -829,7 +839,7 @@ func (l *LzHeader) getHeaderLevel3(fp *io.Reader, data []byte) (error, bool) {
 	extendSize = getLongword()
 
 	initializeCrc(&hcrc)
-	hcrc = calcCrc(hcrc, &data, 0, uint(nb-len(data)))
+	hcrc = calcCrc(hcrc, &data, 0, uint(iLevel3HeaderSize))
 
 	err, extendSize = l.getExtendedHeader(fp, extendSize, &hcrc)
 	if err != nil || extendSize == -1 {
-- 
2.43.0


From 3d181bf34c9dec448ad4ae6ba387c309f833bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:45 +0000
Subject: [PATCH 17/45] fix: write level 1 and 2 headers with the field layout
 readers expect

---
 header.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/header.go b/header.go
index e97aa28..470c905 100644
--- a/header.go
+++ b/header.go
@@ -1,6 +1,7 @@
 package lha
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -1217,14 +1218,14 @@ func writeUnixInfo(l *LzHeader) {
 	putWord(int(l.UnixUID))
 
 	if l.Group[0] != 0 {
-		length := len(l.Group)
+		length := lengthOfStringInByte(l.Group)
 		putWord(length + 3) /* size */
 		putByte(0x52)       /* group name */
 		putBytes(l.Group[:], length)
 	}
 
 	if l.User[0] != 0 {
-		length := len(l.User)
+		length := lengthOfStringInByte(l.User)
 		putWord(length + 3) /* size */
 		putByte(0x53)       /* user name */
 		putBytes(l.User[:], length)
@@ -1297,16 +1298,16 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	var nameLength, dirLength, limit int
 	var basename, dirname []byte
 	var headerSize int
-	var extendHeaderTop []byte
+	var extendHeaderTop int
 	var extendHeaderSize int
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
 
-	if index != 0 {
-		basename = pathname[0:index]
+	if index != -1 {
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1343,9 +1344,8 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 	}
 
 	/* write extend header from here. */
-	extendHeaderTop = append(extendHeaderTop, data[putPtr+2:len(data)-(putPtr+2)]...)
-	//extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
-	headerSize = putPtr // - data - 2
+	extendHeaderTop = putPtr + 2 /* +2 for the field `next header size' */
+	headerSize = extendHeaderTop - 2
 
 	/* write filename and dirname */
 
@@ -1367,12 +1367,11 @@ func (l *LzHeader) writeHeaderLevel1(data []byte, pathname []byte) int {
 
 	putWord(0x0000) /* next header size */
 
-	extendHeaderSize = len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
+	extendHeaderSize = putPtr - extendHeaderTop
 	/* On level 1 header, the packed size field is contains the ext-header */
-	l.PackedSize += len(extendHeaderTop) - len(data[putPtr:putPtr+len(data)])
 	/* put `skip size' */
 	setupPut(&data, iPackedSize)
-	putLongWord(l.PackedSize)
+	putLongWord(l.PackedSize + extendHeaderSize)
 
 	data[iHeaderSize] = byte(headerSize)
 	data[iHeaderChecksum] = byte(calcSum(&data, iMethod, headerSize))
@@ -1396,14 +1395,14 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 	//extendHeaderTop := make([]byte, 0)
 	headercrcPtr := 0
 	var hcrc uint
-	index := strings.Index(string(pathname), string(lhaPathsep))
+	index := bytes.LastIndexByte(pathname, lhaPathsep)
 
 	if index != -1 {
-		basename = pathname[0:index]
 		index++
+		basename = pathname[index:]
 		nameLength = lengthOfStringInByte(basename)
 		dirname = pathname
-		dirLength = index - lengthOfStringInByte(dirname)
+		dirLength = index
 	} else {
 		basename = pathname
 		nameLength = lengthOfStringInByte(basename)
@@ -1446,8 +1445,8 @@ func (l *LzHeader) writeHeaderLevel2(data []byte, pathname []byte) int {
 
 	/* write filename and dirname */
 	/* must have this header, even if the nameLength is 0. */
-	putWord(nameLength) /* size */
-	//putByte(0x01)           /* filename */
+	putWord(nameLength + 3) /* size */
+	putByte(0x01)           /* filename */
 	putBytes(basename, nameLength)
 
 	if dirLength > 0 {
-- 
2.43.0


From 1bb04a0de0fc28cf92e29b697ed2f5fffa06214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:47 +0000
Subject: [PATCH 18/45] fix: translate the 0xff path separator

---
 header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/header.go b/header.go
index 470c905..36c416d 100644
--- a/header.go
+++ b/header.go
@@ -1000,7 +1000,7 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 		}
 	}
 	for i = 0; i < len; i++ {
-		index := strings.Index(fromDelim, string((name)[i]))
+		index := strings.IndexByte(fromDelim, (name)[i])
 		if index != -1 {
 			//s := len(fromDelim)
 			(name)[i] = toDelim[index] //name[i] = to_delim[ptr - from_delim];
-- 
2.43.0


From a401d9d0fa8fef45c6f65ba1579b59e63238b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:13 +0000
Subject: [PATCH 19/45] fix: record file types and symbolic link targets as
 readers expect them

---
 header.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/header.go b/header.go
index 36c416d..93d06c7 100644
--- a/header.go
+++ b/header.go
@@ -106,21 +106,19 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 	// but maybe you want to log warnings
 	hdr.UnixUID = uint16(os.Geteuid())
 	hdr.UnixGid = uint16(os.Getgid())
-	hdr.UnixMode = uint16(info.Mode().Perm()) + 33000
+	hdr.UnixMode = uint16(info.Mode().Perm()) | uint16(UnixFileRegular)
 
 	if vStat.IsDir() {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
-		if name[len(name)-1] != '/' {
-			name += "/"
-		}
-		hdr.UnixMode += 40000
+		hdr.UnixMode = uint16(info.Mode().Perm()) | uint16(UnixFileDirectory)
 	}
 	if vStat.Mode()&os.ModeSymlink != 0 {
 		copy(hdr.Method, []byte(LzhdirsMethod))
 		hdr.Attribute = genericDirectoryAttribute
 		hdr.OriginalSize = 0
+		hdr.UnixMode = uint16(UnixFileSymlink) | 0777
 		realname, err := os.Readlink(name)
 		if err == nil {
 			copy(hdr.Realname, []byte(realname))
@@ -968,7 +966,7 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 
 	l.Name = convertFilename(l.Name, len(l.Name), 1, archiveKanjiCode, systemKanjiCode, archiveDelim, systemDelim, filenameCase)
 
-	if l.UnixMode&uint16(UnixFileSymlink) == uint16(UnixFileSymlink) {
+	if l.UnixMode&uint16(UnixFileTypemask) == uint16(UnixFileSymlink) {
 
 		/* split symbolic link */
 		p := strings.Index(string(l.Name[:]), "|")
@@ -976,7 +974,8 @@ func (l *LzHeader) GetHeader(fp *io.Reader) (error, bool) {
 		if p != -1 {
 			/* l.name is symbolic link name */
 			/* l.realname is real name */
-			copy(l.Realname[:], l.Name[p:len(l.Name)-1])
+			l.Realname = append([]byte(nil), l.Name[p+1:]...)
+			l.Name = append(l.Name[:p:p], 0)
 			/* ok */
 		} else {
 			return fmt.Errorf("unknown symlink name \"%s\"", l.Name), false
@@ -1162,15 +1161,14 @@ func WriteHeader(fp *io.Writer, hdr *LzHeader) error {
 		archiveDelim = "\\"
 	}
 
-	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
-		p := strings.LastIndex(string(hdr.Name), "|")
-
-		if p == -1 {
-			return fmt.Errorf("symlink name \"%s\" contains '|' char. change it into '_'", hdr.Name)
+	if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
+		if bytes.IndexByte(hdr.Name, '|') != -1 {
+			return fmt.Errorf("symlink name \"%s\" contains '|' char", hdr.Name)
 		}
-		pathname = append(pathname, hdr.Name...)
+		pathname = append(pathname, hdr.Name[:lengthOfStringInByte(hdr.Name)]...)
 		pathname = append(pathname, '|')
-		pathname = append(pathname, hdr.Realname...)
+		pathname = append(pathname, hdr.Realname[:lengthOfStringInByte(hdr.Realname)]...)
+		pathname = append(pathname, 0)
 	} else {
 		pathname = append(pathname, hdr.Name...)
 		//	copy(pathname, hdr.Name)
-- 
2.43.0


From 81f9280fa219a1f1bf947fe09b050fdb925899fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:14 +0000
Subject: [PATCH 20/45] fix: skip exactly the unread part of a member and
 report a failed skip

---
 lha.go   |  2 +-
 lhext.go | 36 +++++++++++++-----------------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/lha.go b/lha.go
index d8b5192..bbd88fd 100644
--- a/lha.go
+++ b/lha.go
@@ -124,7 +124,7 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err == nil {
+			if err := skipToNextpos(&or, pos, h.PackedSize, 0); err != nil {
 				return headers, fmt.Errorf("cannot seek to next header position from \"%s\"", h.Name)
 			}
 		}
diff --git a/lhext.go b/lhext.go
index 97ac92d..2941511 100644
--- a/lhext.go
+++ b/lhext.go
@@ -942,7 +942,6 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
-	var i int
 
 	var packedSizeTotal int
 	var originalSizeTotal int
@@ -977,9 +976,9 @@ func CommandList(archiveFilepath string, l *Lha) error {
 			originalSizeTotal += hdr.OriginalSize
 		}
 
-		i = hdr.PackedSize
-		v := make([]byte, i)
-		_, _ = afp.Read(v)
+		if err = skipToNextpos(&afp, 0, hdr.PackedSize, 0); err != nil {
+			break
+		}
 	}
 
 	/* close archive file */
@@ -1096,8 +1095,8 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return outputData, fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1154,8 +1153,8 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1214,8 +1213,8 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 				}
 			}
 		} else {
-			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err == nil {
-				fmt.Fprintf(os.Stdout, "Cannot seek to next header position from \"%s\"", hdr.Name)
+			if err := skipToNextpos(&afp, pos, hdr.PackedSize, 0); err != nil {
+				return fmt.Errorf("cannot seek to next header position from \"%s\"", hdr.Name)
 			}
 		}
 	}
@@ -1262,20 +1261,11 @@ func (l *Lha) adjustDirinfo() {
 }
 
 func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
-	if pos != -1 {
-		b := make([]byte, pos+off)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
-	} else {
-		b := make([]byte, off-readSize)
-		_, err := (*fp).Read(b)
-		if err != nil {
-			return err
-		}
+	if readSize > off {
+		return fmt.Errorf("read %d bytes of a %d bytes member", readSize, off)
 	}
-	return nil
+	_, err := io.CopyN(io.Discard, *fp, int64(off-readSize))
+	return err
 }
 
 func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
-- 
2.43.0


From 32dfbec297a3698e0958c0c463fff111f922ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:37 +0000
Subject: [PATCH 21/45] fix: report broken headers, finish every extraction and
 close the archive on every path

---
 lha.go   |  9 +++++----
 lhext.go | 28 +++++++++++++---------------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/lha.go b/lha.go
index bbd88fd..17d22dc 100644
--- a/lha.go
+++ b/lha.go
@@ -87,9 +87,10 @@ func NewLha(archivename string) *Lha {
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	var pos int
 	// verify mode here, no extraction
+	saveVerify := VerifyMode
 	VerifyMode = true
 	defer func() {
-		VerifyMode = false
+		VerifyMode = saveVerify
 	}()
 	MakeCrcTable()
 	headers = make([]*LzHeader, 0)
@@ -102,10 +103,10 @@ func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	for {
 		h := NewLzHeader()
 		err, hasHeader := h.GetHeader(&or)
-		if !hasHeader {
-			break
+		if err != nil && err != io.EOF {
+			return headers, err
 		}
-		if err != nil {
+		if !hasHeader {
 			break
 		}
 		headers = append(headers, h)
diff --git a/lhext.go b/lhext.go
index 2941511..e6b37c5 100644
--- a/lhext.go
+++ b/lhext.go
@@ -955,6 +955,7 @@ func CommandList(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	/* print header message */
@@ -981,14 +982,14 @@ func CommandList(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* print tailer message */
 	if !Quiet {
 		listTailer(listFiles, packedSizeTotal, originalSizeTotal, l)
 	}
 
+	if err == io.EOF {
+		return nil
+	}
 	return err
 }
 
@@ -1061,6 +1062,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	if err != nil {
 		return outputData, fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1077,7 +1079,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 			return outputData, err
 		}
 		if !hasHeader {
-			return outputData, nil
+			break
 		}
 		pos = 0
 
@@ -1101,9 +1103,6 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1120,6 +1119,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1136,7 +1136,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		pos = 0
 
@@ -1159,9 +1159,6 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1181,6 +1178,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	if err != nil {
 		return fmt.Errorf("cannot open archive file \"%s\"", l.archiveName)
 	}
+	defer f.Close()
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
@@ -1197,7 +1195,7 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		if !hasHeader {
-			return nil
+			break
 		}
 		pos = 0
 		if l.needFile(string(hdr.Name[:])) {
@@ -1219,9 +1217,6 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	/* close archive file */
-	f.Close()
-
 	/* adjust directory information */
 	l.adjustDirinfo()
 
@@ -1265,6 +1260,9 @@ func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
 		return fmt.Errorf("read %d bytes of a %d bytes member", readSize, off)
 	}
 	_, err := io.CopyN(io.Discard, *fp, int64(off-readSize))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 	return err
 }
 
-- 
2.43.0


From 7ed5af130207e1218ae5a7f1949f6af2fe620693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:17 +0000
Subject: [PATCH 22/45] fix: honour the answer to the overwrite question and
 never block at end of input

---
 lhext.go | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/lhext.go b/lhext.go
index e6b37c5..7c92b96 100644
--- a/lhext.go
+++ b/lhext.go
@@ -83,11 +83,14 @@ func inquire(msg string, name string, selective string) int {
 
 	for {
 		fmt.Fprintf(os.Stdout, "%s %s ", name, msg)
-		response, _ := reader.ReadString('\n')
+		response, err := reader.ReadString('\n')
+		if err != nil {
+			response = "\n" /* no answer */
+		}
 
-		for i := 0; i <= len(selective); i++ {
-			if response[0] == selective[0] {
-				return i - len(selective)
+		for i := 0; i < len(selective); i++ {
+			if response[0] == selective[i] {
+				return i
 			}
 		}
 	}
@@ -112,24 +115,21 @@ func inquireExtract(name string, l *Lha) (bool, error) {
 	}
 
 	if l.Noexec {
-		return false, fmt.Errorf("EXTRACT %s but file is exist", name)
+		fmt.Printf("EXTRACT %s but file is exist\n", name)
+		return false, nil
 	} else {
 		if !l.Force {
 
 			switch inquire("OverWrite ?(Yes/[No]/All/Skip)", name, "YyNnAaSs\n") {
-			case 0:
-			case 1: /* Y/y */
-
-			case 2:
-			case 3: /* N/n */
-			case 8: /* Return */
-				return false, fmt.Errorf("skip no response")
-			case 4:
-			case 5: /* A/a */
+			case 0, 1: /* Y/y */
+
+			case 2, 3, /* N/n */
+				8: /* Return */
+				return false, nil
+			case 4, 5: /* A/a */
 				l.Force = true
 
-			case 6:
-			case 7: /* S/s */
+			case 6, 7: /* S/s */
 				l.skipFlg = true
 
 			}
@@ -1517,18 +1517,18 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		} else {
 			if !l.skipFlg {
 
-				upFlag, _ = inquireExtract(string(name[:]), l)
-				if !upFlag && !l.Force {
+				upFlag, err = inquireExtract(string(name[:]), l)
+				if err != nil {
+					return readSize, err
+				}
+				if !upFlag {
 					return readSize, nil
 				}
 			}
 
 			if l.skipFlg {
 				_, err := os.Lstat(string(name[:]))
-				if err != nil && os.IsExist(err) {
-					return 0, err
-				}
-				if !l.Force {
+				if err == nil && !l.Force {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "%s : Skipped...\n", string(name[:]))
 					}
@@ -1572,8 +1572,11 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
 					var lcode int
 					if !l.skipFlg {
-						upFlag, _ = inquireExtract(string(name[:]), l)
-						if !upFlag && !l.Force {
+						upFlag, err = inquireExtract(string(name[:]), l)
+						if err != nil {
+							return readSize, err
+						}
+						if !upFlag {
 							return readSize, nil
 						}
 					}
-- 
2.43.0


From 2e1d11ac93633ca768caf0d45f699d814a2e63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 23/45] fix: extract every member under its base name inside
 the extraction directory

---
 lhext.go | 148 ++++++++++++++++++-------------------------------------
 1 file changed, 48 insertions(+), 100 deletions(-)

diff --git a/lhext.go b/lhext.go
index 7c92b96..368ea26 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1234,14 +1234,14 @@ func adjustInfo(name string, hdr *LzHeader) {
 
 	if hdr.ExtendType == ExtendUnix || hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
 
-		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileTypemask) {
+		if (hdr.UnixMode & uint16(UnixFileTypemask)) != uint16(UnixFileSymlink) {
 			_ = os.Chmod(name, os.FileMode(hdr.UnixMode))
 		}
 
 		uid := hdr.UnixUID
 		gid := hdr.UnixGid
 
-		_ = os.Chown(name, int(uid), int(gid))
+		_ = os.Lchown(name, int(uid), int(gid))
 
 	}
 
@@ -1268,43 +1268,30 @@ func skipToNextpos(fp *io.Reader, pos, off, readSize int) error {
 
 func makeNameWithPathcheck(name string, namesz int, q string, l *Lha) (bool, []byte, error) {
 
-	var offset int
+	name = ""
 	if len(l.ExtractDirectory) > 0 {
 		name = l.ExtractDirectory + "/"
-		offset += len(name)
 	}
-	var p int
-	p = strings.Index(q, "/")
-	for p != -1 {
-		name += q[p:]
-		offset += len(q) - p
-
-		_, err := os.Lstat(name)
-		if err != nil {
-			return false, []byte(name), err
-		}
-		_, err = filepath.EvalSymlinks(name)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "this not a symlink [%s] : %v\n ", name, err)
+	for p := strings.Index(q, "/"); p != -1; p = strings.Index(q, "/") {
+		name += q[:p]
+		q = q[p+1:]
+		st, err := os.Lstat(name)
+		if err == nil && st.Mode()&os.ModeSymlink != 0 {
 			return false, []byte(name), nil
 		}
-		p = strings.Index(q[p:], "/")
-	}
-	last := namesz - offset
-	if offset == 0 {
-		last = len(q) - 1
+		name += "/"
 	}
-	name = q[offset:last]
+	name += q
 	return true, []byte(name), nil
 }
 
 func makeParentPath(name string) (bool, error) {
 	st, err := os.Lstat(name)
-	if err != nil {
-		return false, err
-	}
-	if st.IsDir() {
-		return true, nil
+	if err == nil {
+		if st.IsDir() {
+			return true, nil
+		}
+		return false, fmt.Errorf("\"%s\" already exists (not a directory)", name)
 	}
 	err = os.MkdirAll(name, 0777)
 	if err != nil {
@@ -1314,6 +1301,16 @@ func makeParentPath(name string) (bool, error) {
 }
 
 func openWithMakePath(name string) (io.Writer, error) {
+	/* never write through a symbolic link or into a device */
+	st, err := os.Lstat(name)
+	if err == nil && !st.Mode().IsRegular() {
+		return nil, fmt.Errorf("\"%s\" already exists (not a file)", name)
+	}
+	if err != nil {
+		if err = os.MkdirAll(filepath.Dir(name), 0777); err != nil {
+			return nil, err
+		}
+	}
 	f, err := os.Create(name)
 	if err != nil {
 		return nil, fmt.Errorf("cannot extract a file \"%s\"", name)
@@ -1323,43 +1320,23 @@ func openWithMakePath(name string) (io.Writer, error) {
 }
 
 func (l *Lha) addDirinfo(name string, hdr *LzHeader) {
-	var p, tmp, top *LzHeaderList
-
-	(*p) = LzHeaderList{}
 	if string((*hdr).Method[:]) != LzhdirsMethod {
 		return
 	}
-	(*p).Hdr = &LzHeader{}
-	(*p).Hdr.Name = (*hdr).Name
-	top.Next = l.dirinfo
-	for tmp = top; tmp.Next != nil; tmp = tmp.Next {
-		if string((*p).Hdr.Name) == string((*tmp).Next.Hdr.Name) {
-			(*p).Next = (*tmp).Next
-			(*tmp).Next = p
-			break
-		}
-	}
-
-	if (*tmp).Next == nil {
-		(*p).Next = nil
-		(*tmp).Next = p
-	}
-	l.dirinfo = (*top).Next
+	p := *hdr
+	p.Name = []byte(name)
+	l.dirinfo = &LzHeaderList{Next: l.dirinfo, Hdr: &p}
 }
 
-func symlinkWithMakePath(realname string, name string) int {
-	var lCode int
-
+func symlinkWithMakePath(realname string, name string) error {
 	err := os.Symlink(realname, name)
 	if err != nil {
-		_, _ = makeParentPath(name)
-		err = os.Symlink(realname, name)
-		if err != nil {
-			lCode = 1
+		if err = os.MkdirAll(filepath.Dir(name), 0777); err != nil {
+			return err
 		}
+		err = os.Symlink(realname, name)
 	}
-
-	return lCode
+	return err
 }
 
 func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, error) {
@@ -1419,45 +1396,18 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	var method int
 	var saveQuiet, saveVerbose, upFlag bool
 	var q = hdr.Name
-	var c byte
 	var readSize int
 
-	p := strings.LastIndex(string(hdr.Name[:]), "/")
-	if p == -1 {
-		p = 0
+	/* members are extracted under their base name only */
+	member := string(hdr.Name[:lengthOfStringInByte(hdr.Name)])
+	if method := string(hdr.Method[:]); method == LzhdirsMethod {
+		member = strings.TrimRight(member, "/")
 	}
-	if l.IgnoreDirectory {
-		p++
-	} else {
-
-		if isDirectoryTraversal(string(hdr.Name[p:])) {
-			return 0, fmt.Errorf("possible directory traversal hack attempt in %s", hdr.Name[p:])
-		}
-
-		if hdr.Name[p] == '/' {
-			for hdr.Name[p] == '/' {
-				p++
-			}
-
-			/*
-			 * if OSK then strip device name
-			 */
-			if hdr.ExtendType == ExtendOs68k || hdr.ExtendType == ExtendXosk {
-				for {
-					c = hdr.Name[p]
-					p++
-					if p >= len(hdr.Name) || c == '/' {
-						break
-					}
-				}
-				if c != 0 || hdr.Name[p] != 0 {
-					hdr.Name[p] = '.' /* if device name only */
-				}
-			}
-		}
-
+	member = member[strings.LastIndex(member, "/")+1:]
+	if member == "" || member == "." || isDirectoryTraversal(member) {
+		return 0, fmt.Errorf("possible directory traversal hack attempt in %s", q)
 	}
-	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), string(hdr.Name[p:]), l)
+	ok, name, err := makeNameWithPathcheck(string(name[:]), len(name), member, l)
 	if err != nil || !ok {
 		return 0, fmt.Errorf("possible symlink traversal hack attempt in %s", q)
 	}
@@ -1515,7 +1465,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			Quiet = saveQuiet
 			l.Verbose = saveVerbose
 		} else {
-			if !l.skipFlg {
+			if !l.skipFlg || l.Force {
 
 				upFlag, err = inquireExtract(string(name[:]), l)
 				if err != nil {
@@ -1570,8 +1520,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				}
 				/* NAME has trailing SLASH '/', (^_^) */
 				if (hdr.UnixMode & uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) {
-					var lcode int
-					if !l.skipFlg {
+					if !l.skipFlg || l.Force {
 						upFlag, err = inquireExtract(string(name[:]), l)
 						if err != nil {
 							return readSize, err
@@ -1591,11 +1540,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 						}
 					}
 
-					lcode = symlinkWithMakePath(string(hdr.Realname[:]), string(name[:]))
-					if lcode < 0 {
-						if !Quiet {
-							fmt.Fprintf(os.Stderr, "Can't make Symbolic Link \"%s\" -> \"%s\"", name, hdr.Realname)
-						}
+					realname := string(hdr.Realname[:lengthOfStringInByte(hdr.Realname)])
+					_ = os.Remove(string(name[:])) /* agreed above */
+					if err = symlinkWithMakePath(realname, string(name[:])); err != nil {
+						return readSize, fmt.Errorf("can't make symbolic link \"%s\" -> \"%s\": %w", name, realname, err)
 					}
 					if !Quiet {
 						fmt.Printf("Symbolic Link %s -> %s", name, hdr.Realname)
@@ -1603,7 +1551,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				} else { /* make directory */
 					ok, err := makeParentPath(string(name[:]))
 					if err != nil || !ok {
-						return readSize, nil
+						return readSize, fmt.Errorf("cannot make directory \"%s\": %w", name, err)
 					}
 					/* save directory information */
 					l.addDirinfo(string(name[:]), hdr)
-- 
2.43.0


From 7ab4dd4319fe99cabf5f7811356950eec558fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:08 +0000
Subject: [PATCH 24/45] fix: check the CRC of files written to disk and report
 every extraction failure

---
 lhext.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/lhext.go b/lhext.go
index 368ea26..2d76837 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1378,10 +1378,15 @@ func (l *Lha) extractOneStream(afp *io.Reader, hdr *LzHeader) (int, []byte, erro
 			method,
 			&readSize))
 
+		if l.codecErr != nil {
+			return 0, outputData.Bytes(), fmt.Errorf("cannot extract \"%s\": %w", hdr.Name, l.codecErr)
+		}
 		if hdr.HasCrc && crc != hdr.Crc {
 			return 0, outputData.Bytes(), fmt.Errorf("CRC error: \"%s\"", name)
 		}
-		b.Flush()
+		if err := b.Flush(); err != nil {
+			return 0, outputData.Bytes(), err
+		}
 		return readSize, outputData.Bytes(), nil
 	} else {
 		return 0, outputData.Bytes(), fmt.Errorf("cannot not stream directory content")
@@ -1488,21 +1493,25 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			if l.Noexec {
 				return readSize, nil
 			}
-			var err error
 			fp, err = openWithMakePath(string(name[:]))
-			if err == nil {
-				crc = uint(l.DecodeLzhuf(
-					*afp,
-					fp,
-					hdr.OriginalSize,
-					hdr.PackedSize,
-					string(name[:]),
-					method,
-					&readSize))
-				fp.(*os.File).Close()
+			if err != nil {
+				return readSize, err
+			}
+			crc = uint(l.DecodeLzhuf(
+				*afp,
+				fp,
+				hdr.OriginalSize,
+				hdr.PackedSize,
+				string(name[:]),
+				method,
+				&readSize))
+			if err = fp.(*os.File).Close(); err != nil {
+				_ = l.fail(err)
 			}
+		}
 
-			return readSize, nil
+		if l.codecErr != nil {
+			return 0, fmt.Errorf("cannot extract \"%s\": %w", name, l.codecErr)
 		}
 
 		if hdr.HasCrc && crc != hdr.Crc {
-- 
2.43.0


From dea8adef8635b9a92fa3509e112887eefe8f31b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 25/45] fix: report a requested member that is not in the
 archive and match names given without terminator

---
 lhext.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index 2d76837..47578f1 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1056,6 +1056,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	var pos int
 	var afp io.Reader
 	var outputData []byte
+	var found bool
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
@@ -1084,6 +1085,7 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 		pos = 0
 
 		if string(hdr.Name) == string(header.Name) {
+			found = true
 			var readSize int
 			readSize, outputData, err = l.extractOneStream(&afp, hdr)
 			if err != nil {
@@ -1106,6 +1108,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return outputData, fmt.Errorf("\"%s\" not found in archive", header.Name)
+	}
 	return outputData, nil
 }
 
@@ -1113,6 +1118,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	hdr := NewLzHeader()
 	var pos int
 	var afp io.Reader
+	var found bool
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
@@ -1141,6 +1147,7 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 		pos = 0
 
 		if string(hdr.Name) == string(header.Name) {
+			found = true
 			readSize, err := l.extractOne(&afp, hdr)
 			if err != nil {
 				return err
@@ -1162,6 +1169,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	/* adjust directory information */
 	l.adjustDirinfo()
 
+	if !found {
+		return fmt.Errorf("\"%s\" not found in archive", header.Name)
+	}
 	return nil
 }
 
@@ -1590,7 +1600,7 @@ func (l *Lha) needFile(name string) bool {
 		return true
 	}
 	for i := 0; i < len(l.CmdFilev); i++ {
-		if l.CmdFilev[i] == name {
+		if l.CmdFilev[i] == name || l.CmdFilev[i]+"\x00" == name {
 			return true
 		}
 	}
-- 
2.43.0


From d0f04bd23744138a898ed0d2a377494eb8187253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:32 +0000
Subject: [PATCH 26/45] fix: rewrite each member's own header and store
 incompressible data from its start

---
 lhext.go | 54 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/lhext.go b/lhext.go
index 47578f1..fcafabc 100644
--- a/lhext.go
+++ b/lhext.go
@@ -298,7 +298,18 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		}
 	}
 
-	_ = WriteHeader(nafp, hdr) /* DUMMY */
+	nafile := (*nafp).(*os.File)
+	headerPos, err := nafile.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil { /* DUMMY */
+		return err
+	}
+	dataPos, err := nafile.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
 
 	if (hdr.UnixMode & uint16(UnixFileSymlink)) == uint16(UnixFileSymlink) {
 		if !Quiet {
@@ -312,33 +323,40 @@ func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
 		return nil /* previous write_header is not DUMMY. (^_^) */
 	}
 
-	hdr.Crc, _ = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
+	hdr.Crc, err = l.EncodeLzhuf(fp, nafp, hdr.OriginalSize,
 		&vOriginalSize, &vPackedSize, hdr.Name, hdr.Method)
+	if err != nil {
+		return err
+	}
 
-	if vPackedSize < vOriginalSize {
-		//	next_pos = 0 //ftello(nafp)
-	} else { /* retry by stored method */
-		var err error
+	if l.CompressMethod > 0 && vPackedSize >= vOriginalSize { /* retry by stored method */
+		if _, err = (*fp).(io.Seeker).Seek(0, io.SeekStart); err != nil {
+			return err
+		}
+		if _, err = nafile.Seek(dataPos, io.SeekStart); err != nil {
+			return err
+		}
+		if err = nafile.Truncate(dataPos); err != nil {
+			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+		}
 		hdr.Crc, err = encodeStoredCrc(fp, nafp, hdr.OriginalSize, &vOriginalSize, &vPackedSize)
-		//if ftruncate(fileno(nafp), next_pos) == -1 {
 		if err != nil {
-			return fmt.Errorf("cannot truncate archive error :%v", err.Error())
+			return err
 		}
-		//}
-
-		//if chsize(fileno(nafp), next_pos) == -1 {
-		//	return fmt.Errorf("cannot truncate archive")
-		//}
 
 		copy(hdr.Method, []byte(Lzhuff0Method))
 	}
 	hdr.OriginalSize = vOriginalSize
 	hdr.PackedSize = vPackedSize
-	// go back to the beginning to set the new header
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekStart)
-	_ = WriteHeader(nafp, hdr)
-	_, _ = (*nafp).(*os.File).Seek(0, io.SeekEnd)
-	return nil
+	// go back to the member's header to set its final content
+	if _, err = nafile.Seek(headerPos, io.SeekStart); err != nil {
+		return err
+	}
+	if err = WriteHeader(nafp, hdr); err != nil {
+		return err
+	}
+	_, err = nafile.Seek(0, io.SeekEnd)
+	return err
 }
 
 func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reader, error) {
-- 
2.43.0


From 7208f266840bcd0f1fb54a9a140b67edb7ddba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:07 +0000
Subject: [PATCH 27/45] fix: keep old members when adding and never leave or
 install an incomplete archive

---
 lha.go   |  12 +-
 lhext.go | 415 +++++++++++++++++++++++++++----------------------------
 2 files changed, 207 insertions(+), 220 deletions(-)

diff --git a/lha.go b/lha.go
index 17d22dc..851fbc4 100644
--- a/lha.go
+++ b/lha.go
@@ -154,10 +154,8 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	_, err = os.Stat(l.archiveName)
 	if err != nil && os.IsNotExist(err) {
 		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	} else if err != nil {
+		return err
 	}
 
 	return compressBytes(l.archiveName, body, l)
@@ -167,10 +165,8 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 	_, err = os.Stat(l.archiveName)
 	if err != nil && os.IsNotExist(err) {
 		l.newArchive = true
-	} else {
-		if !os.IsExist(err) {
-			return err
-		}
+	} else if err != nil {
+		return err
 	}
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
diff --git a/lhext.go b/lhext.go
index fcafabc..e109cbe 100644
--- a/lhext.go
+++ b/lhext.go
@@ -148,8 +148,9 @@ func lhaExit(status int) {
 	os.Exit(status)
 }
 
-func writeArchiveTail(nafp *io.Writer) {
-	_, _ = (*nafp).Write([]byte{0x00})
+func writeArchiveTail(nafp *io.Writer) error {
+	_, err := (*nafp).Write([]byte{0x00})
+	return err
 }
 
 func openOldArchive(l *Lha) (*os.File, error) {
@@ -162,36 +163,98 @@ func modifyFilenameExtenstion(buffer, ext []byte, size int) []byte {
 
 }
 
-func buildStandardArchiveName(buffer, original []byte, size int) []byte {
-	copy(buffer, original[:size])
-	return modifyFilenameExtenstion(buffer, []byte(archiveNameExtension), size)
+func buildStandardArchiveName(original string) string {
+	return strings.TrimSuffix(original, filepath.Ext(original)) + archiveNameExtension
 }
 
 func buildTemporaryFile(l *Lha) (*os.File, error) {
-	f, err := os.CreateTemp("./", "lh")
+	f, err := os.CreateTemp(filepath.Dir(l.newArchiveName), "lh")
 	if err != nil {
 		return nil, err
 	}
 	l.temporaryName = f.Name()
 	return f, nil
 }
-func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, l *Lha) error {
-	if !l.Noexec {
-		var v uint
-		l.readingFilename = l.archiveName
-		l.writingFilename = l.temporaryName
-		_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+
+/* copyOldOne copies the member whose header starts at pos, header included */
+func copyOldOne(oafp *io.Reader, nafp *io.Writer, hdr *LzHeader, pos int64, l *Lha) error {
+	if _, err := (*oafp).(io.Seeker).Seek(pos, io.SeekStart); err != nil {
+		return err
+	}
+	if l.Noexec {
+		return skipToNextpos(oafp, 0, hdr.HeaderSize+hdr.PackedSize, 0)
+	}
+	var v uint
+	l.readingFilename = l.archiveName
+	l.writingFilename = l.temporaryName
+	_, err := copyfile(oafp, nafp, hdr.HeaderSize+hdr.PackedSize, 0, &v)
+	if err != nil {
+		return err
+	}
+
+	/* directory and symlink are ignored for time-stamp archiving */
+	if string(hdr.Method) != LzhdirsMethod && l.mostRecent < hdr.UnixLastModifiedStamp {
+		l.mostRecent = hdr.UnixLastModifiedStamp
+	}
+	return nil
+}
+
+/*
+placeMember copies the old members that precede the member to add. It tells
+whether an old member of the same name was found, and where its header starts.
+*/
+func (l *Lha) placeMember(oafp *io.Reader, nafp *io.Writer, ahdr, hdr *LzHeader) (replace bool, pos int64, err error) {
+	name := string(hdr.Name[:lengthOfStringInByte(hdr.Name)])
+	for *oafp != nil {
+		pos, err = (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
 		if err != nil {
-			return err
+			return false, pos, err
+		}
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return false, pos, err
+		}
+		if !hasHeader {
+			return false, pos, nil
+		}
+		cmp := -1 /* without sorting, new members follow the old ones */
+		if l.SortContents {
+			cmp = strings.Compare(string(ahdr.Name[:lengthOfStringInByte(ahdr.Name)]), name)
 		}
+		if cmp == 0 { /* REPLACE: drop old archive's */
+			return true, pos, skipToNextpos(oafp, 0, ahdr.PackedSize, 0)
+		}
+		if cmp > 0 { /* INSERT */
+			_, err = (*oafp).(io.Seeker).Seek(pos, io.SeekStart)
+			return false, pos, err
+		}
+		/* SKIP: copy old to new */
+		if err = copyOldOne(oafp, nafp, ahdr, pos, l); err != nil {
+			return false, pos, err
+		}
+	}
+	return false, 0, nil
+}
 
-		/* directory and symlink are ignored for time-stamp archiving */
-		copy(hdr.Method, "-lhd-")
-		if l.mostRecent < hdr.UnixLastModifiedStamp {
-			l.mostRecent = hdr.UnixLastModifiedStamp
+/* copyRemaining copies every old member that is left */
+func (l *Lha) copyRemaining(oafp *io.Reader, nafp *io.Writer) error {
+	ahdr := NewLzHeader()
+	for {
+		pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+		if err != nil {
+			return err
+		}
+		err, hasHeader := ahdr.GetHeader(oafp)
+		if err != nil && err != io.EOF {
+			return err
+		}
+		if !hasHeader {
+			return nil
+		}
+		if err = copyOldOne(oafp, nafp, ahdr, pos, l); err != nil {
+			return err
 		}
 	}
-	return nil
 }
 
 func initSP(sp *stringPool) {
@@ -205,8 +268,7 @@ func addSP(sp *stringPool, name []byte, size int) {
 	for sp.Used+size > sp.Size {
 		sp.Size *= 2
 	}
-	sp.Buffer[sp.N] = make([]byte, size)
-	copy(sp.Buffer[sp.N], name)
+	sp.Buffer = append(sp.Buffer, append([]byte(nil), name[:size]...))
 	sp.Used += size
 	sp.N++
 }
@@ -215,6 +277,7 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	for i := 0; i < sp.N; i++ {
 		(*vVector) = append((*vVector), string(sp.Buffer[i]))
 	}
+	*vCount = len(*vVector)
 }
 
 func findUpdateFiles(oafp *io.Reader, l *Lha) {
@@ -269,6 +332,7 @@ func buildBackupName(buffer, original string) []byte {
 	return modifyFilenameExtenstion([]byte(original), []byte(backupNameExtension), len(original))
 }
 func buildBackupFile(l *Lha) error {
+	l.backupArchiveName = buildBackupName("", l.archiveName)
 	return os.Rename(l.archiveName, string(l.backupArchiveName))
 }
 
@@ -278,10 +342,23 @@ func reportArchiveNameIfDifferent(l *Lha) {
 	}
 }
 
-func removeFiles(filec int, filev []string) {
-	for i := 0; i < filec; i++ {
-		os.Remove(filev[i])
+func removeFiles(filev []string) error {
+	for _, name := range filev {
+		if err := os.Remove(name); err != nil {
+			return err
+		}
 	}
+	return nil
+}
+
+func (l *Lha) isExcluded(name string) bool {
+	b := strings.ToUpper(filepath.Base(name))
+	for _, excluded := range l.ExcludeFiles {
+		if strings.ToUpper(excluded) == b {
+			return true
+		}
+	}
+	return false
 }
 
 func (l *Lha) addOne(fp *io.Reader, nafp *io.Writer, hdr *LzHeader) error {
@@ -363,7 +440,6 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	ahdr := NewLzHeader()
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
 	var filec int
 	var filev []string
 	var i int
@@ -381,78 +457,43 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	symlink = stbuf.Mode()&os.ModeSymlink != 0
 
 	if !directory && !symlink && !l.Noexec {
-		fp, err = os.Open(name)
+		f, err := os.Open(name)
 		if err != nil {
 			return oafp, fmt.Errorf("cannot open file \"%s\": %s", name, err.Error())
 		}
+		defer f.Close()
+		fp = f
 	}
 
 	l.initHeader(name, stbuf, hdr)
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-
-				break
-			}
-		}
+	replace, pos, err := l.placeMember(oafp, nafp, ahdr, hdr)
+	if err != nil {
+		return oafp, err
 	}
 
-	if err == nil || cmp > 0 { /* not in archive */
+	if !replace { /* not in archive */
 		if l.Noexec {
 			fmt.Printf("ADD %s\n", name)
 		} else {
-			_ = l.addOne(&fp, nafp, hdr)
+			err = l.addOne(&fp, nafp, hdr)
 		}
-	} else { /* cmp == 0 */
+	} else {
 		if !l.UpdateIfNewer ||
 			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
 			/* newer than archive's */
 			if l.Noexec {
 				fmt.Printf("REPLACE %s\n", name)
 			} else {
-				_ = l.addOne(&fp, nafp, hdr)
+				err = l.addOne(&fp, nafp, hdr)
 			}
 		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
+			err = copyOldOne(oafp, nafp, ahdr, pos, l)
 		}
 	}
-
-	fp.(*os.File).Close()
-	//fp.Close()
+	if err != nil {
+		return oafp, err
+	}
 
 	if directory && l.RecursiveArchiving { /* recursive call */
 		if findFiles(name, &filec, &filev, l) {
@@ -470,13 +511,14 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 
 func CommandAdd(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
 	var i int
 	//	var old_header int
 	var oldArchiveExist bool
 	var fw *os.File
+	var complete bool
+	var archived []string /* the files the new archive holds */
 
 	l.mostRecent = 0
 
@@ -488,10 +530,14 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
 		oldArchiveExist = true
 		oafp = fr
+		defer fr.Close()
 	}
 
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -501,16 +547,12 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
+		l.newArchiveName = buildStandardArchiveName(l.archiveName)
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -524,6 +566,13 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 			return err
 		}
 		nafp = fw
+		/* an archive that is not complete never replaces the old one */
+		defer func() {
+			if !complete {
+				fw.Close()
+				os.Remove(l.temporaryName)
+			}
+		}()
 	}
 
 	/* find needed files when automatic update */
@@ -535,10 +584,6 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
@@ -557,43 +602,34 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		}
 
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
-			oafp = *pf
+		if l.isExcluded(l.CmdFilev[i]) {
+			continue
 		}
-
+		if _, err := os.Lstat(l.CmdFilev[i]); os.IsNotExist(err) {
+			fmt.Fprintf(os.Stderr, "file \"%s\" does not exist. skip\n", l.CmdFilev[i])
+			continue
+		}
+		pf, err := l.appendIt(l.CmdFilev[i], &oafp, &nafp)
+		if err != nil {
+			return err
+		}
+		oafp = *pf
+		archived = append(archived, l.CmdFilev[i])
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
+	if oafp != nil {
+		if err := l.copyRemaining(&oafp, &nafp); err != nil {
+			return err
 		}
-		fr.Close()
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err := writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -602,13 +638,15 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err := fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %w", err)
 		}
 	}
 
@@ -623,6 +661,7 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
+			complete = true
 		}
 
 		/* set new archive file mode/group */
@@ -630,8 +669,8 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 	}
 
 	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
+	if l.DeleteAfterAppend && !l.Noexec {
+		return removeFiles(archived)
 	}
 
 	return nil
@@ -673,7 +712,6 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	ahdr := NewLzHeader()
 	hdr := NewLzHeader()
 	var fp io.Reader
-	var cmp int
 	var filec int
 	var filev []string
 	var i int
@@ -683,71 +721,37 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 		modTime: time.Now(),
 		//sys:     &syscall.Stat_t{Gid: 100, Uid: 100, Mode: 33188},
 	}
-	var err error
 
 	fp = bytes.NewReader(body)
 	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
 
-	cmp = 0 /* avoid compiler warnings `uninitialized' */
-	for *oafp != nil {
-		var hasHeader bool
-		err, hasHeader = ahdr.GetHeader(oafp)
-		if !hasHeader {
-			break
-		}
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "Error while getting Lzheader error : %v\n", err.Error())
-		}
-
-		if !l.SortContents {
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-			cmp = -1 /* to be -1 always */
-			continue
-		}
-
-		if string(ahdr.Name) == string(hdr.Name) {
-			cmp = 0
-		}
-		if cmp < 0 { /* SKIP */
-			/* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
-
-		} else {
-			if cmp == 0 { /* REPLACE */
-				/* drop old archive's */
-
-				break
-			} else { /* cmp > 0, INSERT */
-				break
-			}
-		}
+	replace, pos, err := l.placeMember(oafp, nafp, ahdr, hdr)
+	if err != nil {
+		return oafp, err
 	}
 
-	if err == nil || cmp > 0 { /* not in archive */
+	if !replace { /* not in archive */
 		if l.Noexec {
 			fmt.Printf("ADD %s\n", name)
 		} else {
-			_ = l.addOne(&fp, nafp, hdr)
+			err = l.addOne(&fp, nafp, hdr)
 		}
-	} else { /* cmp == 0 */
+	} else {
 		if !l.UpdateIfNewer ||
 			ahdr.UnixLastModifiedStamp < hdr.UnixLastModifiedStamp {
 			/* newer than archive's */
 			if l.Noexec {
 				fmt.Printf("REPLACE %s\n", name)
 			} else {
-				_ = l.addOne(&fp, nafp, hdr)
+				err = l.addOne(&fp, nafp, hdr)
 			}
 		} else { /* copy old to new */
-			if !l.Noexec {
-				_ = copyOldOne(oafp, nafp, ahdr, l)
-			}
+			err = copyOldOne(oafp, nafp, ahdr, pos, l)
 		}
 	}
+	if err != nil {
+		return oafp, err
+	}
 
 	if l.RecursiveArchiving { /* recursive call */
 		if findFiles(name, &filec, &filev, l) {
@@ -765,13 +769,13 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 
 func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	l.archiveName = archiveFilepath
-	var ahdr = NewLzHeader()
 	var oafp io.Reader
 	var nafp io.Writer
 	var i int
 	//	var old_header int
 	var oldArchiveExist bool
 	var fw *os.File
+	var complete bool
 
 	l.mostRecent = 0
 
@@ -783,10 +787,14 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* open old archive if exist */
 	fr, err := openOldArchive(l)
 	if err != nil {
+		if !os.IsNotExist(err) {
+			return err
+		}
 		oldArchiveExist = false
 	} else {
 		oldArchiveExist = true
 		oafp = fr
+		defer fr.Close()
 	}
 
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
@@ -796,16 +804,12 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 	}
 
-	if l.newArchive && oldArchiveExist {
-		fr.Close()
+	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+		oafp = nil
 	}
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		buildStandardArchiveName(
-			l.newArchiveNameBuffer,
-			[]byte(l.archiveName),
-			len(l.archiveName))
-		l.newArchiveName = string(l.newArchiveNameBuffer)
+		l.newArchiveName = buildStandardArchiveName(l.archiveName)
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -819,6 +823,13 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 			return err
 		}
 		nafp = fw
+		/* an archive that is not complete never replaces the old one */
+		defer func() {
+			if !complete {
+				fw.Close()
+				os.Remove(l.temporaryName)
+			}
+		}()
 	}
 
 	/* find needed files when automatic update */
@@ -830,10 +841,6 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 	/* cleaning arguments */
 	//cleaningFiles(&CmdFilec, &CmdFilev)
 	if l.CmdFilec == 0 {
-		fr.Close()
-		if !l.Noexec {
-			fw.Close()
-		}
 		return nil
 	}
 
@@ -852,43 +859,29 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		}
 
 		/* exclude files specified by -x option */
-		if len(l.ExcludeFiles) > 0 {
-			for j = 0; j < len(l.ExcludeFiles); j++ {
-				a := strings.ToUpper(l.ExcludeFiles[j])
-				b := strings.ToUpper(filepath.Base(l.CmdFilev[i]))
-				if a != b {
-					pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-					oafp = *pf
-				}
-			}
-		} else {
-			pf, _ := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
-			oafp = *pf
+		if l.isExcluded(l.CmdFilev[i]) {
+			continue
 		}
-
+		pf, err := l.appendBytes(l.CmdFilev[i], &oafp, &nafp, body)
+		if err != nil {
+			return err
+		}
+		oafp = *pf
 	}
 
-	if fr != nil {
-		//	old_header = ftello(oafp)
-		for {
-			_, hasHeader := (*ahdr).GetHeader(&oafp)
-			if !hasHeader {
-				break
-			}
-			if !l.Noexec {
-				//fseeko(oafp, old_header, SEEK_SET)
-				_ = copyOldOne(&oafp, &nafp, ahdr, l)
-			}
-			//	old_header = ftello(oafp)
+	if oafp != nil {
+		if err := l.copyRemaining(&oafp, &nafp); err != nil {
+			return err
 		}
-		fr.Close()
 	}
 
 	//newArchiveSize := 0 /* avoid compiler warnings `uninitialized' */
 	if !l.Noexec {
 		//	var tmp int
 
-		writeArchiveTail(&nafp)
+		if err := writeArchiveTail(&nafp); err != nil {
+			return err
+		}
 		//	tmp = ftello(nafp)
 		//	if tmp == -1 {
 		//		warning("ftello(): %s", strerror(errno))
@@ -897,13 +890,15 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 		//		new_archive_size = tmp
 		//	}
 		//	fclose(nafp)
-		fw.Close()
+		if err := fw.Close(); err != nil {
+			return err
+		}
 	}
 
 	/* build backup archive file */
-	if oldArchiveExist && l.BackupOldArchive {
+	if oldArchiveExist && l.BackupOldArchive && !l.Noexec {
 		if err := buildBackupFile(l); err != nil {
-			fmt.Fprintf(os.Stderr, "error while buildBackupFile : %v\n", err.Error())
+			return fmt.Errorf("error while buildBackupFile : %w", err)
 		}
 	}
 
@@ -918,17 +913,13 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 				return fmt.Errorf("error while renaming file error : %v", err.Error())
 				//	temporaryToNewArchiveFile(newArchiveSize)
 			}
+			complete = true
 		}
 
 		/* set new archive file mode/group */
 		setArchiveFileMode()
 	}
 
-	/* remove archived files */
-	if l.DeleteAfterAppend {
-		removeFiles(l.CmdFilec, l.CmdFilev)
-	}
-
 	return nil
 }
 
@@ -1878,8 +1869,8 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 		newname = append(newname, '/')
 	}
 
-	fileinfo, _ := os.Lstat(name)
-	if !fileinfo.IsDir() {
+	fileinfo, err := os.Lstat(name)
+	if err != nil || !fileinfo.IsDir() {
 		return false
 	}
 
-- 
2.43.0


From d6852300edb98bb32925c39459fd41c7c36d89a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:01 +0000
Subject: [PATCH 28/45] fix: find the files to update by their recorded names
 and rewind the archive afterwards

---
 lhext.go | 62 ++++++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/lhext.go b/lhext.go
index e109cbe..5c14ca3 100644
--- a/lhext.go
+++ b/lhext.go
@@ -280,51 +280,47 @@ func finishSP(sp *stringPool, vCount *int, vVector *[]string) {
 	*vCount = len(*vVector)
 }
 
-func findUpdateFiles(oafp *io.Reader, l *Lha) {
-	name := make([]byte, FilenameLength)
+func findUpdateFiles(oafp *io.Reader, l *Lha) error {
 	sp := stringPool{}
 	hdr := NewLzHeader()
-	var lenName int
 
 	initSP(&sp)
+	if *oafp == nil {
+		return nil
+	}
+	pos, err := (*oafp).(io.Seeker).Seek(0, io.SeekCurrent)
+	if err != nil {
+		return err
+	}
 
 	for {
 		err, hasHeader := hdr.GetHeader(oafp)
-		if err != nil {
-			fmt.Fprintf(os.Stderr, "error while getting header : %v\n", err.Error())
-			break
+		if err != nil && err != io.EOF {
+			return err
 		}
 		if !hasHeader {
 			break
 		}
-		if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileRegular {
-			_, err = os.Lstat(string(name))
-
-			if os.IsExist(err) { /* exist ? */
-				addSP(&sp, hdr.Name, len(hdr.Name)+1)
-			}
-		} else {
-			if (int(hdr.UnixMode) & UnixFileTypemask) == UnixFileDirectory {
-				copy(name, hdr.Name) /* ok */
-				lenName = len(name)
-				if lenName > 0 && name[lenName-1] == '/' {
-					lenName--
-					name[lenName] = 0 /* strip tail '/' */
-				}
-				_, err = os.Lstat(string(name))
-
-				if os.IsExist(err) { /* exist ? */
-					addSP(&sp, name, lenName+1)
-				}
+		name := hdr.Name[:lengthOfStringInByte(hdr.Name)]
+		if (int(hdr.UnixMode)&UnixFileTypemask) == UnixFileDirectory && len(name) > 0 && name[len(name)-1] == '/' {
+			name = name[:len(name)-1] /* strip tail '/' */
+		}
+		switch int(hdr.UnixMode) & UnixFileTypemask {
+		case UnixFileRegular, UnixFileDirectory:
+			if _, err = os.Lstat(string(name)); err == nil { /* exist ? */
+				addSP(&sp, name, len(name))
 			}
 		}
-		//	fseeko(oafp, hdr.packed_size, SEEK_CUR)
+		if err = skipToNextpos(oafp, 0, hdr.PackedSize, 0); err != nil {
+			return err
+		}
 	}
 
-	//fseeko(oafp, pos, SEEK_SET)
-
+	if _, err = (*oafp).(io.Seeker).Seek(pos, io.SeekStart); err != nil {
+		return err
+	}
 	finishSP(&sp, &l.CmdFilec, &l.CmdFilev)
-
+	return nil
 }
 
 // nolint: unused, deadcode
@@ -577,7 +573,9 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
+		if err := findUpdateFiles(&oafp, l); err != nil {
+			return err
+		}
 	}
 
 	/* build new archive file */
@@ -834,7 +832,9 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 
 	/* find needed files when automatic update */
 	if l.UpdateIfNewer && l.CmdFilec == 0 {
-		findUpdateFiles(&oafp, l)
+		if err := findUpdateFiles(&oafp, l); err != nil {
+			return err
+		}
 	}
 
 	/* build new archive file */
-- 
2.43.0


From 982c59327f909574045788b93b959f0e1b798930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 29/45] fix: count and checksum the text that text mode reads

---
 crcio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crcio.go b/crcio.go
index c610ea7..73942c4 100644
--- a/crcio.go
+++ b/crcio.go
@@ -46,8 +46,8 @@ func MakeCrcTable() {
 func (l *Lha) freadCrc(crcp *uint, p *[]byte, pindex uint, n int, fp io.Reader) (int, error) {
 	var err error
 	if TextMode {
-		n, err := l.freadTxt(p, pindex, n, fp)
-		if err != nil {
+		n, err = l.freadTxt(p, pindex, n, fp)
+		if err != nil && (err != io.EOF || n == 0) {
 			return n, err
 		}
 	} else {
-- 
2.43.0


From e94f986c922a2a5c73078dbfcda6aeb8407c4c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:00 +0000
Subject: [PATCH 30/45] fix: find the first header of a self-extracting archive
 and start reading there

---
 header.go | 35 ++++++++++++++++-------------------
 lhext.go  | 22 +++++++++++++++++++---
 util.go   |  2 +-
 3 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/header.go b/header.go
index 93d06c7..e28cae0 100644
--- a/header.go
+++ b/header.go
@@ -1022,15 +1022,18 @@ func convertFilename(name []byte, len, size int, fromCode, toCode int, fromDelim
 /* skip SFX header */
 func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 	buffer := make([]byte, 64*1024) /* max seek size */
-	var p [64 * 1024]byte
-	var n int
-	n, err := (*fp).Read(buffer)
+	seeker := (*fp).(io.Seeker)
+	start, err := seeker.Seek(0, io.SeekCurrent)
 	if err != nil {
 		return err, 0
 	}
+	n, err := io.ReadFull(*fp, buffer)
+	if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+		return err, 0
+	}
 
-	for i := 0; i < n; i++ {
-		copy(p[:], buffer[i:len(buffer)-1-i])
+	for i := 0; i+commonHeaderSize <= n; i++ {
+		p := buffer[i:n]
 
 		if !(p[iMethod] == '-' && (p[iMethod+1] == 'l' || p[iMethod+1] == 'p') && p[iMethod+4] == '-') {
 			continue
@@ -1038,27 +1041,21 @@ func (l *LzHeader) SeekLhaHeader(fp *io.Reader) (error, int) {
 		/* found "-[lp]??-" keyword (as METHOD type string) */
 
 		/* level 0 or 1 header */
-		var calcSum byte //calcSum(p+2, p[I_HEADER_SIZE])
-		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && p[iHeaderSize] > 20 && p[iHeaderChecksum] == calcSum {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+		size := int(p[iHeaderSize])
+		if (p[iHeaderLevel] == 0 || p[iHeaderLevel] == 1) && size > 20 && iMethod+size <= len(p) && int(p[iHeaderChecksum]) == calcSum(&p, iMethod, size) {
+			_, err = seeker.Seek(start+int64(i), io.SeekStart)
+			return err, 0
 		}
 
 		/* level 2 header */
 		if p[iHeaderLevel] == 2 && p[iHeaderSize] >= 24 && p[iAttribute] == 0x20 {
-			//	if fseeko(fp, (p-buffer)-n, SEEK_CUR) == -1 {
-			//		return fmt.Errorf("cannot seek header"), 1
-			//	}
-			return nil, 0
+			_, err = seeker.Seek(start+int64(i), io.SeekStart)
+			return err, 0
 		}
 	}
 
-	//	if fseeko(fp, -n, SEEK_CUR) == -1 {
-	//		return fmt.Errorf("cannot seek header"), 1
-	//	}
-	return nil, -1
+	_, err = seeker.Seek(start, io.SeekStart)
+	return err, -1
 }
 
 // nolint: unused, deadcode
diff --git a/lhext.go b/lhext.go
index 5c14ca3..bfe2b97 100644
--- a/lhext.go
+++ b/lhext.go
@@ -549,6 +549,11 @@ func CommandAdd(archiveFilepath string, l *Lha) error {
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
 		l.newArchiveName = buildStandardArchiveName(l.archiveName)
+		if oafp != nil {
+			if err, _ := NewLzHeader().SeekLhaHeader(&oafp); err != nil {
+				return err
+			}
+		}
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -808,6 +813,11 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
 
 	if fr != nil && archiveIsMsdosSfx1([]byte(l.archiveName)) {
 		l.newArchiveName = buildStandardArchiveName(l.archiveName)
+		if oafp != nil {
+			if err, _ := NewLzHeader().SeekLhaHeader(&oafp); err != nil {
+				return err
+			}
+		}
 	} else {
 		l.newArchiveName = l.archiveName
 	}
@@ -1076,7 +1086,9 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ := hdr.SeekLhaHeader(&afp); err != nil {
+			return outputData, err
+		}
 	}
 
 	/* extract each files */
@@ -1138,7 +1150,9 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ := hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
 	}
 
 	/* extract each files */
@@ -1201,7 +1215,9 @@ func CommandExtract(archiveFilepath string, l *Lha) error {
 	afp = f
 
 	if archiveIsMsdosSfx1([]byte(l.archiveName)) {
-		_, _ = hdr.SeekLhaHeader(&afp)
+		if err, _ := hdr.SeekLhaHeader(&afp); err != nil {
+			return err
+		}
 	}
 
 	/* extract each files */
diff --git a/util.go b/util.go
index 2b9e60c..3cd3ed3 100644
--- a/util.go
+++ b/util.go
@@ -86,7 +86,7 @@ func archiveIsMsdosSfx1(name []byte) bool {
 
 	if length >= 2 {
 		extension := strings.ToUpper(filepath.Ext(string(name)))
-		if extension == ".x" {
+		if extension == ".X" {
 			return true
 		}
 	}
-- 
2.43.0


From db2d0012ecaba19e488c8ce466943e086c0be2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:01 +0000
Subject: [PATCH 31/45] fix: do not archive a symbolic link whose target cannot
 be read

---
 header.go | 11 +++++------
 lhext.go  |  8 ++++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/header.go b/header.go
index e28cae0..b1f1b36 100644
--- a/header.go
+++ b/header.go
@@ -80,7 +80,7 @@ func NewLzHeader() *LzHeader {
 	}
 }
 
-func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
+func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 	//var len int
 	n := copy(hdr.Method[:], []byte(Lzhuff0Method))
 	if n != methodTypeStorage {
@@ -120,13 +120,12 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) {
 		hdr.OriginalSize = 0
 		hdr.UnixMode = uint16(UnixFileSymlink) | 0777
 		realname, err := os.Readlink(name)
-		if err == nil {
-			copy(hdr.Realname, []byte(realname))
-		} else {
-			fmt.Fprintf(os.Stderr, "error while reading symlink error : %v\n", err.Error())
+		if err != nil {
+			return fmt.Errorf("error while reading symlink error : %w", err)
 		}
+		copy(hdr.Realname, []byte(realname))
 	}
-
+	return nil
 }
 
 func calcSum(p *[]byte, start, len int) int {
diff --git a/lhext.go b/lhext.go
index bfe2b97..989d5c1 100644
--- a/lhext.go
+++ b/lhext.go
@@ -461,7 +461,9 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 		fp = f
 	}
 
-	l.initHeader(name, stbuf, hdr)
+	if err = l.initHeader(name, stbuf, hdr); err != nil {
+		return oafp, err
+	}
 
 	replace, pos, err := l.placeMember(oafp, nafp, ahdr, hdr)
 	if err != nil {
@@ -726,7 +728,9 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	}
 
 	fp = bytes.NewReader(body)
-	l.initHeader(name, stbuf, hdr) // @Todo fill stbuf
+	if err := l.initHeader(name, stbuf, hdr); err != nil { // @Todo fill stbuf
+		return oafp, err
+	}
 
 	replace, pos, err := l.placeMember(oafp, nafp, ahdr, hdr)
 	if err != nil {
-- 
2.43.0


From dcf50df0df2ee2ab84c1847f05e3f81d045cb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:39 +0000
Subject: [PATCH 32/45] fix: report a broken archive instead of bringing the
 caller down

---
 lha.go   |  1 +
 lhext.go | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/lha.go b/lha.go
index 851fbc4..41f9e56 100644
--- a/lha.go
+++ b/lha.go
@@ -86,6 +86,7 @@ func NewLha(archivename string) *Lha {
 
 func (l *Lha) Headers() (headers []*LzHeader, err error) {
 	var pos int
+	defer recoverBroken(&err)
 	// verify mode here, no extraction
 	saveVerify := VerifyMode
 	VerifyMode = true
diff --git a/lhext.go b/lhext.go
index 989d5c1..e74f007 100644
--- a/lhext.go
+++ b/lhext.go
@@ -507,7 +507,8 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	return oafp, nil
 }
 
-func CommandAdd(archiveFilepath string, l *Lha) error {
+func CommandAdd(archiveFilepath string, l *Lha) (failure error) {
+	defer recoverBroken(&failure)
 	l.archiveName = archiveFilepath
 	var oafp io.Reader
 	var nafp io.Writer
@@ -774,7 +775,8 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	return oafp, nil
 }
 
-func compressBytes(archiveFilepath string, body []byte, l *Lha) error {
+func compressBytes(archiveFilepath string, body []byte, l *Lha) (failure error) {
+	defer recoverBroken(&failure)
 	l.archiveName = archiveFilepath
 	var oafp io.Reader
 	var nafp io.Writer
@@ -961,7 +963,15 @@ func setArchiveFileMode() {
 
 }
 
-func CommandList(archiveFilepath string, l *Lha) error {
+/* recoverBroken turns the panic a broken archive provokes into an error */
+func recoverBroken(failure *error) {
+	if r := recover(); r != nil {
+		*failure = fmt.Errorf("broken archive: %v", r)
+	}
+}
+
+func CommandList(archiveFilepath string, l *Lha) (failure error) {
+	defer recoverBroken(&failure)
 	l.archiveName = archiveFilepath
 	var afp io.Reader
 	hdr := NewLzHeader()
@@ -1074,7 +1084,8 @@ func CommadDelete(archiveFilepath string, l *Lha) error {
 	return nil
 }
 
-func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
+func extractBytesWithHeader(header *LzHeader, l *Lha) (data []byte, failure error) {
+	defer recoverBroken(&failure)
 	hdr := NewLzHeader()
 	var pos int
 	var afp io.Reader
@@ -1139,7 +1150,8 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) ([]byte, error) {
 	return outputData, nil
 }
 
-func extractWithHeader(header *LzHeader, l *Lha) error {
+func extractWithHeader(header *LzHeader, l *Lha) (failure error) {
+	defer recoverBroken(&failure)
 	hdr := NewLzHeader()
 	var pos int
 	var afp io.Reader
@@ -1202,7 +1214,8 @@ func extractWithHeader(header *LzHeader, l *Lha) error {
 	return nil
 }
 
-func CommandExtract(archiveFilepath string, l *Lha) error {
+func CommandExtract(archiveFilepath string, l *Lha) (failure error) {
+	defer recoverBroken(&failure)
 	hdr := NewLzHeader()
 	var pos int
 	var afp io.Reader
@@ -1489,6 +1502,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 
 			saveQuiet = Quiet
 			saveVerbose = l.Verbose
+			defer func() {
+				Quiet = saveQuiet
+				l.Verbose = saveVerbose
+			}()
 			if !Quiet && l.OutputToStdout {
 				fmt.Fprintf(os.Stdout, "::::::::\n%s\n::::::::\n", string(name[:]))
 				Quiet = true
@@ -1506,8 +1523,6 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				string(name[:]),
 				method,
 				&readSize))
-			Quiet = saveQuiet
-			l.Verbose = saveVerbose
 		} else {
 			if !l.skipFlg || l.Force {
 
-- 
2.43.0


From 04711b4c794a8f0e2b98f4867620c08c78207eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:02 +0000
Subject: [PATCH 33/45] fix: close the extracted file even when decoding breaks
 off

---
 lhext.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lhext.go b/lhext.go
index e74f007..3b48e66 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1551,6 +1551,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 			if err != nil {
 				return readSize, err
 			}
+			defer fp.(*os.File).Close() /* whatever happens */
 			crc = uint(l.DecodeLzhuf(
 				*afp,
 				fp,
-- 
2.43.0


From 88cf48e0f273c66fd89707f5c11e7e5a6d11c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:30 +0000
Subject: [PATCH 34/45] fix: let the command line options take effect and
 report what is not implemented

---
 cmd/lharc.go | 21 ++++++++++-----------
 lhext.go     |  2 +-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index e59cd72..cb2e0b0 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -44,12 +44,6 @@ var (
 	// nolint: unused, deadcode
 	quietMode int
 	// nolint: unused, deadcode
-	newArchive bool
-	// nolint: unused, deadcode
-	updateIfNewer bool
-	// nolint: unused, deadcode
-	deleteAfterAppend bool
-	// nolint: unused, deadcode
 	backupOldArchive bool
 	// nolint: unused, deadcode
 	getFilenameFromStdin bool
@@ -90,10 +84,10 @@ func main() {
 	case lha.CmdList:
 		globalError = lha.CommandList(*archiveNameOption, l) // to be tested
 	case lha.CmdDelete:
-		_ = lha.CommadDelete(*archiveNameOption, l) // to implemennt
+		globalError = lha.CommadDelete(*archiveNameOption, l) // to implemennt
 	default:
-		fmt.Fprintf(os.Stderr, "option unknown.")
 		printVersion()
+		globalError = fmt.Errorf("option unknown")
 	}
 
 	if globalError != nil {
@@ -107,6 +101,11 @@ func main() {
 Parse LHA command and options.
 */
 func parseOption() {
+	l.Verbose = *verbosemodeoption
+	l.Noexec = *nonexecuteoption
+	l.Force = *forceoption
+	l.RecursiveArchiving = recursiveArchiving
+
 	if *listfile {
 		cmd = lha.CmdList
 		l.CmdFilev = make([]string, 0)
@@ -124,7 +123,7 @@ func parseOption() {
 	}
 
 	if *createfile != "" {
-		newArchive = true
+		l.NewArchive = true
 		cmd = lha.CmdAdd
 		l.CmdFilev = append(l.CmdFilev, *createfile)
 		l.CmdFilec++
@@ -143,13 +142,13 @@ func parseOption() {
 
 	if *updatefile {
 		cmd = lha.CmdAdd
-		updateIfNewer = true
+		l.UpdateIfNewer = true
 
 	}
 
 	if *movefile {
 		cmd = lha.CmdAdd
-		deleteAfterAppend = true
+		l.DeleteAfterAppend = true
 
 	}
 
diff --git a/lhext.go b/lhext.go
index 3b48e66..bcd2009 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1081,7 +1081,7 @@ func listHeader(l *Lha) {
 func CommadDelete(archiveFilepath string, l *Lha) error {
 	l.archiveName = archiveFilepath
 
-	return nil
+	return fmt.Errorf("delete is not implemented")
 }
 
 func extractBytesWithHeader(header *LzHeader, l *Lha) (data []byte, failure error) {
-- 
2.43.0


From 8f9c9ff50318ea31bd7021e426fa0e1a3c62b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 35/45] fix: give lh4 its own offset code parameters instead of
 the previous member's

---
 huf.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/huf.go b/huf.go
index f539cc1..d8a00c1 100644
--- a/huf.go
+++ b/huf.go
@@ -283,8 +283,7 @@ func (l *Lha) encodeStartSt1( /* void */ ) {
 	var i int
 
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
@@ -521,8 +520,7 @@ func (l *Lha) decodePSt1( /* void */ ) uint16 {
 /* lh4, 5, 6, 7 */
 func (l *Lha) decodeStartSt1( /* void */ ) {
 	switch int(dicbit) {
-	case lzhuff4Dicbit:
-	case lzhuff5Dicbit:
+	case lzhuff4Dicbit, lzhuff5Dicbit:
 		pbit = 4
 		np = uint(lzhuff5Dicbit) + 1
 	case lzhuff6Dicbit:
-- 
2.43.0


From 3a0acf3d473067370724b6181107cc0d6bfea5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:17 +0000
Subject: [PATCH 36/45] fix: leave the files named by ignored directory members
 alone, also in a dry run

---
 lhext.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lhext.go b/lhext.go
index bcd2009..eaa4177 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1575,7 +1575,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 	} else {
 		if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileDirectory) || (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileSymlink) || method == LzhdirsMethodNum {
 			/* ↑これで、Symbolic Link は、大丈夫か？ */
-			if !l.IgnoreDirectory && !VerifyMode && !l.OutputToStdout {
+			if l.IgnoreDirectory {
+				return readSize, nil /* nothing to adjust */
+			}
+			if !VerifyMode && !l.OutputToStdout {
 				if l.Noexec {
 					if !Quiet {
 						fmt.Fprintf(os.Stderr, "EXTRACT %s (directory)\n", string(name[:]))
-- 
2.43.0


From 4e131e18b45150a57652226fc29a48e9cba4a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:19 +0000
Subject: [PATCH 37/45] fix: report a directory that cannot be read instead of
 archiving it without its files

---
 lhext.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lhext.go b/lhext.go
index eaa4177..5064d41 100644
--- a/lhext.go
+++ b/lhext.go
@@ -494,7 +494,11 @@ func (l *Lha) appendIt(name string, oafp *io.Reader, nafp *io.Writer) (*io.Reade
 	}
 
 	if directory && l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
+		found, err := findFiles(name, &filec, &filev, l)
+		if err != nil {
+			return oafp, err
+		}
+		if found {
 			for i = 0; i < filec; i++ {
 				oafp, err = l.appendIt(filev[i], oafp, nafp)
 				if err != nil {
@@ -762,7 +766,11 @@ func (l *Lha) appendBytes(name string, oafp *io.Reader, nafp *io.Writer, body []
 	}
 
 	if l.RecursiveArchiving { /* recursive call */
-		if findFiles(name, &filec, &filev, l) {
+		found, err := findFiles(name, &filec, &filev, l)
+		if err != nil {
+			return oafp, err
+		}
+		if found {
 			for i = 0; i < filec; i++ {
 				oafp, err = l.appendBytes(filev[i], oafp, nafp, body)
 				if err != nil {
@@ -1897,7 +1905,7 @@ func freeSp(filev *[]string) {
 	(*filev) = (*filev)[:0]
 }
 
-func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
+func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) (bool, error) {
 
 	sp := &stringPool{}
 	newname := make([]byte, FilenameLength)
@@ -1910,16 +1918,16 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 
 	fileinfo, err := os.Lstat(name)
 	if err != nil || !fileinfo.IsDir() {
-		return false
+		return false, nil
 	}
 
 	initSP(sp)
 	files, err := os.ReadDir(name)
 	if err != nil {
-		return false
+		return false, err
 	}
 	if len(files) == 0 {
-		return false
+		return false, nil
 	}
 	for j := 0; j < len(files); j++ {
 		var toExclude bool
@@ -1940,5 +1948,5 @@ func findFiles(name string, vfilec *int, vfilev *[]string, l *Lha) bool {
 	finishSP(sp, vfilec, vfilev)
 	sort.Strings(*vfilev)
 	//cleaningFiles(vfilec, vfilev)
-	return true
+	return true, nil
 }
-- 
2.43.0


From e3c70e657090de3e0c71f8622b33f83d96649198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:38 +0000
Subject: [PATCH 38/45] fix: extract members of unknown type when forced
 instead of only claiming to

---
 lhext.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lhext.go b/lhext.go
index 5064d41..a3d46bd 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1488,8 +1488,10 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 		}
 	}
 
-	if (hdr.UnixMode&uint16(UnixFileTypemask)) == uint16(UnixFileRegular) && method != LzhdirsMethodNum {
-		//	extractRegular:
+	fileType := int(hdr.UnixMode) & UnixFileTypemask
+	/* `f' option extracts members of unknown type as regular files */
+	regular := fileType == UnixFileRegular || (l.Force && fileType != UnixFileDirectory && fileType != UnixFileSymlink)
+	if regular && method != LzhdirsMethodNum {
 		l.readingFilename = l.archiveName
 		l.writingFilename = string(name[:])
 		if l.OutputToStdout || VerifyMode {
@@ -1633,11 +1635,7 @@ func (l *Lha) extractOne(afp *io.Reader, hdr *LzHeader) (int, error) {
 				}
 			}
 		} else {
-			if l.Force { /* force extract */
-				//goto extractRegular
-			} else {
-				return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
-			}
+			return 0, fmt.Errorf("unknown file type: \"%s\". use `f' option to force extract", name)
 		}
 	}
 
-- 
2.43.0


From 2d7b40428beb885301ac5d43b113e817b08af687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 39/45] fix: archive only the file a call names when a handle
 adds several files

---
 lha.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lha.go b/lha.go
index 41f9e56..1ccbd75 100644
--- a/lha.go
+++ b/lha.go
@@ -146,33 +146,40 @@ func (l *Lha) DecompresBytes(header *LzHeader) ([]byte, error) {
 	return extractBytesWithHeader(header, l)
 }
 
+// forThisCall adds a file to archive and returns the function which forgets it
+// again, so that the next call does not archive it a second time
+func (l *Lha) forThisCall(name string) func() {
+	files, count := l.CmdFilev, l.CmdFilec
+	l.CmdFilev = append(append([]string{}, files...), name)
+	l.CmdFilec++
+	return func() {
+		l.CmdFilev, l.CmdFilec = files, count
+	}
+}
+
 func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, headerLevel int) (err error) {
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, filename)
-	l.CmdFilec++
+	defer l.forThisCall(filename)()
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else if err != nil {
+	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
+	l.newArchive = err != nil
 
 	return compressBytes(l.archiveName, body, l)
 }
 
 func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (err error) {
 	_, err = os.Stat(l.archiveName)
-	if err != nil && os.IsNotExist(err) {
-		l.newArchive = true
-	} else if err != nil {
+	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
+	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
-	l.CmdFilev = append(l.CmdFilev, fileToAdd)
-	l.CmdFilec++
+	defer l.forThisCall(fileToAdd)()
 	return CommandAdd(l.archiveName, l)
 }
-- 
2.43.0


From 8a4f6d17eb129cc3f012461274778087f40eceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 40/45] fix: do not drop the old members because an earlier
 call made a new archive

---
 lha.go   | 3 ---
 lhext.go | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/lha.go b/lha.go
index 1ccbd75..71ca5b0 100644
--- a/lha.go
+++ b/lha.go
@@ -51,7 +51,6 @@ type Lha struct {
 	NewArchive                     bool
 	UpdateIfNewer                  bool
 	BackupOldArchive               bool
-	newArchive                     bool
 	DeleteAfterAppend              bool
 	SortContents                   bool
 	RecursiveArchiving             bool
@@ -166,7 +165,6 @@ func (l *Lha) CompressBytes(filename string, body []byte, compressMethod int, he
 	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
-	l.newArchive = err != nil
 
 	return compressBytes(l.archiveName, body, l)
 }
@@ -176,7 +174,6 @@ func (l *Lha) Compress(fileToAdd string, compressMethod int, headerLevel int) (e
 	if err != nil && !os.IsNotExist(err) {
 		return err
 	}
-	l.newArchive = err != nil
 	l.HeaderLevel = headerLevel
 	MakeCrcTable()
 	l.CompressMethod = compressMethod
diff --git a/lhext.go b/lhext.go
index a3d46bd..73d980c 100644
--- a/lhext.go
+++ b/lhext.go
@@ -550,7 +550,7 @@ func CommandAdd(archiveFilepath string, l *Lha) (failure error) {
 		}
 	}
 
-	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+	if l.NewArchive && oldArchiveExist {
 		oafp = nil
 	}
 
@@ -821,7 +821,7 @@ func compressBytes(archiveFilepath string, body []byte, l *Lha) (failure error)
 		}
 	}
 
-	if (l.newArchive || l.NewArchive) && oldArchiveExist {
+	if l.NewArchive && oldArchiveExist {
 		oafp = nil
 	}
 
-- 
2.43.0


From 05e36b477d0f8898ab53eec4580734ef0b5b205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:49 +0000
Subject: [PATCH 41/45] fix: do not decode pm2 offsets with the previous
 member's tree

---
 pm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm.go b/pm.go
index 885d987..e5e6d2c 100644
--- a/pm.go
+++ b/pm.go
@@ -48,7 +48,8 @@ func (l *Lha) decodeStartPm2() {
 	histInit()
 	nextcount = 0
 	lastupdate = 0
-	l.getbits(1) /* discard bit */
+	treeSetsingle(&tree2, 0) /* not the previous member's */
+	l.getbits(1)             /* discard bit */
 }
 
 var (
-- 
2.43.0


From 8cd7f3669d6bdfe69ef6db2cd9688e1b6cf82b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:48 +0000
Subject: [PATCH 42/45] fix: refuse an invalid compression method instead of
 dropping the options after it

---
 cmd/lharc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/lharc.go b/cmd/lharc.go
index cb2e0b0..52ceb3c 100644
--- a/cmd/lharc.go
+++ b/cmd/lharc.go
@@ -186,8 +186,8 @@ func parseSubOption() {
 		case 7:
 			l.CompressMethod = lha.Lzhuff7MethodNum
 		default:
-			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'", *compressionmethod)
-			return
+			fmt.Fprintf(os.Stderr, "invalid compression method 'o%d'\n", *compressionmethod)
+			os.Exit(1)
 		}
 	}
 
-- 
2.43.0


From 02a34cc680184bf76494bc0d1e00b4af69c47cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:43 +0000
Subject: [PATCH 43/45] fix: forget the directories an earlier failed
 extraction left behind

---
 lhext.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lhext.go b/lhext.go
index 73d980c..01a039d 100644
--- a/lhext.go
+++ b/lhext.go
@@ -1100,6 +1100,8 @@ func extractBytesWithHeader(header *LzHeader, l *Lha) (data []byte, failure erro
 	var outputData []byte
 	var found bool
 
+	l.dirinfo = &LzHeaderList{} /* nothing of an earlier operation */
+
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
 	if err != nil {
@@ -1165,6 +1167,8 @@ func extractWithHeader(header *LzHeader, l *Lha) (failure error) {
 	var afp io.Reader
 	var found bool
 
+	l.dirinfo = &LzHeaderList{} /* nothing of an earlier operation */
+
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
 	if err != nil {
@@ -1230,6 +1234,7 @@ func CommandExtract(archiveFilepath string, l *Lha) (failure error) {
 	//var read_size int
 
 	l.archiveName = archiveFilepath
+	l.dirinfo = &LzHeaderList{} /* nothing of an earlier operation */
 
 	/* open archive file */
 	f, err := os.Open(l.archiveName)
-- 
2.43.0


From dfe034b8da4f03fd1f25390eecd8dcc3fe9e5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:48 +0000
Subject: [PATCH 44/45] fix: accept lh3 blocks that use a single offset code

---
 shuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shuf.go b/shuf.go
index 90dcbfb..1b69dd0 100644
--- a/shuf.go
+++ b/shuf.go
@@ -114,6 +114,7 @@ func (l *Lha) readTreeP( /*void*/ ) { /* read tree from file */
 			return
 		}
 	}
+	_ = l.fail(makeTable(int16(np), &ptLen, 8, &ptTable))
 }
 
 /* ------------------------------------------------------------------------ */
@@ -145,8 +146,8 @@ func (l *Lha) decodeCSt0( /*void*/ ) uint16 {
 			l.readTreeP()
 		} else {
 			l.readyMade(1)
+			_ = l.fail(makeTable(int16(np), &ptLen, 8, &ptTable))
 		}
-		_ = l.fail(makeTable(int16(np), &ptLen, 8, &ptTable))
 	}
 	blocksize--
 	j = int(cTable[l.peekbits(12)])
-- 
2.43.0


From 7c898ba6415979b4c36eaccb4dbb07c307da6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:23 +0000
Subject: [PATCH 45/45] fix: refuse a symbolic link whose target a header
 cannot hold instead of cutting it

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index b1f1b36..b315f2b 100644
--- a/header.go
+++ b/header.go
@@ -123,6 +123,9 @@ func (l *Lha) initHeader(name string, vStat os.FileInfo, hdr *LzHeader) error {
 		if err != nil {
 			return fmt.Errorf("error while reading symlink error : %w", err)
 		}
+		if len(realname) > len(hdr.Realname) {
+			return fmt.Errorf("the target of symlink \"%s\" is too long", name)
+		}
 		copy(hdr.Realname, []byte(realname))
 	}
 	return nil
-- 
2.43.0

